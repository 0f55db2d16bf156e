-------------------------------- MODULE Flow --------------------------------
(* Material flow: every product is in exactly one place at a time, moves only *)
(* along  source queue -> carrier -> input queue -> machine -> output queue   *)
(* -> carrier -> ... -> sink queue, and is finished exactly once, at a sink   *)
(* of its own product type.                                                   *)
(*                                                                            *)
(* cfg.q[q]    = [kind, owner]  kind in {src, in, out, store, sink}           *)
(* cfg.type[p] = product type;  cfg.srcT[owner], cfg.snkT[owner] their types  *)
(* state: at[p] = [k |-> "q" | "mach" | "carr" | "done", x |-> queue/machine] *)
EXTENDS Base

FlowInit(cfg) == [at |-> Empty, made |-> {}, fin |-> <<>>]

FlowTypeOf(cfg, p) == Get(cfg.type, p, None)

FlowClauses(cfg, s, e) ==
  CASE e.e = "enq" ->
       LET q == cfg.q[e.q] IN
       IF e.p \notin DOMAIN s.at
       THEN << C("a product enters the system only through a source", q.kind = "src"),
               C("a source releases only its own product type",
                  q.kind = "src" => cfg.srcT[q.owner] = FlowTypeOf(cfg, e.p)) >>
       ELSE LET a == s.at[e.p] IN
            << C("a finished product moves again", a.k # "done"),
               C("a product is put into a queue while it already lies in one", a.k # "q"),
               C("a machine gives a product to a place that is not its output",
                  a.k = "mach" => q.kind = "out" /\ q.owner = a.x),
               C("a carrier drops a product at a place that is no input, storage or sink",
                  a.k = "carr" => q.kind \in {"in", "store", "sink"}),
               C("a product is delivered to a sink of another product type",
                  q.kind = "sink" => cfg.snkT[q.owner] = FlowTypeOf(cfg, e.p)) >>
  [] e.e = "deq" ->
       << C("a product is taken from a queue it does not lie in",
             e.p \in DOMAIN s.at /\ s.at[e.p].k = "q" /\ s.at[e.p].x = e.q),
          C("a product leaves a sink", cfg.q[e.q].kind # "sink") >>
  [] e.e = "log" /\ e.a = "created product" ->
       << C("a product is created twice", e.p \notin s.made),
          C("a product is created at a source of another product type",
             e.r \in DOMAIN cfg.srcT /\ cfg.srcT[e.r] = FlowTypeOf(cfg, e.p)) >>
  [] e.e = "log" /\ e.a = "work" ->
       << C("a machine works on a product that it does not hold",
             e.r \in SeqSet(cfg.machines) =>
                e.p \in DOMAIN s.at /\ s.at[e.p].k = "mach" /\ s.at[e.p].x = e.r) >>
  [] e.e = "log" /\ e.a = "finished product" ->
       << C("an unknown product is finished", e.p \in DOMAIN s.at),
          C("a product is finished twice", e.p \in DOMAIN s.at => s.at[e.p].k # "done"),
          C("a product is finished outside a sink",
             e.p \in DOMAIN s.at /\ s.at[e.p].k = "q" => cfg.q[s.at[e.p].x].kind = "sink"),
          C("a product is finished while a machine or carrier holds it",
             e.p \in DOMAIN s.at => s.at[e.p].k \in {"q", "done"}),
          C("a product is finished at another place than where it lies",
             e.p \in DOMAIN s.at /\ s.at[e.p].k = "q" => cfg.q[s.at[e.p].x].owner = e.r) >>
  [] e.e = "snap" ->
       LET here(p) == s.at[p]
           sinkq(p) == here(p).k = "q" /\ cfg.q[here(p).x].kind = "sink"
           open == { p \in DOMAIN s.at : here(p).k # "done" }
       IN
       << C("a queue does not hold exactly the products that lie in it",
             \A q \in DOMAIN e.q :
                 /\ \A i \in 1..Len(e.q[q]) :
                       LET p == e.q[q][i] IN
                       p \in DOMAIN s.at /\ (s.at[p].k = "done" \/ (s.at[p].k = "q" /\ s.at[p].x = q))
                 /\ Cardinality(SeqSet(e.q[q])) = Len(e.q[q])),
          C("a product lying in a queue is missing there",
             \A p \in DOMAIN s.at : here(p).k = "q" =>
                 \E i \in 1..Len(e.q[here(p).x]) : e.q[here(p).x][i] = p),
          C("a product that entered is neither in the system nor finished",
             \A p \in open : p \in DOMAIN e.loc),
          C("a finished product is still registered as in the system",
             \A p \in DOMAIN e.loc : p \in open),
          C("the number of finished products is wrong", e.fin = Len(s.fin)),
          C("a product's reported place is not where it is",
             \A p \in DOMAIN e.loc : p \in DOMAIN s.at =>
                 CASE here(p).k = "q"    -> e.loc[p] = cfg.q[here(p).x].owner
                   [] here(p).k = "mach" -> e.loc[p] = here(p).x
                   [] here(p).k = "carr" -> e.loc[p] \in SeqSet(cfg.carriers)
                   [] OTHER -> TRUE),
          C("a product lies in a sink without being finished",
             \A p \in DOMAIN s.at : ~sinkq(p)),
          C("a product is in the system without having been created, or the reverse",
             s.made = DOMAIN s.at) >>
  [] e.e = "end" ->
       << C("the finished products are not the ones that reached a sink",
             SeqSet(e.fin) = SeqSet(s.fin) /\ Len(e.fin) = Len(s.fin)),
          C("the open products are not the ones still in the system",
             SeqSet(e.open) = { p \in DOMAIN s.at : s.at[p].k # "done" }) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>

FlowUpd(cfg, s, e) ==
  CASE e.e = "enq" -> [s EXCEPT !.at = Put(@, e.p, [k |-> "q", x |-> e.q])]
    [] e.e = "deq" ->
         LET q == cfg.q[e.q] IN
         [s EXCEPT !.at = Put(@, e.p, IF q.kind = "in" THEN [k |-> "mach", x |-> q.owner]
                                                        ELSE [k |-> "carr", x |-> None])]
    [] e.e = "log" /\ e.a = "created product" -> [s EXCEPT !.made = @ \cup {e.p}]
    [] e.e = "log" /\ e.a = "finished product" ->
         [s EXCEPT !.at = Put(@, e.p, [k |-> "done", x |-> e.r]), !.fin = Append(@, e.p)]
    [] OTHER -> s
=============================================================================
