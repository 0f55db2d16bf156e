------------------------------- MODULE Batch --------------------------------
(* Batch machines (one process, capacity = batch size).                       *)
(* cfg.size[r] batch size of the judged machines; cfg.type[p] product type    *)
(* state: run[r]  = products in work, [p |-> [s, x]]                          *)
(*        new[r]  = products whose work started at the present instant        *)
(*        old[r]  = products in work before the present instant               *)
(*        got[r]  = products taken from the input queue and not worked on yet *)
EXTENDS Base

BatchInit(cfg) == [ run |-> Empty, new |-> Empty, old |-> Empty, got |-> Empty ]

BJudged(cfg, e) == e.r \in DOMAIN cfg.size
BRun(s, r) == Get(s.run, r, Empty)
BNew(s, r) == Get(s.new, r, {})
BOld(s, r) == Get(s.old, r, {})
BGot(s, r) == Get(s.got, r, {})

BatchClauses(cfg, s, e) ==
  CASE e.e = "work" /\ e.a = "start" /\ e.p \notin DOMAIN BRun(s, e.r) ->
       << C("a batch machine works on a product it has not taken", e.p \in BGot(s, e.r)) >>
  [] e.e = "work" /\ e.a = "end" ->
       << C("work on a product ends that was not in work", e.p \in DOMAIN BRun(s, e.r)) >>
  [] e.e = "snap" ->
       LET R == DOMAIN cfg.size
           One == SeqSet(cfg.one)          \* machines with room for one batch only
           Grp(r, p) == { q \in BNew(s, r) \cap DOMAIN BRun(s, r) :
                             /\ p \in DOMAIN BRun(s, r)
                             /\ cfg.type[q] = cfg.type[p]
                             /\ BRun(s, r)[q].s = BRun(s, r)[p].s
                             /\ BRun(s, r)[q].x = BRun(s, r)[p].x }
       IN
       << C("a batch is started that is not full",
             \A r \in R : Cardinality(BNew(s, r)) % cfg.size[r] = 0
                          /\ (r \in One /\ BNew(s, r) # {} => Cardinality(BNew(s, r)) = cfg.size[r])),
          C("a batch machine starts a batch while another one is in work",
             \A r \in One : BNew(s, r) # {} => DOMAIN BRun(s, r) \subseteq BNew(s, r)),
          C("the products of a batch are of different types, processes or durations",
             \A r \in R : \A p \in BNew(s, r) \cap DOMAIN BRun(s, r) : Cardinality(Grp(r, p)) % cfg.size[r] = 0),
          C("the products of a batch do not end together",
             \A r \in One : BOld(s, r) # {} =>
                 \/ BOld(s, r) \subseteq DOMAIN BRun(s, r)
                 \/ BOld(s, r) \cap (DOMAIN BRun(s, r) \ BNew(s, r)) = {}) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>

BatchUpd(cfg, s, e) ==
  CASE e.e = "take" -> [s EXCEPT !.got = Put(@, e.r, BGot(s, e.r) \cup {e.p})]
    [] e.e = "work" /\ e.a = "start" ->
         [s EXCEPT !.run = Put(@, e.r, Put(BRun(s, e.r), e.p, [s |-> e.s, x |-> e.x])),
                   !.new = IF e.p \in DOMAIN BRun(s, e.r) THEN @ ELSE Put(@, e.r, BNew(s, e.r) \cup {e.p})]
    [] e.e = "work" /\ e.a = "end" ->
         [s EXCEPT !.run = Put(@, e.r, Del(BRun(s, e.r), e.p)),
                   !.got = Put(@, e.r, BGot(s, e.r) \ {e.p})]
    [] e.e = "snap" -> [s EXCEPT !.new = Empty, !.old = [ r \in DOMAIN s.run |-> DOMAIN s.run[r] ]]
    [] OTHER -> s
=============================================================================
