------------------------------- MODULE Buffer -------------------------------
(* Finite buffers and reservations.  cfg.cap[q] = capacity (0: unlimited);    *)
(* cfg.target[x] = queue that receives deliveries for place x ("" if none);   *)
(* cfg.kind[q].  A transport order to a place announces one delivery to its   *)
(* queue until the product is placed there.                                   *)
(* state: n[q] items, open[q] set of announced products, arrived products not *)
(* yet placed, leave[m] = products that finished on m but are still on it     *)
EXTENDS Base

BufferInit(cfg) == [in |-> Empty, open |-> Empty, late |-> Empty]

BIn(s, q)   == Get(s.in, q, {})
BOpen(s, q) == Get(s.open, q, {})
BLoad(s, q) == Cardinality(BIn(s, q)) + Cardinality(BOpen(s, q))
Guarded(cfg, q) == cfg.cap[q] > 0 /\ cfg.kind[q] \in {"in", "store"}

BufferClauses(cfg, s, e) ==
  CASE e.e = "order" ->
       LET q == cfg.target[e.g] IN
       << C("a product is sent to a queue without room for it",
             Guarded(cfg, q) => BLoad(s, q) < cfg.cap[q]),
          C("two deliveries of one product are announced for a queue", e.p \notin BOpen(s, q)) >>
  [] e.e = "enq" ->
       << C("a queue holds more products than its capacity",
             cfg.cap[e.q] > 0 => Cardinality(BIn(s, e.q)) < cfg.cap[e.q]),
          C("an unannounced delivery", cfg.kind[e.q] \in {"in", "store", "sink"} => e.p \in BOpen(s, e.q)) >>
  [] e.e = "snap" ->
       << C("a queue that has room (contents plus announced deliveries) refuses products",
             \A q \in SeqSet(e.full) : q \in DOMAIN cfg.cap =>
                 (Guarded(cfg, q) => BLoad(s, q) >= cfg.cap[q])),
          C("an unlimited queue refuses products",
             \A q \in SeqSet(e.full) : q \in DOMAIN cfg.cap => cfg.cap[q] > 0),
          C("a queue without room (contents plus announced deliveries) accepts products",
             \A q \in DOMAIN cfg.cap : Guarded(cfg, q) /\ BLoad(s, q) >= cfg.cap[q] => q \in SeqSet(e.full)),
          C("an output queue with room counts as full",
             \A q \in SeqSet(e.full) : q \in DOMAIN cfg.cap /\ cfg.kind[q] = "out" => Cardinality(BIn(s, q)) >= cfg.cap[q]),
          C("an output queue without room does not count as full",
             \A q \in DOMAIN cfg.cap : cfg.kind[q] = "out" /\ cfg.cap[q] > 0 /\ Cardinality(BIn(s, q)) >= cfg.cap[q]
                 /\ (\A p \in DOMAIN s.late : cfg.kind[s.late[p]] # "out") => q \in SeqSet(e.full)),
          C("contents plus announced deliveries exceed a queue's capacity",
             \A q \in DOMAIN cfg.cap : Guarded(cfg, q) => BLoad(s, q) <= cfg.cap[q]),
          C("a product that arrived is not placed in the queue",
             \A p \in DOMAIN s.late : cfg.kind[s.late[p]] \notin {"in", "store", "sink"}),
          C("a machine keeps a finished product although its output queue has room",
             \A p \in DOMAIN s.late : LET q == s.late[p] IN
                 cfg.kind[q] = "out" => cfg.cap[q] > 0 /\ Cardinality(BIn(s, q)) >= cfg.cap[q]) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>

BufferUpd(cfg, s, e) ==
  CASE e.e = "order" ->
         LET q == cfg.target[e.g] IN [s EXCEPT !.open = Put(@, q, BOpen(s, q) \cup {e.p})]
    [] e.e = "enq" ->
         [s EXCEPT !.in = Put(@, e.q, BIn(s, e.q) \cup {e.p}),
                   !.open = Put(@, e.q, BOpen(s, e.q) \ {e.p}),
                   !.late = Del(@, e.p)]
    [] e.e = "deq" -> [s EXCEPT !.in = Put(@, e.q, BIn(s, e.q) \ {e.p})]
    [] e.e = "ready" -> [s EXCEPT !.late = Put(@, e.p, e.q)]
    [] OTHER -> s
=============================================================================
