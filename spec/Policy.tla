------------------------------- MODULE Policy -------------------------------
(* Which of its waiting requests a resource serves next.                      *)
(* cfg.pol[r]   = control policy; cfg.pt[pr] = expected process time          *)
(* cfg.tp[pr], cfg.place[x]  transports and places as in Move                 *)
(* cfg.outs[x] / cfg.ins[x] = queues counted as output / input of place x     *)
(* cfg.bsize[r] = batch size (0: no batches); cfg.type[p] = product type       *)
(* Requests are numbered in the order in which they are made.                 *)
(* state: req[n] = request n; w[r] = numbers waiting at the last quiescent    *)
(* instant, new[r] = numbers requested since; cur/lo/hi[q] = length of queue  *)
(* q now, and its extremes since then                                         *)
EXTENDS Geo

PTol == 2
PolicyInit(cfg) == [req |-> Empty, w |-> Empty, new |-> Empty, cur |-> Empty, lo |-> Empty, hi |-> Empty]

PLo(s, qs) == SumOver(SeqSet(qs), [ q \in SeqSet(qs) |-> Get(s.lo, q, Get(s.cur, q, 0)) ])
PHi(s, qs) == SumOver(SeqSet(qs), [ q \in SeqSet(qs) |-> Get(s.hi, q, Get(s.cur, q, 0)) ])

\* expected time of a request that the shortest-time policies compare
PSpt(cfg, x) == IF x.k = "prod" THEN cfg.pt[x.pr]
                ELSE Travel(cfg.tp[x.pr], cfg.place[x.o].out, cfg.place[x.g].inp)
\* expected time to the pick-up
PNear(cfg, pos, x) == Travel(cfg.tp[x.pr], pos, cfg.place[x.o].out)
PTie(cfg, pos, x, y) ==
  /\ x.pr = y.pr
  /\ LET tp == cfg.tp[x.pr]
         a == cfg.place[x.o].out
         b == cfg.place[y.o].out
         Sq(p) == (Abs(p[1] - pos[1]) \div 10) * (Abs(p[1] - pos[1]) \div 10)
                  + (Abs(p[2] - pos[2]) \div 10) * (Abs(p[2] - pos[2]) \div 10)
     IN \/ tp.model # "dist"
        \/ tp.metric = "manhattan" /\ Manhattan(pos, a) = Manhattan(pos, b)
        \/ tp.metric # "manhattan" /\ Sq(a) = Sq(b)

\* d was dispatched while w kept waiting
PolicyOK(cfg, s, r, pos, d, w, old) ==
  LET x == s.req[d]
      y == s.req[w]
  IN CASE cfg.pol[r] = "FIFO" -> d < w
       [] cfg.pol[r] = "LIFO" -> old => d > w
       [] cfg.pol[r] \in {"SPT", "SPT_transport"} -> old => PSpt(cfg, x) <= PSpt(cfg, y) + PTol
       [] cfg.pol[r] \in {"nearest_out", "nearest_in"} ->
            old => /\ PNear(cfg, pos, x) <= PNear(cfg, pos, y) + PTol
                   /\ PTie(cfg, pos, x, y) =>
                        IF cfg.pol[r] = "nearest_out"
                        THEN PHi(s, cfg.outs[x.g]) >= PLo(s, cfg.outs[y.g])
                        ELSE PLo(s, cfg.ins[x.g]) <= PHi(s, cfg.ins[y.g])
       [] OTHER -> TRUE

\* a batch machine starts the first batch, in the order of its policy, that products of one type waiting for
\* one process fill; D: requests dispatched, W: requests that waited and still wait, N: all that still wait
BKey(cfg, s, n) == <<cfg.type[s.req[n].p], s.req[n].pr>>
BBefore(cfg, s, r, n, D) ==
  CASE cfg.pol[r] = "FIFO" -> \A d \in D : n < d
    [] cfg.pol[r] = "LIFO" -> \A d \in D : n > d
    [] cfg.pol[r] = "SPT" -> \A d \in D : PSpt(cfg, s.req[n]) + PTol < PSpt(cfg, s.req[d])
    [] OTHER -> FALSE
BatchOrder(cfg, s, r, D, W, N) ==
  D # {} =>
    /\ \A d \in D : \A w \in (IF cfg.pol[r] = "FIFO" THEN N ELSE W) :
         BKey(cfg, s, d) = BKey(cfg, s, w) =>
           (cfg.pol[r] = "FIFO" => d < w) /\ (cfg.pol[r] = "LIFO" => d > w)
    /\ LET B == { n \in W : BBefore(cfg, s, r, n, D) }
           Keys == { BKey(cfg, s, n) : n \in B }
       IN \A k \in Keys : Cardinality({ n \in B : BKey(cfg, s, n) = k }) < cfg.bsize[r]

PolicyName(p) ==
  CASE p = "FIFO" -> "a first-come resource serves a later request before an earlier one"
    [] p = "LIFO" -> "a last-come resource serves an earlier request before a later one"
    [] p = "SPT" -> "a shortest-process-time resource serves a longer process first"
    [] p = "SPT_transport" -> "a shortest-transport-time carrier serves a longer transport first"
    [] p = "nearest_out" -> "a nearest-origin carrier fetches a more distant load or ignores the output queue length"
    [] p = "nearest_in" -> "a nearest-origin carrier fetches a more distant load or ignores the input queue length"
    [] OTHER -> "other"

PolicyClauses(cfg, s, e) ==
  CASE e.e = "req" -> << C("a request is made twice", e.n \notin DOMAIN s.req) >>
  [] e.e = "snap" ->
       LET R == DOMAIN cfg.pol
           Old(r) == Get(s.w, r, {})
           Now(r) == SeqSet(e.w[r])
           Dis(r) == (Old(r) \cup Get(s.new, r, {})) \ Now(r)
           Pos(r) == Get(e.pos, r, <<0, 0>>)
           Ok(p) == \A r \in { x \in R : cfg.pol[x] = p /\ cfg.bsize[x] = 0 } :
                      \A d \in Dis(r) : \A w \in Now(r) : PolicyOK(cfg, s, r, Pos(r), d, w, w \in Old(r))
       IN << C("a request is forgotten and appears again or was never made",
                \A r \in R : Now(r) \subseteq Old(r) \cup Get(s.new, r, {})),
             C("a waiting request is listed twice", \A r \in R : Cardinality(Now(r)) = Len(e.w[r])),
             C("a batch machine does not start the batch that comes first in the order of its policy",
                \A r \in R : cfg.bsize[r] > 0 => BatchOrder(cfg, s, r, Dis(r), Old(r) \cap Now(r), Now(r))),
             C(PolicyName("FIFO"), Ok("FIFO")), C(PolicyName("LIFO"), Ok("LIFO")), C(PolicyName("SPT"), Ok("SPT")),
             C(PolicyName("SPT_transport"), Ok("SPT_transport")),
             C(PolicyName("nearest_out"), Ok("nearest_out")), C(PolicyName("nearest_in"), Ok("nearest_in")) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>

PLen(s, q, n) == [s EXCEPT !.cur = Put(@, q, n),
                           !.lo = Put(@, q, Min2(n, Get(s.lo, q, Get(s.cur, q, 0)))),
                           !.hi = Put(@, q, Max2(n, Get(s.hi, q, Get(s.cur, q, 0))))]

PolicyUpd(cfg, s, e) ==
  CASE e.e = "req" -> [s EXCEPT !.req = Put(@, e.n, e),
                                !.new = Put(@, e.r, Get(@, e.r, {}) \cup {e.n})]
    [] e.e = "enq" -> PLen(s, e.q, Get(s.cur, e.q, 0) + 1)
    [] e.e = "deq" -> PLen(s, e.q, Get(s.cur, e.q, 0) - 1)
    [] e.e = "snap" -> [s EXCEPT !.w = TLCEval([ r \in DOMAIN e.w |-> SeqSet(e.w[r]) ]), !.new = Empty,
                                 !.lo = Empty, !.hi = Empty]
    [] OTHER -> s
=============================================================================
