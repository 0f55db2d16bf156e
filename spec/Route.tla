------------------------------- MODULE Route --------------------------------
(* Routing decisions.  A product is sent to a machine that offers its next    *)
(* step and has room; the routing heuristic of its source chooses among the   *)
(* machines, and among the carriers that can bring it there.                  *)
(* cfg.mach     = machines in their order of definition; cfg.carr likewise    *)
(* cfg.procs[r] = processes of resource r in order; cfg.impl[step]            *)
(* cfg.ins[m]   = input queues of m (stores included); cfg.cap[q]             *)
(* cfg.target[x]= queue that receives deliveries for place x                  *)
(* cfg.heur[src], cfg.steps[type], cfg.type[p]                                *)
(* cfg.tset[type] = transport processes a product may use; cfg.net[pr] = sets *)
(* of places that link process pr connects                                    *)
(* All decisions of an instant are judged at its end, against the least and   *)
(* the greatest queue length, load and number of waiting orders that any      *)
(* moment of the instant could have shown.                                    *)
EXTENDS Base

RouteInit(cfg) == [src |-> Empty, goal |-> Empty, in |-> Empty, open |-> Empty,
                   lo |-> Empty, hi |-> Empty, full |-> Empty, w |-> Empty, nw |-> Empty, dec |-> <<>>]

RIn(s, q)   == Get(s.in, q, {})
ROpen(s, q) == Get(s.open, q, {})
RLen(s, q)  == Cardinality(RIn(s, q))
RLoad(s, q) == Cardinality(RIn(s, q)) + Cardinality(ROpen(s, q))
RLo(s, q) == Get(s.lo, q, RLen(s, q))
RHi(s, q) == Get(s.hi, q, RLen(s, q))
RTop(s, q) == Get(s.full, q, RLoad(s, q))
RSumLo(s, qs) == SumOver(SeqSet(qs), [ q \in SeqSet(qs) |-> RLo(s, q) ])
RSumHi(s, qs) == SumOver(SeqSet(qs), [ q \in SeqSet(qs) |-> RHi(s, q) ])

\* implementations of the step that process pr belongs to, for product type t
RImpl(cfg, t, pr) ==
  IF pr \in SeqSet(cfg.rework) THEN {pr}
  ELSE UNION { SeqSet(cfg.impl[x]) : x \in { y \in SeqSet(cfg.steps[t]) : pr \in SeqSet(cfg.impl[y]) } }
Offers(cfg, m, I) == \E i \in 1..Len(cfg.procs[m]) : cfg.procs[m][i] \in I
\* m had room during the whole instant
Roomy(cfg, s, m) == \A q \in SeqSet(cfg.ins[m]) : cfg.cap[q] = 0 \/ RTop(s, q) < cfg.cap[q]
Pos(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
FirstOf(cfg, m, I) == LET P == cfg.procs[m] IN P[CHOOSE i \in 1..Len(P) : P[i] \in I /\ \A j \in 1..(i - 1) : P[j] \notin I]

\* transport process pr brings a product from o to g
Reach(cfg, pr, o, g) ==
  pr \in DOMAIN cfg.net => \E i \in 1..Len(cfg.net[pr]) : {o, g} \subseteq SeqSet(cfg.net[pr][i])
CanCarry(cfg, c, t, o, g) ==
  \E i \in 1..Len(cfg.procs[c]) : cfg.procs[c][i] \in SeqSet(cfg.tset[t]) /\ Reach(cfg, cfg.procs[c][i], o, g)
Reachable(cfg, t, o, g) == \E i \in 1..Len(cfg.carr) : CanCarry(cfg, cfg.carr[i], t, o, g)

RMachOK(cfg, s, d) ==
  LET t == cfg.type[d.p]
      I == RImpl(cfg, t, d.pr)
      h == cfg.heur[s.src[d.p]]
      Cand == { m \in SeqSet(cfg.mach) : m # d.g /\ Offers(cfg, m, I) /\ Roomy(cfg, s, m) /\ Reachable(cfg, t, d.o, m) }
  IN CASE h = "FIFO" -> \A m \in Cand : Pos(cfg.mach, d.g) < Pos(cfg.mach, m)
       [] h = "shortest_queue" -> \A m \in Cand : RSumLo(s, cfg.ins[d.g]) <= RSumHi(s, cfg.ins[m])
       [] OTHER -> TRUE
RProcOK(cfg, s, d) ==
  LET I == RImpl(cfg, cfg.type[d.p], d.pr) IN
  cfg.heur[s.src[d.p]] = "FIFO" => d.pr = FirstOf(cfg, d.g, I)

\* orders waiting at carrier c during the instant that ends with waiting sets now
RCarrOK(cfg, s, now, d) ==
  LET h == cfg.heur[s.src[d.p]]
      Cand == { c \in SeqSet(cfg.carr) : c # d.r /\ CanCarry(cfg, c, cfg.type[d.p], d.o, d.g) }
      Least(c) == Cardinality((Get(s.w, c, {}) \cap now[c]) \ {d.n})
      Most(c)  == Cardinality(Get(s.w, c, {}) \cup Get(s.nw, c, {}))
  IN CASE h = "FIFO" -> \A c \in Cand : Pos(cfg.carr, d.r) < Pos(cfg.carr, c)
       [] h = "shortest_queue" -> \A c \in Cand : Least(d.r) <= Most(c)
       [] OTHER -> TRUE

RouteClauses(cfg, s, e) ==
  CASE e.e = "order" ->
       << C("an unknown product is routed", e.p \in DOMAIN s.src),
          C("a carrier that does not offer the product's transport process is chosen",
             e.tp \in SeqSet(cfg.procs[e.r]) /\ e.tp \in SeqSet(cfg.tset[cfg.type[e.p]])),
          C("a carrier is chosen that cannot bring the product to its target", Reach(cfg, e.tp, e.o, e.g)),
          C("a product is routed to a machine that does not offer its next step",
             e.g \in SeqSet(cfg.mach) /\ e.pr # None => e.pr \in SeqSet(cfg.procs[e.g])) >>
  [] e.e = "use" ->
       << C("a product requests a process of another machine than the one it was routed to",
             Get(s.goal, e.p, None) = e.r),
          C("a machine is requested for a process that it does not offer", e.pr \in SeqSet(cfg.procs[e.r])),
          C("a machine is requested for a process that is no step of the product",
             RImpl(cfg, cfg.type[e.p], e.pr) # {}) >>
  [] e.e = "snap" /\ e.final = 0 ->
       LET now == [ c \in DOMAIN e.w |-> SeqSet(e.w[c]) ]
           D == { s.dec[i] : i \in 1..Len(s.dec) }
           M == { d \in D : d.g \in SeqSet(cfg.mach) /\ d.pr # None }
       IN << C("the routing heuristic does not choose the machine", \A d \in M : RMachOK(cfg, s, d)),
             C("the routing heuristic does not choose the process", \A d \in M : RProcOK(cfg, s, d)),
             C("the routing heuristic does not choose the carrier", \A d \in D : RCarrOK(cfg, s, now, d)) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>

\* s is the state before, t the one after a change of queue q
RTrack(s, t, q) ==
  [t EXCEPT !.lo = Put(@, q, Min2(RLo(s, q), RLen(t, q))), !.hi = Put(@, q, Max2(RHi(s, q), RLen(t, q))),
            !.full = Put(@, q, Max2(RTop(s, q), RLoad(t, q)))]
RouteUpd(cfg, s, e) ==
  CASE e.e = "new" -> [s EXCEPT !.src = Put(@, e.p, e.r)]
    [] e.e = "order" ->
         LET q == cfg.target[e.g]
             t == [s EXCEPT !.open = Put(@, q, ROpen(s, q) \cup {e.p}), !.goal = Put(@, e.p, e.g),
                            !.nw = Put(@, e.r, Get(@, e.r, {}) \cup {e.n}), !.dec = Append(@, e)]
         IN RTrack(s, t, q)
    [] e.e = "other" -> [s EXCEPT !.nw = Put(@, e.r, Get(@, e.r, {}) \cup {e.n})]
    [] e.e = "enq" ->
         RTrack(s, [s EXCEPT !.in = Put(@, e.q, RIn(s, e.q) \cup {e.p}), !.open = Put(@, e.q, ROpen(s, e.q) \ {e.p})], e.q)
    [] e.e = "deq" -> RTrack(s, [s EXCEPT !.in = Put(@, e.q, RIn(s, e.q) \ {e.p})], e.q)
    [] e.e = "snap" -> [s EXCEPT !.w = TLCEval([ c \in DOMAIN e.w |-> SeqSet(e.w[c]) ]), !.nw = Empty, !.dec = <<>>,
                                 !.lo = Empty, !.hi = Empty, !.full = Empty]
    [] OTHER -> s
=============================================================================
