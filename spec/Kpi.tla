-------------------------------- MODULE Kpi --------------------------------
(* Performance indicators are functions of the event log.                    *)
(*                                                                           *)
(* The component reads the log (creation, completion, production and         *)
(* transport of products, use of auxiliaries) and then judges the reported   *)
(* tables: throughput times, output, throughput, work in process, flow       *)
(* ratio; `cut` is the start of the evaluated period (0 without warm up).    *)
EXTENDS Base

KpiInit(cfg) == [cr |-> Empty, fi |-> Empty, ty |-> Empty, work |-> Empty, move |-> Empty, run |-> Empty,
                 wip |-> Empty, aux |-> Empty, auxn |-> Empty, t |-> 0]

Done(s)       == DOMAIN s.fi
Counted(s, cut) == { p \in Done(s) : s.cr[p] >= cut }
OfType(s, S, y) == { p \in S : s.ty[p] = y }
TypesOf(s, S) == { s.ty[p] : p \in S }
RECURSIVE SumTp(_, _)
SumTp(s, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN (s.fi[p] - s.cr[p]) + SumTp(s, S \ {p})
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Span(s, S) == MaxS({ s.fi[p] : p \in S }) - MinS({ s.cr[p] : p \in S })

(* the warm up period of the static method ends with the first 15 % of the   *)
(* products of the type for which this is earliest                           *)
Before(s, p, S) == { q \in S : s.cr[q] < s.cr[p] }
UpTo(s, p, S)   == { q \in S : s.cr[q] <= s.cr[p] }
Kth(s, S, k) == CHOOSE x \in { s.cr[p] : p \in S } : \E p \in S : s.cr[p] = x /\ Cardinality(Before(s, p, S)) <= k /\ k < Cardinality(UpTo(s, p, S))
StaticCut(s) ==
  LET D == Done(s)
      K == { Kth(s, OfType(s, D, y), (Cardinality(OfType(s, D, y)) * 15) \div 100) : y \in TypesOf(s, D) }
      c == MinS(K) IN
  IF \E y \in TypesOf(s, D) : MaxS({ s.cr[p] : p \in OfType(s, D, y) }) < c THEN 0
  ELSE IF c = MinS({ s.cr[p] : p \in D }) THEN 0 ELSE c

RECURSIVE SumF(_, _)
SumF(S, f) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN Get(f, p, 0) + SumF(S \ {p}, f)
(* share (1/100 %) of x in y                                                 *)
ShareOk(pct, x, y, tol) == IF pct \notin 0..10000 THEN FALSE ELSE IF y < 20000000 THEN Near(((y \div 100) * pct) \div 100, x, tol + y \div 2000)
                           ELSE Near(((y \div 1000) * pct) \div 10, x, tol + 1000 + y \div 2000)

KpiClauses(cfg, s, e) ==
  CASE e.e = "new" -> <<C("a product is created once", e.p \notin DOMAIN s.cr)>>
    [] e.e = "fin" -> <<C("a product is finished once, after its creation", e.p \in DOMAIN s.cr /\ e.p \notin DOMAIN s.fi)>>
    [] e.e = "tp" ->
      <<C("every finished product has one throughput time: " \o e.w,
          /\ { e.v[i].p : i \in 1..Len(e.v) } = Done(s) /\ Len(e.v) = Cardinality(Done(s))),
        C("the throughput time of a product is the time from its creation to its completion: " \o e.w,
          \A i \in 1..Len(e.v) : LET x == e.v[i] IN x.p \in Done(s) =>
             /\ x.s = s.cr[x.p] /\ x.e = s.fi[x.p] /\ Near(x.d, s.fi[x.p] - s.cr[x.p], 1) /\ x.ty = s.ty[x.p])>>
    [] e.e = "cut" ->
      <<C("the warm up period ends with the creation of a product: " \o e.w, e.cut = 0 \/ e.cut \in { s.cr[p] : p \in Done(s) }),
        C("the warm up period of the static method covers the first products", e.w = "static_ratio" => e.cut = StaticCut(s))>>
    [] e.e = "out" ->
      LET S == Counted(s, e.cut) IN
      <<C("exactly the product types with finished products are reported: " \o e.w, DOMAIN e.v = TypesOf(s, S)),
        C("the output of a product type is the number of its finished products: " \o e.w,
          \A y \in DOMAIN e.v : e.v[y].n = Cardinality(OfType(s, S, y))),
        C("the throughput is the output divided by the time from the first creation to the last completion: " \o e.w,
          \A y \in DOMAIN e.v : (S # {} /\ e.v[y].per >= 0) => Near(e.v[y].per, Span(s, S), 2)),
        C("the throughput time of a product type is the mean of its finished products: " \o e.w,
          \A y \in DOMAIN e.v : Near(e.v[y].tpt * Cardinality(OfType(s, S, y)), SumTp(s, OfType(s, S, y)), Cardinality(OfType(s, S, y)) + 1))>>
    [] e.e = "wip" ->
      <<C("the work in process is the number of created minus the number of finished products: " \o e.w,
          \A i \in 1..Len(e.v) : LET x == e.v[i]
                                     D == { p \in DOMAIN s.cr : (e.y = "" \/ s.ty[p] = e.y) } IN
            x.wip = Cardinality({ p \in D : s.cr[p] <= x.t }) - Cardinality({ p \in D : p \in Done(s) /\ s.fi[p] <= x.t })),
        C("every change of the work in process is reported: " \o e.w,
          LET D == { p \in DOMAIN s.cr : (e.y = "" \/ s.ty[p] = e.y) } IN
          { s.cr[p] : p \in D } \cup { s.fi[p] : p \in D \cap Done(s) } \subseteq { e.v[i].t : i \in 1..Len(e.v) }),
        C("the mean work in process lies between its extremes: " \o e.w, e.mean = -1 \/ (e.mean >= 0 /\ e.mean <= 1000 * Cardinality(DOMAIN s.cr)))>>
    [] e.e = "wips" -> <<C("work in process is reported for every product type and in total", SeqSet(e.v) = TypesOf(s, DOMAIN s.cr) \cup {"Total"})>>
    [] e.e = "dyn" ->
      <<C("every finished product has one dynamic throughput time", Len(e.v) = Cardinality(Done(s))),
        C("the dynamic throughput times are those of the finished products",
          \A p \in Done(s) : \E i \in 1..Len(e.v) : e.v[i].p = p /\ e.v[i].ty = s.ty[p] /\ e.v[i].s = s.cr[p] /\ e.v[i].e = s.fi[p]
             /\ Near(e.v[i].d, s.fi[p] - s.cr[p], 1))>>
    [] e.e = "dynwip" ->
      <<C("the dynamic work in process covers the time without gaps: " \o e.y,
          \A i \in 1..Len(e.v) : IF i < Len(e.v) THEN e.v[i].e = e.v[i + 1].s ELSE e.v[i].e >= e.v[i].s),
        C("the dynamic work in process changes by one: " \o e.y,
          \A i \in 1..Len(e.v) : Abs(e.v[i].wip - (IF i = 1 THEN 0 ELSE e.v[i - 1].wip)) = 1),
        C("the dynamic work in process has one entry for every change: " \o e.y,
          LET D == { p \in DOMAIN s.cr : (e.y = "Total" \/ s.ty[p] = e.y) } IN Len(e.v) = Cardinality(D) + Cardinality(D \cap Done(s)))>>
    [] e.e = "ratio" ->
      LET D == OfType(s, Done(s), e.ty)
          ok == D # {} /\ SumTp(s, D) > 0 IN
      <<C("the shares of the flow time sum up to 100 %", Near(e.prod + e.move + e.idle, 10000, 5)),
        C("the production share is the time of processing without interruptions", ok => ShareOk(e.prod, SumF(D, s.work), SumTp(s, D), 50)),
        C("the transport share is the time of transports without interruptions", ok => ShareOk(e.move, SumF(D, s.move), SumTp(s, D), 50))>>
    [] e.e = "aux" ->
      <<C("the auxiliaries in use are those taken and not yet released",
          \A i \in 1..Len(e.v) : e.v[i].n >= 0 /\ e.v[i].n = Get(s.aux, e.v[i].t, 0))>>
    [] e.e \in {"work", "move", "auxuse"} -> <<C("the log is in the order of time", e.t >= s.t)>>
    [] OTHER -> <<C("the evaluation of a simulation does not fail", FALSE)>>

(* time of work and transports of a product: from a start to its end or      *)
(* interruption (a resumed step starts again)                                *)
Key(e) == <<e.r, e.s, e.p>>
Run(s, e, f) == IF e.a \in {"end state", "start interrupt"} /\ Key(e) \in DOMAIN s.run
                THEN Put(f, e.p, Get(f, e.p, 0) + (e.t - s.run[Key(e)])) ELSE f
RunUpd(s, e) == IF e.a = "start state" THEN Put(s.run, Key(e), e.t)
                ELSE IF e.a \in {"end state", "start interrupt"} THEN Del(s.run, Key(e)) ELSE s.run

KpiUpd(cfg, s, e) ==
  CASE e.e = "new" -> [s EXCEPT !.cr = Put(@, e.p, e.t), !.ty = Put(@, e.p, e.ty), !.t = e.t]
    [] e.e = "fin" -> [s EXCEPT !.fi = Put(@, e.p, e.t), !.t = e.t]
    [] e.e = "work" -> [s EXCEPT !.work = Run(s, e, @), !.run = RunUpd(s, e), !.t = e.t]
    [] e.e = "move" -> [s EXCEPT !.move = Run(s, e, @), !.run = RunUpd(s, e), !.t = e.t]
    [] e.e = "auxuse" -> [s EXCEPT !.aux = Put(@, e.t, e.n), !.t = e.t]
    [] OTHER -> s
=============================================================================
