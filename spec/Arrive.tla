------------------------------- MODULE Arrive -------------------------------
(* Arrivals and durations follow the configured time models.                 *)
(*                                                                           *)
(* A time model tm is [k, v, abs, cyc]:                                      *)
(*   "sched"  the schedule v (instants when abs, otherwise differences),     *)
(*            repeated when cyc                                              *)
(*   "set"    any of the values v (samples; a constant has one)              *)
(*   "any"    a continuous distribution: any value >= 0                      *)
EXTENDS Geo

(* difference between the instants i-1 and i of a schedule, 1 <= i <= Len    *)
Step1(tm, i) == IF tm.abs /\ i > 1 THEN tm.v[i] - tm.v[i - 1] ELSE tm.v[i]
(* the n-th value (n >= 1) a time model gives; -1 when it is exhausted       *)
NthGap(tm, n) == IF n <= Len(tm.v) THEN Step1(tm, n)
                 ELSE IF tm.cyc THEN Step1(tm, ((n - 1) % Len(tm.v)) + 1) ELSE -1
CanBe(tm, d) == CASE tm.k = "set" -> \E i \in 1..Len(tm.v) : Near(tm.v[i], d, 1)
                  [] tm.k = "any" -> d >= 0
                  [] OTHER -> TRUE
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

ArriveInit(cfg) == [n |-> [ r \in DOMAIN cfg.src |-> 0 ], last |-> [ r \in DOMAIN cfg.src |-> 0 ]]

Tm(cfg, r) == cfg.tm[cfg.src[r]]
Seen(cfg, s) == { r \in DOMAIN cfg.src : Tm(cfg, r).k = "sched" }

ArriveClauses(cfg, s, e) ==
  IF e.e = "new" THEN
    <<C("products are created by a source of their type", e.r \in DOMAIN cfg.src /\ cfg.ty[e.r] = e.ty)>>
    \o (IF e.r \in DOMAIN cfg.src THEN
    <<C("a source stops when its schedule is exhausted",
        Tm(cfg, e.r).k = "sched" => NthGap(Tm(cfg, e.r), s.n[e.r] + 1) >= 0),
      C("an arrival happens at the time of the schedule",
        Tm(cfg, e.r).k = "sched" => e.t = s.last[e.r] + NthGap(Tm(cfg, e.r), s.n[e.r] + 1)),
      C("the time between two arrivals is a value of the time model", CanBe(Tm(cfg, e.r), e.t - s.last[e.r]))>> ELSE <<>>)
  ELSE IF e.e = "dur" THEN
    <<C("the duration is a value of its time model: " \o e.w, CanBe(cfg.tm[e.tm], e.d))>>
  ELSE IF e.e = "mindur" THEN
    <<C("the duration is not less than the values of its time model: " \o e.w,
        cfg.tm[e.tm].k = "set" => e.d >= MinOf(SeqSet(cfg.tm[e.tm].v)) - 1)>>
  ELSE IF e.e = "end" THEN
    <<C("no arrival of a schedule is missing", \A r \in DOMAIN cfg.src : Tm(cfg, r).k = "sched" =>
          LET g == NthGap(Tm(cfg, r), s.n[r] + 1) IN g < 0 \/ s.last[r] + g >= e.t),
      C("no arrival is missing", \A r \in DOMAIN cfg.src : Tm(cfg, r).k = "set" =>
          s.last[r] + MaxOf(SeqSet(Tm(cfg, r).v)) >= e.t)>>
  \* ---- time models on their own
  ELSE IF e.e = "draws" THEN
    <<C("a schedule gives its differences in order, again and again when cyclic, and then no more",
        e.tm.k = "sched" => \A i \in 1..Len(e.d) : e.d[i] = (IF NthGap(e.tm, i) < 0 THEN -1000 ELSE NthGap(e.tm, i))),
      C("a time model gives one of its values", \A i \in 1..Len(e.d) : CanBe(e.tm, e.d[i])),
      C("the expected time is the mean of the values",
        e.tm.k # "any" => Near(e.mean * Len(e.tm.v),
           (IF e.tm.k = "sched" THEN SumSeq([ i \in 1..Len(e.tm.v) |-> Step1(e.tm, i) ]) ELSE SumSeq(e.tm.v)), Len(e.tm.v)))>>
  ELSE IF e.e = "freq" THEN
    <<C("the samples of a sample time model are equally likely",
        \A i \in 1..Len(e.cnt) : Abs(e.cnt[i] * e.k - e.mult[i] * e.n) <= e.tol * e.k)>>
  ELSE IF e.e = "stat" THEN
    <<C("the mean of a distribution is its location: " \o e.w, Abs(e.mean - e.loc) <= e.tolm),
      C("the spread of a distribution is its scale: " \o e.w, Abs(e.sd - e.scale) <= e.tols),
      C("the expected time of a distribution is its location: " \o e.w, Near(e.exp, e.loc, 1)),
      C("durations are never negative: " \o e.w, e.min >= 0)>>
  ELSE IF e.e = "dist" THEN
    <<C("a distance time model gives distance / speed + reaction time", Near(Travel(e.tm, e.a, e.b), e.d, 2)),
      C("the expected time of a distance is its time", e.exp = e.d)>>
  ELSE <<C("the simulation of a valid configuration does not fail", FALSE)>>

ArriveUpd(cfg, s, e) ==
  IF e.e = "new" THEN [n |-> Put(s.n, e.r, s.n[e.r] + 1), last |-> Put(s.last, e.r, e.t)] ELSE s
=============================================================================
