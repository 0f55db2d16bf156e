------------------------------- MODULE Charge -------------------------------
(* Batteries.  cfg.batt[r] = [lo, hi]: 90 % of the smallest / largest battery *)
(* time, exact: nothing is rounded; cfg.dur[r]: possible charging times       *)
(* (<<>>: any); cfg.cap[r] capacity                                           *)
(* state: used[r] work begun since the last charging; run[r] keys in work;    *)
(*        ch[r] = [t, x] charging in progress; cur[c] = load of the order in  *)
(*        work on a carrier (its later legs belong to the same process)       *)
EXTENDS Base

Tol == 3
ChargeInit(cfg) == [used |-> Empty, run |-> Empty, ch |-> Empty, n |-> Empty, cur |-> Empty]
CUsed(s, r) == Get(s.used, r, 0)
CRunning(s, r) == Get(s.run, r, {})
CCnt(s, r) == Get(s.n, r, 0)     \* pieces of work since the last charging (bounds the rounding)
\* where all times are sums of exact numbers, 90 % means 90 %
CTol(cfg, s, r) == IF cfg.batt[r].exact THEN 0 ELSE Tol + CCnt(s, r)

ChargeClauses(cfg, s, e) ==
  CASE e.e = "work" /\ e.a = "start" ->
       LET k == <<e.y, e.s, e.p>> IN
       << C("work starts while the resource is charging", e.r \notin DOMAIN s.ch),
          C("work is started although the battery is used up",
             k \notin CRunning(s, e.r) /\ cfg.cap[e.r] = 1 /\ e.y # "Setup" /\ Get(s.cur, e.r, "?") # e.p
                => CUsed(s, e.r) < cfg.batt[e.r].hi + CTol(cfg, s, e.r)) >>
  [] e.e = "work" /\ e.a = "go" ->
       << C("work goes on while the resource is charging", e.r \notin DOMAIN s.ch) >>
  [] e.e = "charge" /\ e.a = "start" ->
       << C("a charging starts while another one is in progress", e.r \notin DOMAIN s.ch),
          C("a resource is charged while it is working", CRunning(s, e.r) = {}),
          C("a resource is charged before its battery is used up",
             CUsed(s, e.r) + CTol(cfg, s, e.r) >= cfg.batt[e.r].lo),
          C("a charging announces a time that is not its charging time",
             cfg.dur[e.r] # <<>> => \E i \in 1..Len(cfg.dur[e.r]) : Near(e.x - e.t, cfg.dur[e.r][i], 1)) >>
  [] e.e = "charge" /\ e.a = "end" ->
       << C("a charging ends that was not in progress", e.r \in DOMAIN s.ch),
          C("a charging does not take its charging time", e.r \in DOMAIN s.ch => Near(e.t, s.ch[e.r].x, 1)) >>
  [] e.e = "charge" -> << C("a charging is interrupted", FALSE) >>
  [] e.e = "snap" ->
       << C("a charging is overdue", \A r \in DOMAIN s.ch : e.t <= s.ch[r].x + 1) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>

ChargeUpd(cfg, s, e) ==
  CASE e.e = "work" /\ e.a = "start" ->
         LET k == <<e.y, e.s, e.p>> IN
         IF k \in CRunning(s, e.r) THEN s
         ELSE [s EXCEPT !.run = Put(@, e.r, CRunning(s, e.r) \cup {k}),
                        !.used = IF e.y = "Setup" THEN @ ELSE Put(@, e.r, CUsed(s, e.r) + (e.x - e.t)),
                        !.cur = IF e.y = "Transport" THEN Put(@, e.r, e.p) ELSE @,
                        !.n = Put(@, e.r, CCnt(s, e.r) + 1)]
    [] e.e = "work" /\ e.a = "end" ->
         [s EXCEPT !.run = Put(@, e.r, CRunning(s, e.r) \ {<<e.y, e.s, e.p>>})]
    [] e.e = "charge" /\ e.a = "start" -> [s EXCEPT !.ch = Put(@, e.r, [t |-> e.t, x |-> e.x])]
    [] e.e = "charge" /\ e.a = "end" -> [s EXCEPT !.ch = Del(@, e.r), !.used = Put(@, e.r, 0), !.n = Put(@, e.r, 0)]
    [] OTHER -> s
=============================================================================
