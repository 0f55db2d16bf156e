------------------------------- MODULE States -------------------------------
(* Accounting of the time of a resource: at every instant a resource is in   *)
(* exactly one of the states                                                 *)
(*   UD  a breakdown is active                                               *)
(*   CR  it is charging,  ST  it is set up                                   *)
(*   PR  at least one process is running and not interrupted                 *)
(*   SB  otherwise                                                           *)
(* (the first that applies), and the reported shares are the times spent in  *)
(* them between 0 and the end of the observation.                            *)
EXTENDS Base

Kinds == {"UD", "CR", "ST", "PR", "SB"}

StatesInit(cfg) ==
  [bd |-> [ r \in SeqSet(cfg.res) |-> {} ], ch |-> [ r \in SeqSet(cfg.res) |-> {} ], su |-> [ r \in SeqSet(cfg.res) |-> {} ],
   pr |-> [ r \in SeqSet(cfg.res) |-> {} ], it |-> [ r \in SeqSet(cfg.res) |-> {} ],
   acc |-> [ r \in SeqSet(cfg.res) |-> [ k \in Kinds |-> 0 ] ], last |-> [ r \in SeqSet(cfg.res) |-> 0 ], n |-> 0, lost |-> [ r \in SeqSet(cfg.res) |-> 0 ], mark |-> [ r \in SeqSet(cfg.res) |-> "" ], seen |-> {}, t |-> 0]

Kind(s, r) == IF s.bd[r] # {} THEN "UD" ELSE IF s.ch[r] # {} THEN "CR" ELSE IF s.su[r] # {} THEN "ST"
              ELSE IF s.pr[r] \ s.it[r] # {} THEN "PR" ELSE "SB"
(* the time up to t is spent in the present state                            *)
Spent(s, r, t) == [s.acc[r] EXCEPT ![Kind(s, r)] = @ + (t - s.last[r])]
(* Known finding (unless cfg.strict): after the end of a process that leaves an *)
(* even number of others running, the time until the next event of the       *)
(* resource is reported for no state.                                        *)
Gap(cfg, s, r, t) == IF cfg.strict = 0 /\ Kind(s, r) = "PR" /\ s.mark[r] = "down" /\ Cardinality(s.pr[r]) % 2 = 0 THEN t - s.last[r] ELSE 0
Mark(s, r, t, a) == LET m == IF t > s.last[r] THEN "" ELSE s.mark[r] IN
                    IF a \in {"start state", "end interrupt", "start interrupt"} THEN "up" ELSE IF a = "end state" /\ m # "up" THEN "down" ELSE m
Tick(cfg, s, r, t, a) == [s EXCEPT !.lost = Put(@, r, @[r] + Gap(cfg, s, r, t)), !.mark = Put(@, r, Mark(s, r, t, a)), !.acc = Put(@, r, Spent(s, r, t)), !.last = Put(@, r, t), !.seen = @ \cup {r}, !.t = t, !.n = @ + 1]

Toggle(f, r, x, a) == Put(f, r, IF a = "start state" THEN f[r] \cup {x} ELSE IF a = "end state" THEN f[r] \ {x} ELSE f[r])

Total(v) == SumOver(DOMAIN v, v)

StatesClauses(cfg, s, e) ==
  IF e.e = "log" THEN <<C("the log is in the order of time", e.t >= s.t)>>
  ELSE IF e.e = "states" THEN
    <<C("exactly the resources that did something are reported", DOMAIN e.v = s.seen),
      C("the reported times of a resource cover the observation: no time is lost or counted twice",
        \A r \in DOMAIN e.v : r \in s.seen => \E l \in {0, s.lost[r] + Gap(cfg, s, r, e.t)} : Near(Total(e.v[r]) + l, e.t, s.n \div 4 + 5)),
      C("a resource is down exactly while a breakdown is active", \A r \in DOMAIN e.v : r \in s.seen => Near(Get(e.v[r], "UD", 0), Spent(s, r, e.t)["UD"], s.n \div 4 + 5)),
      C("the time of charging is reported", \A r \in DOMAIN e.v : r \in s.seen => Near(Get(e.v[r], "CR", 0), Spent(s, r, e.t)["CR"], s.n \div 4 + 5)),
      C("the time of setups is reported", \A r \in DOMAIN e.v : r \in s.seen => Near(Get(e.v[r], "ST", 0), Spent(s, r, e.t)["ST"], s.n \div 4 + 5)),
      C("a resource is productive exactly while a process is running", \A r \in DOMAIN e.v : r \in s.seen => \E l \in {0, s.lost[r] + Gap(cfg, s, r, e.t)} : Near(Get(e.v[r], "PR", 0) + l, Spent(s, r, e.t)["PR"], s.n \div 4 + 5)),
      C("a resource that does nothing is in standby", \A r \in DOMAIN e.v : r \in s.seen => Near(Get(e.v[r], "SB", 0), Spent(s, r, e.t)["SB"], s.n \div 4 + 5))>>
  ELSE IF e.e = "pct" THEN
    <<C("a share is the reported time divided by the observation: " \o e.w,
        \A i \in 1..Len(e.v) : LET t == SumSeq([ j \in 1..Len(e.v) |-> IF e.v[j].r = e.v[i].r THEN e.v[j].d ELSE 0 ]) IN
          Near(((t \div 100) * e.v[i].pct) \div 100, e.v[i].d, 150 + t \div 5000)),
      C("the shares of a resource sum up to 100 %: " \o e.w,
        \A r \in { e.v[i].r : i \in 1..Len(e.v) } :
           Near(SumSeq([ i \in 1..Len(e.v) |-> IF e.v[i].r = r THEN e.v[i].pct ELSE 0 ]), 10000, 5)),
      C("every share is reported once: " \o e.w, \A i, j \in 1..Len(e.v) : i # j => <<e.v[i].r, e.v[i].k>> # <<e.v[j].r, e.v[j].k>>)>>
  ELSE <<C("the evaluation of a simulation does not fail", FALSE)>>

StatesUpd(cfg, s, e) ==
  IF e.e # "log" \/ e.r \notin SeqSet(cfg.res) THEN s
  ELSE LET u == Tick(cfg, s, e.r, e.t, e.a)
           x == <<e.s, e.p>> IN
    CASE e.y = "Breakdown" -> [u EXCEPT !.bd = Toggle(@, e.r, e.s, e.a)]
      [] e.y = "Charging"  -> [u EXCEPT !.ch = Toggle(@, e.r, e.s, e.a)]
      [] e.y = "Setup"     -> [u EXCEPT !.su = Toggle(@, e.r, e.s, e.a)]
      [] e.y \in {"Production", "Transport"} ->
           IF e.a = "start interrupt" THEN [u EXCEPT !.it = Put(@, e.r, @[e.r] \cup {x})]
           ELSE IF e.a = "end interrupt" THEN [u EXCEPT !.it = Put(@, e.r, @[e.r] \ {x})]
           ELSE [u EXCEPT !.pr = Toggle(@, e.r, x, e.a), !.it = Put(@, e.r, @[e.r] \ {x})]
      [] OTHER -> u
=============================================================================
