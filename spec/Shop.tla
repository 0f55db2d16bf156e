-------------------------------- MODULE Shop --------------------------------
(* The shop as a whole: an operational model of sources, machines with finite *)
(* buffers, carriers and breakdowns.  Only configured durations let time      *)
(* pass: every other action is urgent, i.e. it happens at the very instant at *)
(* which the last of its preconditions becomes true.                          *)
(*                                                                            *)
(* cfg:  type   product -> type                                               *)
(*       plan   type -> sequence of [s step, pre indices of steps before it]  *)
(*       mach, carr, stores  sets (sequences)   offer machine -> processes    *)
(*       outst  machine -> stores behind it     scap  store -> room (0 any)   *)
(*       impl   step -> processes that perform it                             *)
(*       sinks  type -> sinks            incap, outcap machine -> room (0 any)*)
(*       cap    machine -> slots         pcap  machine -> process -> slots    *)
(*       fifo   resource -> BOOLEAN      ways  type -> carriers               *)
(*                                                                            *)
(* state: now                                                                 *)
(*   p  product -> [ph, at, to, by, done steps, cur step, pr, left, since]    *)
(*        ph "out" at `at`, no order yet     "req" ordered: carrier `by`      *)
(*           "car" on carrier `by`           "inq" in front of machine `at`   *)
(*           "slot" in machine `at`, not begun   "work" / "stop" in work      *)
(*           "held" done, no room behind     "sunk" at the sink   "done"      *)
(*   c  carrier -> [at, leg, job, left, run]                                  *)
(*        leg "idle", "empty" (on the way to job), "there" (at the place of   *)
(*           job), "took" (holds it), "loaded" (on the way), "end" (arrived)  *)
(*   down resource -> breakdowns that are active;  chg when that last changed *)
(*        (the order of breakdowns and other actions at one instant is free)  *)
(*                                                                            *)
(* An action is a record [a, ...]; Guard says whether it may happen, Eff what *)
(* it does.  MC_Shop explores all behaviours of small shops; T_Shop accepts   *)
(* recorded histories of the real simulator only if they are behaviours.      *)
EXTENDS Base

TOL == 2
Ms(cfg) == SeqSet(cfg.mach)
Cs(cfg) == SeqSet(cfg.carr)
IsM(cfg, x) == x \in Ms(cfg)
Ps(s) == DOMAIN s.p \ {""}
NoP == [ph |-> "", at |-> "", to |-> "", by |-> "", done |-> {}, cur |-> 0, pr |-> "", left |-> 0, since |-> 0]
ShopState(cfg) ==
  [now |-> 0, p |-> ("" :> NoP),
   c |-> [ v \in Cs(cfg) |-> [at |-> "", leg |-> "idle", job |-> "", left |-> 0, run |-> FALSE] ],
   down |-> [ r \in Ms(cfg) \cup Cs(cfg) |-> {} ], chg |-> [ r \in Ms(cfg) \cup Cs(cfg) |-> -1 ]]

(* ---- what the state says --------------------------------------------------*)
In(s, ph, x) == { q \in Ps(s) : s.p[q].ph = ph /\ s.p[q].at = x }
Coming(s, m) == { q \in Ps(s) : s.p[q].ph \in {"req", "car"} /\ s.p[q].to = m }
Room(cfg, s, m) == cfg.incap[m] = 0 \/ Cardinality(In(s, "inq", m)) + Cardinality(Coming(s, m)) < cfg.incap[m]
Behind(s, m) == In(s, "out", m) \cup In(s, "req", m)
RoomBehind(cfg, s, m) == cfg.outcap[m] = 0 \/ Cardinality(Behind(s, m)) < cfg.outcap[m]
Inside(s, m) == UNION { In(s, ph, m) : ph \in {"slot", "work", "stop", "held"} }
Working(s, m) == In(s, "work", m)
Up(s, r) == s.down[r] = {}
MayRun(s, r) == Up(s, r) \/ s.chg[r] = s.now
MayStop(s, r) == ~Up(s, r) \/ s.chg[r] = s.now
Typ(cfg, q) == cfg.type[q]
Plan(cfg, q) == cfg.plan[Typ(cfg, q)]
Finished(cfg, s, q) == s.p[q].done = DOMAIN Plan(cfg, q)
(* the steps that may be next (which of them is, is drawn and not visible)    *)
Possible(cfg, s, q) == { i \in DOMAIN Plan(cfg, q) \ s.p[q].done : SeqSet(Plan(cfg, q)[i].pre) \subseteq s.p[q].done }
ImplOf(cfg, q, i) == SeqSet(cfg.impl[Plan(cfg, q)[i].s])
NextImpl(cfg, s, q) == UNION { ImplOf(cfg, q, i) : i \in Possible(cfg, s, q) }
Offers(cfg, m, S) == SeqSet(cfg.offer[m]) \cap S # {}
IsStore(cfg, x) == x \in SeqSet(cfg.stores)
AtStore(s, x) == In(s, "out", x) \cup In(s, "req", x)
StoreRoom(cfg, s, x) == cfg.scap[x] = 0 \/ Cardinality(AtStore(s, x)) + Cardinality(Coming(s, x)) < cfg.scap[x]
(* what a product that waits may be meant for: for every choice the places    *)
(* that can take it now                                                       *)
Choices(cfg, s, q) ==
  (IF Finished(cfg, s, q) THEN { SeqSet(cfg.sinks[Typ(cfg, q)]) }
   ELSE { { m \in Ms(cfg) : Offers(cfg, m, ImplOf(cfg, q, i)) /\ Room(cfg, s, m) } : i \in Possible(cfg, s, q) })
  \cup (LET m == s.p[q].at IN
        IF IsM(cfg, m) /\ cfg.outst[m] # <<>> THEN { { x \in SeqSet(cfg.outst[m]) : StoreRoom(cfg, s, x) } } ELSE {})
Open(cfg, s, q) == UNION Choices(cfg, s, q)
Orders(s, v) == { q \in Ps(s) : s.p[q].ph = "req" /\ s.p[q].by = v }
Earliest(s, S, q) == \A x \in S : s.p[x].since >= s.p[q].since
OfProc(s, m, pr) == { x \in Inside(s, m) : s.p[x].pr = pr }
Slot(cfg, s, m, pr) == Cardinality(Inside(s, m)) < cfg.cap[m] /\ (Has(cfg.pcap[m], pr) => Cardinality(OfProc(s, m, pr)) < cfg.pcap[m][pr])
(* the processes machine m may have been asked for by q                       *)
Asked(cfg, s, m, q) == SeqSet(cfg.offer[m]) \cap NextImpl(cfg, s, q)
RunsTill(s) == { s.p[q].left : q \in { x \in Ps(s) : s.p[x].ph = "work" } } \cup { s.c[v].left : v \in { x \in DOMAIN s.c : s.c[x].run } }

(* ---- the actions ----------------------------------------------------------*)
Guards(cfg, s, e) ==
  LET q == e.p  r == e.r IN
  CASE e.a = "make" -> << C("a product is made once", q \notin Ps(s)) >>
  [] e.a = "order" ->
      << C("an order is for a product that waits", q \in Ps(s) /\ s.p[q].ph = "out"),
         C("the carrier can carry the product", r \in SeqSet(cfg.ways[Typ(cfg, q)])),
         C("the destination can take the product now", e.m \in Open(cfg, s, q)) >>
  [] e.a = "go" ->
      << C("a carrier drives off only when it is free and up", s.c[r].leg = "idle" /\ MayRun(s, r)),
         C("a carrier drives to a product that was ordered from it", q \in Orders(s, r)),
         C("a carrier serves its orders first come first served", cfg.fifo[r] => Earliest(s, Orders(s, r), q)),
         C("a carrier drives only to a place where it is not", s.c[r].at # s.p[q].at) >>
  [] e.a = "there" ->
      << C("a drive ends when its time is over", s.c[r].leg = "empty" /\ s.c[r].run /\ s.c[r].left <= TOL) >>
  [] e.a = "take" ->
      << C("a load is taken by the carrier that was ordered and is there",
            q \in Ps(s) /\ s.p[q].ph = "req" /\
            LET v == s.p[q].by IN
            \/ s.c[v].leg = "there" /\ s.c[v].job = q
            \/ s.c[v].leg = "idle" /\ s.c[v].at \in {"", s.p[q].at} /\ (cfg.fifo[v] => Earliest(s, Orders(s, v), q))) >>
  [] e.a = "ride" -> << C("a carrier rides with the load it took", s.c[r].leg = "took" /\ s.c[r].job = q /\ MayRun(s, r)) >>
  [] e.a = "arrive" -> << C("a ride ends when its time is over", s.c[r].leg = "loaded" /\ s.c[r].run /\ s.c[r].left <= TOL /\ s.c[r].job = q) >>
  [] e.a = "drop" ->
      << C("a load is delivered by its carrier where it was ordered to",
            q \in Ps(s) /\ s.p[q].ph = "car" /\ s.c[s.p[q].by].leg = "end" /\ s.p[q].to = e.m),
         C("a delivery has room", (IsM(cfg, e.m) /\ cfg.incap[e.m] > 0 => Cardinality(In(s, "inq", e.m)) < cfg.incap[e.m])
                               /\ (IsStore(cfg, e.m) /\ cfg.scap[e.m] > 0 => Cardinality(AtStore(s, e.m)) < cfg.scap[e.m])) >>
  [] e.a = "load" ->
      << C("a machine takes a product that lies in front of it", q \in Ps(s) /\ s.p[q].ph = "inq" /\ s.p[q].at = r),
         C("a machine takes a product only into a free slot", Cardinality(Inside(s, r)) < cfg.cap[r]),
         C("a machine takes products first come first served", cfg.fifo[r] => Earliest(s, In(s, "inq", r), q)) >>
  [] e.a = "start" ->
      << C("work begins on a product in the machine", q \in Ps(s) /\ s.p[q].ph = "slot" /\ s.p[q].at = r /\ MayRun(s, r)),
         C("the work is the next step of the plan", ~Finished(cfg, s, q) /\ e.m \in NextImpl(cfg, s, q) /\ e.m \in SeqSet(cfg.offer[r])),
         C("a process is not performed more often at a time than allowed",
            Has(cfg.pcap[r], e.m) => Cardinality({ x \in Working(s, r) \cup In(s, "stop", r) : s.p[x].pr = e.m }) < cfg.pcap[r][e.m]) >>
  [] e.a = "pause" ->
      << C("only a breakdown stops work", MayStop(s, r)),
         C("what stops was going on", IF IsM(cfg, r) THEN q \in Ps(s) /\ s.p[q].ph = "work" /\ s.p[q].at = r ELSE s.c[r].run) >>
  [] e.a = "go on" ->
      << C("work goes on when the resource is up", MayRun(s, r)),
         C("what goes on was stopped", IF IsM(cfg, r) THEN q \in Ps(s) /\ s.p[q].ph = "stop" /\ s.p[q].at = r ELSE ~s.c[r].run /\ s.c[r].leg \in {"empty", "loaded"}),
         C("work goes on for the time that was left", Near(e.d, IF IsM(cfg, r) THEN s.p[q].left ELSE s.c[r].left, TOL)) >>
  [] e.a = "end" -> << C("work ends when its time is over", q \in Ps(s) /\ s.p[q].ph = "work" /\ s.p[q].at = r /\ s.p[q].left <= TOL) >>
  [] e.a = "put" ->
      << C("a finished product is put behind its machine", q \in Ps(s) /\ s.p[q].ph = "held" /\ s.p[q].at = r),
         C("there is room behind the machine", RoomBehind(cfg, s, r)) >>
  [] e.a = "fin" -> << C("a product is finished at its sink after all steps", q \in Ps(s) /\ s.p[q].ph = "sunk" /\ s.p[q].at = r /\ Finished(cfg, s, q)) >>
  [] e.a = "down" -> << C("a breakdown begins once", e.m \notin s.down[r]) >>
  [] e.a = "up" -> << C("a breakdown that is there ends", e.m \in s.down[r]) >>
  [] OTHER -> << C("a known event", FALSE) >>

Eff(cfg, s, e) ==
  LET q == e.p  r == e.r IN
  CASE e.a = "make" -> [s EXCEPT !.p = Put(@, q, [NoP EXCEPT !.ph = "out", !.at = r])]
  [] e.a = "order" -> [s EXCEPT !.p[q].ph = "req", !.p[q].to = e.m, !.p[q].by = r, !.p[q].since = s.now]
  [] e.a = "go" -> [s EXCEPT !.c[r].leg = "empty", !.c[r].job = q, !.c[r].left = e.d, !.c[r].run = TRUE]
  [] e.a = "there" -> [s EXCEPT !.c[r].leg = "there", !.c[r].at = s.p[s.c[r].job].at, !.c[r].run = FALSE]
  [] e.a = "take" -> LET v == s.p[q].by IN [s EXCEPT !.p[q].ph = "car", !.p[q].at = "", !.c[v].leg = "took", !.c[v].job = q]
  [] e.a = "ride" -> [s EXCEPT !.c[r].leg = "loaded", !.c[r].left = e.d, !.c[r].run = TRUE]
  [] e.a = "arrive" -> [s EXCEPT !.c[r].leg = "end", !.c[r].at = s.p[q].to, !.c[r].run = FALSE]
  [] e.a = "drop" -> LET v == s.p[q].by IN
      [s EXCEPT !.p[q].ph = IF IsM(cfg, e.m) THEN "inq" ELSE IF IsStore(cfg, e.m) THEN "out" ELSE "sunk", !.p[q].at = e.m, !.p[q].to = "", !.p[q].by = "", !.p[q].since = s.now,
                !.c[v].leg = "idle", !.c[v].job = ""]
  [] e.a = "load" -> [s EXCEPT !.p[q].ph = "slot", !.p[q].pr = LET A == Asked(cfg, s, r, q) IN IF Cardinality(A) = 1 THEN CHOOSE x \in A : TRUE ELSE ""]
  [] e.a = "start" -> [s EXCEPT !.p[q].ph = "work", !.p[q].pr = e.m, !.p[q].left = e.d,
                               !.p[q].cur = CHOOSE i \in Possible(cfg, s, q) : e.m \in ImplOf(cfg, q, i)]
  [] e.a = "pause" -> IF IsM(cfg, r) THEN [s EXCEPT !.p[q].ph = "stop"] ELSE [s EXCEPT !.c[r].run = FALSE]
  [] e.a = "go on" -> IF IsM(cfg, r) THEN [s EXCEPT !.p[q].ph = "work"] ELSE [s EXCEPT !.c[r].run = TRUE]
  [] e.a = "end" -> [s EXCEPT !.p[q].ph = "held", !.p[q].done = @ \cup {s.p[q].cur}]
  [] e.a = "put" -> [s EXCEPT !.p[q].ph = "out", !.p[q].pr = ""]
  [] e.a = "fin" -> [s EXCEPT !.p[q].ph = "done"]
  [] e.a = "down" -> [s EXCEPT !.down[r] = @ \cup {e.m}, !.chg[r] = s.now]
  [] e.a = "up" -> [s EXCEPT !.down[r] = @ \ {e.m}, !.chg[r] = s.now]
  [] OTHER -> s

(* ---- time -----------------------------------------------------------------*)
(* Why time may not pass in s: the urgent actions that are enabled.           *)
Urgent(cfg, s) ==
  << C("a product waits although there is room where it has to go",
        \A q \in Ps(s) : s.p[q].ph = "out" => {} \in Choices(cfg, s, q)),
     C("a carrier that is free does not serve its order",
        \A v \in Cs(cfg) : s.c[v].leg = "idle" /\ Up(s, v) => Orders(s, v) = {}),
     C("a carrier waits at the place of its load", \A v \in Cs(cfg) : s.c[v].leg # "there"),
     C("a carrier that is up waits with its load", \A v \in Cs(cfg) : s.c[v].leg = "took" => ~Up(s, v)),
     C("a carrier does not hand over its load", \A v \in Cs(cfg) : s.c[v].leg # "end"),
     C("a machine with a free slot does not take a product that waits",
        \A m \in Ms(cfg) : Up(s, m) => \A q \in In(s, "inq", m) :
           (cfg.fifo[m] => Earliest(s, In(s, "inq", m), q)) => \E pr \in Asked(cfg, s, m, q) : ~Slot(cfg, s, m, pr)),
     C("a machine that is up does not begin its work",
        \A m \in Ms(cfg) : Up(s, m) => \A q \in In(s, "slot", m) : ~(\A pr \in Asked(cfg, s, m, q) :
           (~Has(cfg.pcap[m], pr) \/ Cardinality({ x \in Working(s, m) \cup In(s, "stop", m) : s.p[x].pr = pr }) < cfg.pcap[m][pr]))),
     C("work goes on during a breakdown",
        (\A m \in Ms(cfg) : Up(s, m) \/ Working(s, m) = {}) /\ (\A v \in Cs(cfg) : Up(s, v) \/ ~s.c[v].run)),
     C("work is not taken up after the repair",
        (\A m \in Ms(cfg) : Up(s, m) => In(s, "stop", m) = {}) /\
        (\A v \in Cs(cfg) : Up(s, v) => s.c[v].leg \notin {"empty", "loaded"} \/ s.c[v].run)),
     C("a finished product is not put behind its machine although there is room",
        \A m \in Ms(cfg) : In(s, "held", m) # {} => ~RoomBehind(cfg, s, m)),
     C("a product at its sink is not finished", \A q \in Ps(s) : s.p[q].ph # "sunk") >>
(* nothing that runs is over before t                                         *)
InTime(s, t) == \A x \in RunsTill(s) : s.now + x + TOL >= t
Pass(s, t) ==
  LET d == t - s.now IN
  [s EXCEPT !.now = t,
     !.p = [ q \in DOMAIN @ |-> IF @[q].ph = "work" THEN [@[q] EXCEPT !.left = @ - d] ELSE @[q] ],
     !.c = [ v \in DOMAIN @ |-> IF @[v].run THEN [@[v] EXCEPT !.left = @ - d] ELSE @[v] ]]
At(s, t) == IF t > s.now THEN Pass(s, t) ELSE s

(* ---- acceptor of recorded histories ---------------------------------------*)
ShopInit(cfg) == ShopState(cfg)
ShopClauses(cfg, s, e) ==
  (IF e.t > s.now THEN Urgent(cfg, s) \o << C("a running process ends when its time is over", InTime(s, e.t)) >> ELSE <<>>)
  \o (IF e.e = "end" THEN <<>> ELSE IF e.e = "crash" THEN << C("a valid configuration does not fail", FALSE) >>
      ELSE Guards(cfg, At(s, e.t), e))
ShopUpd(cfg, s, e) == IF e.e = "act" THEN Eff(cfg, At(s, e.t), e) ELSE s
=============================================================================
