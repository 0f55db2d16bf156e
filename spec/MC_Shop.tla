------------------------------ MODULE MC_Shop ------------------------------
(* All behaviours of small shops.  TLC explores every interleaving of the     *)
(* actions of Shop.tla for each shop of a list (a part of Scope), checks the  *)
(* invariants below in every state and prints the completion times every      *)
(* behaviour ends with; the harness builds the same shops with the real       *)
(* simulator, whose completion times have to be among them.                   *)
(*                                                                            *)
(* A shop: two types; type x goes through A (and B), type y through B and A;  *)
(* M1 offers A, or A and B, M2 offers B; w carriers.                          *)
EXTENDS Shop, Json, IOUtils

Scope == [gaps : [1..2 -> {0, 1, 3}], plan : 1..4, st : 0..2, both : BOOLEAN, cap : 1..2, inc : 0..2, outc : 0..1,
          w : 1..2, tt : {1, 2}, bdm : BOOLEAN, bdc : BOOLEAN, y : BOOLEAN, h : {80}]
Shops == JsonDeserialize(IOEnv.SHOPS)
NoTol == 0

Steps(l) == [ i \in DOMAIN l |-> [s |-> l[i], pre |-> IF i = 1 THEN <<>> ELSE <<i - 1>>] ]
PlanX(k) == CASE k.plan = 1 -> Steps(<<"A">>) [] k.plan = 2 -> Steps(<<"A", "B">>) [] k.plan = 3 -> Steps(<<"A", "B", "A">>)
              [] OTHER -> << [s |-> "A", pre |-> <<>>], [s |-> "B", pre |-> <<>>] >>        (* in any order *)
Names == <<"x_0", "x_1", "x_2">>
(* of three products the second is of type y if there is that type            *)
TypeOf(k, i) == IF k.y /\ i = 2 THEN "y" ELSE "x"
Prods(k) == IF k.y THEN <<"x_0", "y_0", "x_1">> ELSE <<"x_0", "x_1", "x_2">>
Arr(k) == <<1, 1 + k.gaps[1], 1 + k.gaps[1] + k.gaps[2]>>
Index(k, q) == CHOOSE i \in 1..3 : Prods(k)[i] = q
Dur == [A |-> 2, B |-> 3]
Carriers(k) == IF k.w = 1 THEN <<"V1">> ELSE <<"V1", "V2">>
Cfg(k) ==
  [type |-> [ q \in {Prods(k)[i] : i \in 1..3} |-> TypeOf(k, Index(k, q)) ],
   plan |-> [x |-> PlanX(k), y |-> Steps(<<"B", "A">>)], mach |-> <<"M1", "M2">>, carr |-> Carriers(k),
   stores |-> IF k.st = 0 THEN <<>> ELSE <<"X">>, scap |-> [X |-> k.st], outst |-> [M1 |-> IF k.st = 0 THEN <<>> ELSE <<"X">>, M2 |-> <<>>],
   offer |-> [M1 |-> IF k.both THEN <<"A", "B">> ELSE <<"A">>, M2 |-> <<"B">>],
   impl |-> [A |-> <<"A">>, B |-> <<"B">>], sinks |-> [x |-> <<"K">>, y |-> <<"L">>],
   incap |-> [M1 |-> k.inc, M2 |-> k.inc], outcap |-> [M1 |-> k.outc, M2 |-> k.outc],
   cap |-> [M1 |-> k.cap, M2 |-> 1], pcap |-> [M1 |-> [A |-> k.cap, B |-> k.cap], M2 |-> [B |-> 1]],
   fifo |-> [ r \in {"M1", "M2", "V1", "V2"} |-> TRUE ], ways |-> [x |-> Carriers(k), y |-> Carriers(k)]]
(* breakdowns: every 7 minutes of a machine for 2, every 11 of a carrier for 1*)
Faulty(k) == (IF k.bdm THEN {"M1"} ELSE {}) \cup (IF k.bdc THEN {"V1"} ELSE {})
Every(r) == IF r = "M1" THEN 7 ELSE 11
Repair(r) == IF r = "M1" THEN 2 ELSE 1

VARIABLES n, s, tmr, fin, act
vars == <<n, s, tmr, fin, act>>
K == Shops[n]
cfg == Cfg(K)
All == { Prods(K)[i] : i \in 1..3 }

Init == /\ n \in 1..Len(Shops)
        /\ s = LET z == ShopState(Cfg(Shops[n])) IN [z EXCEPT !.c = [ v \in DOMAIN @ |-> [@[v] EXCEPT !.at = "yard"] ]]
        /\ tmr = [ r \in Faulty(Shops[n]) |-> Every(r) ]
        /\ fin = [ q \in {} |-> 0 ]
        /\ act = [ q \in {Prods(Shops[n])[i] : i \in 1..3} |-> 0 ]

A(a, q, r, m, d) == [e |-> "act", a |-> a, p |-> q, r |-> r, m |-> m, d |-> d, t |-> s.now]
(* one carrier: the first defined machine with room; two carriers: any (the   *)
(* shortest queue heuristic, whose ties are drawn)                            *)
First(S) == IF K.w = 1 /\ "M1" \in S THEN {"M1"} ELSE S
Orders1(q) == { A("order", q, v, m, 0) : m \in UNION { First(S) : S \in Choices(cfg, s, q) }, v \in Cs(cfg) }
Pending == { q \in All \ Ps(s) : Arr(K)[Index(K, q)] = s.now }
Due == { r \in DOMAIN tmr : tmr[r] = s.now }
Acts ==
  { A("make", q, "S" \o TypeOf(K, Index(K, q)), "", 0) : q \in Pending }
  \cup UNION { Orders1(q) : q \in { x \in Ps(s) : s.p[x].ph = "out" } }
  \cup { A("go", q, v, "", K.tt) : q \in Ps(s), v \in Cs(cfg) }
  \cup { A("there", s.c[v].job, v, "", 0) : v \in Cs(cfg) }
  \cup { A("take", q, "", "", 0) : q \in Ps(s) }
  \cup { A("ride", s.c[v].job, v, "", K.tt) : v \in Cs(cfg) }
  \cup { A("arrive", s.c[v].job, v, "", 0) : v \in Cs(cfg) }
  \cup { A("drop", q, "", s.p[q].to, 0) : q \in { x \in Ps(s) : s.p[x].ph = "car" } }
  \cup { A("load", q, s.p[q].at, "", 0) : q \in { x \in Ps(s) : s.p[x].ph = "inq" } }
  \cup UNION { { A("start", q, s.p[q].at, pr, Dur[pr]) : pr \in NextImpl(cfg, s, q) } : q \in { x \in Ps(s) : s.p[x].ph = "slot" } }
  \cup { A("pause", q, s.p[q].at, "", 0) : q \in { x \in Ps(s) : s.p[x].ph = "work" } }
  \cup { A("go on", q, s.p[q].at, "", s.p[q].left) : q \in { x \in Ps(s) : s.p[x].ph = "stop" } }
  \cup { A("pause", s.c[v].job, v, "", 0) : v \in Cs(cfg) } \cup { A("go on", s.c[v].job, v, "", s.c[v].left) : v \in Cs(cfg) }
  \cup { A("end", q, s.p[q].at, "", 0) : q \in { x \in Ps(s) : s.p[x].ph = "work" } }
  \cup { A("put", q, s.p[q].at, "", 0) : q \in { x \in Ps(s) : s.p[x].ph = "held" } }
  \cup { A("fin", q, s.p[q].at, "", 0) : q \in { x \in Ps(s) : s.p[x].ph = "sunk" } }
  \cup { A(IF Up(s, r) THEN "down" ELSE "up", "", r, "BD", 0) : r \in Due }

Ok(cs) == \A i \in 1..Len(cs) : cs[i].ok
(* breakdowns only change the order of things at an instant; two changes of   *)
(* one process at one instant (begun and paused) are not explored             *)
Sane(e) == e.a \in {"go", "ride", "start", "go on"} => (LET r == e.r IN Up(s, r))
Step(e) == /\ s' = Eff(cfg, s, e)
           /\ tmr' = IF e.a = "down" THEN [tmr EXCEPT ![e.r] = s.now + Repair(e.r)]
                     ELSE IF e.a = "up" THEN [tmr EXCEPT ![e.r] = s.now + Every(e.r)] ELSE tmr
           /\ fin' = IF e.a = "fin" THEN Put(fin, e.p, s.now) ELSE fin
           /\ UNCHANGED <<n, act>>
(* Actions that commute with all others at their instant go first, in any one *)
(* order; the rest (who is ordered, taken, loaded, put next, and a breakdown  *)
(* at the very end of a process) is explored in every order.                  *)
Eager(e) == \/ e.a \in {"make", "ride", "drop", "fin", "pause", "go on"}
            \/ e.a = "start" /\ Cardinality(NextImpl(cfg, s, e.p)) = 1     \* the step that is drawn is not known
            \/ e.a \in {"end", "there", "arrive"} /\ e.r \notin Due
            \/ e.a = "take" /\ s.c[s.p[e.p].by].leg = "there"
Able(e) == Ok(Guards(cfg, s, e)) /\ Sane(e) /\ (e.a = "pause" => ~Up(s, e.r))
Enabled == { e \in Acts : Able(e) }
AllDone == \A q \in All : q \in Ps(s) /\ s.p[q].ph = "done"
Over == AllDone \/ s.now >= K.h
(* the next instant at which something happens by itself                      *)
Nexts == { Arr(K)[Index(K, q)] : q \in All \ Ps(s) } \cup { tmr[r] : r \in DOMAIN tmr } \cup { s.now + x : x \in RunsTill(s) } \cup {K.h}
Tick == LET t == CHOOSE x \in Nexts : \A y \in Nexts : x <= y IN
        /\ t > s.now /\ Ok(Urgent(cfg, s))
        /\ s' = Pass(s, t)
        /\ act' = [ q \in DOMAIN act |-> act[q] + (IF q \in Ps(s) /\ s.p[q].ph = "work" THEN t - s.now ELSE 0) ]
        /\ UNCHANGED <<n, tmr, fin>>
Says == PrintT(<<"OUT", n, [ i \in 1..3 |-> Get(fin, Prods(K)[i], 0 - 1) ]>>)
Next == ~Over /\ (LET S == Enabled IN LET G == { e \in S : Eager(e) } IN
                      IF G # {} THEN Step(CHOOSE e \in G : TRUE) ELSE (\E e \in S : Step(e)) \/ Tick) /\ (IF (AllDone' \/ s'.now >= K.h) THEN Says' ELSE TRUE)
Spec == Init /\ [][Next]_vars

(* ---- what holds in every state of every behaviour -------------------------*)
InScope == n \in 1..Len(Shops) => K \in Scope
RoomKept == \A m \in Ms(cfg) : cfg.incap[m] > 0 => Cardinality(In(s, "inq", m)) + Cardinality(Coming(s, m)) <= cfg.incap[m]
OutKept == \A m \in Ms(cfg) : cfg.outcap[m] > 0 => Cardinality(Behind(s, m)) <= cfg.outcap[m]
SlotsKept == \A m \in Ms(cfg) : Cardinality(Inside(s, m)) <= cfg.cap[m]
OneLoad == \A v \in Cs(cfg) : Cardinality({ q \in Ps(s) : s.p[q].ph = "car" /\ s.p[q].by = v }) <= 1
LoadKnown == \A q \in Ps(s) : s.p[q].ph = "car" => s.c[s.p[q].by].job = q
NeverLate == (\A q \in Ps(s) : s.p[q].left >= 0) /\ (\A v \in Cs(cfg) : s.c[v].left >= 0)
(* the time worked on a product is that of its steps                          *)
RECURSIVE Need(_, _)
Need(q, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN Dur[Plan(cfg, q)[i].s] + Need(q, S \ {i})
WorkedExactly == \A q \in Ps(s) : s.p[q].ph \notin {"work", "stop"} => act[q] = Need(q, s.p[q].done)
StoresKept == K.st > 0 => Cardinality(AtStore(s, "X")) + Cardinality(Coming(s, "X")) <= K.st
DoneMeansAll == \A q \in Ps(s) : s.p[q].ph \in {"sunk", "done"} => Finished(cfg, s, q)
(* only circular blocking keeps a product from its sink: without finite       *)
(* buffers, or if nothing flows back, everything is done in the end           *)
Free == (K.inc = 0 /\ K.outc = 0) \/ (K.plan <= 2 /\ ~K.y /\ ~K.both)
DoneInTheEnd == s.now >= K.h /\ Free => AllDone
(* what waits at the end waits for room                                       *)
Stuck(q) == q \in Ps(s) /\ s.p[q].ph \in {"out", "held", "inq", "done"}
StuckOnlyByRoom == s.now >= K.h => \A q \in All : Stuck(q)
=============================================================================
