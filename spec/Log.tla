-------------------------------- MODULE Log --------------------------------
(* The event log: a faithful, well-formed history.                          *)
(*                                                                          *)
(* Key of an activity: resource / state type / state / product.  The life   *)
(* of an activity in the log:                                               *)
(*   start -> ( interrupted -> resumed -> start )* -> end                   *)
(* where start and resumed announce when it will end.  An activity without  *)
(* any duration consists of its end alone.                                  *)
EXTENDS Base

Working == {"Production", "Transport", "Setup", "Charging"}
Down    == {"Breakdown", "ProcessBreakdown"}
Key(e)  == <<e.r, e.y, e.s, e.p>>

LogInit(cfg) == [last |-> 0, act |-> Empty, made |-> {}, done |-> {}, aux |-> {}]

Phase(s, e) == IF Key(e) \in DOMAIN s.act THEN s.act[Key(e)].ph ELSE "none"
Act(s, e)   == s.act[Key(e)]
(* every announced end of a running activity of product p *)
Busy(s, p)  == \E k \in DOMAIN s.act : k[4] = p

StateRow(e) == e.a \in {"start state", "start interrupt", "end interrupt", "end state"}

LogClauses(cfg, s, e) ==
  IF e.e = "log" THEN
   <<C("a log row carries the simulated time of its event", e.t = e.n),
     C("log times never decrease", e.t >= s.last)>>
   \o
   (IF e.a = "start state" THEN
     <<C("a started activity belongs to a resource and one of its states or processes",
         e.r \in DOMAIN cfg.states /\ e.s \in SeqSet(Get(cfg.states, e.r, <<>>))),
       C("the state type of a row is the type of its state", cfg.stype[e.s] = e.y \/ e.s \notin DOMAIN cfg.stype),
       C("an activity starts only when it is not already running", Phase(s, e) \in {"none", "resumed"}),
       C("the expected end of an activity is not before its start", e.x >= e.t),
       C("a resumed activity starts when it is resumed and announces the same end",
         Phase(s, e) = "resumed" => Near(Act(s, e).x, e.x, 1) /\ Act(s, e).t = e.t),
       C("work rows name a product that exists", e.y \in {"Production", "Transport"} =>
           e.p # "" /\ (e.p \in s.made \/ e.p \in SeqSet(cfg.aux))),
       C("setup, charging and breakdown rows name no product", e.y \notin {"Production", "Transport"} => e.p = ""),
       C("transport rows name origin and target", (e.y = "Transport") = (e.g # "") /\ (e.y = "Transport" => e.o # "")),
       C("no work on a finished product", e.p \notin s.done)>>
    ELSE IF e.a = "start interrupt" THEN
     <<C("only a running activity is interrupted", Phase(s, e) = "run"),
       C("breakdowns are not interrupted", e.y \in Working),
       C("an activity is not interrupted after its announced end", Phase(s, e) = "run" => e.t <= Act(s, e).x + 1)>>
    ELSE IF e.a = "end interrupt" THEN
     <<C("only an interrupted activity resumes", Phase(s, e) = "paused"),
       C("the end announced at resumption keeps the remaining duration",
         Phase(s, e) = "paused" => Near(e.x - e.t, Act(s, e).left, 2))>>
    ELSE IF e.a = "end state" THEN
     <<C("an activity ends only after it was started",
         Phase(s, e) = "run" \/ (Phase(s, e) = "paused" /\ Act(s, e).left <= 1)
           \/ (Phase(s, e) = "resumed" /\ Act(s, e).x <= e.t + 1)),
       C("an activity ends at the end it announced", Phase(s, e) = "run" => Near(Act(s, e).x, e.t, 1))>>
    ELSE IF e.a = "created product" THEN
     <<C("a product is created once", e.p \notin s.made /\ e.p # ""),
       C("products are created by sources", e.y = "Source" /\ e.r \in SeqSet(cfg.sources))>>
    ELSE IF e.a = "finished product" THEN
     <<C("a finished product was created and is finished once", e.p \in s.made /\ e.p \notin s.done),
       C("products are finished at sinks", e.y = "Sink" /\ e.r \in SeqSet(cfg.sinks)),
       C("nothing is in progress on a finished product", ~Busy(s, e.p))>>
    ELSE IF e.a = "created auxiliary" THEN
     <<C("an auxiliary is created once", e.p \in SeqSet(cfg.aux) /\ e.p \notin s.aux)>>
    ELSE IF e.a \in {"started auxiliary usage", "finished auxiliary usage"} THEN
     <<C("auxiliary rows name an auxiliary", e.p \in SeqSet(cfg.aux))>>
    ELSE <<C("every row has a known activity", FALSE)>>)
  ELSE IF e.e = "table" THEN
   <<C("the table has one row for every recorded event: " \o e.w, Len(e.rec) = Len(e.tab)),
     C("the table contains exactly the recorded events in order: " \o e.w, e.rec = e.tab)>>
  ELSE IF e.e = "final" THEN
   <<C("nothing ends later than announced", \A k \in DOMAIN s.act : s.act[k].ph = "run" => s.act[k].x >= e.t - 1)>>
  ELSE <<C("the simulation of a valid configuration does not fail", e.e # "crash")>>

SetAct(s, e, v) == [s EXCEPT !.act = Put(@, Key(e), v)]

LogUpd(cfg, s0, e) ==
  IF e.e # "log" THEN s0 ELSE
  LET s == [s0 EXCEPT !.last = e.t] IN
  IF e.a = "start state" THEN SetAct(s, e, [ph |-> "run", x |-> e.x, t |-> e.t, left |-> e.x - e.t])
  ELSE IF e.a = "start interrupt" THEN SetAct(s, e, [ph |-> "paused", x |-> Act(s, e).x, t |-> e.t, left |-> Act(s, e).x - e.t])
  ELSE IF e.a = "end interrupt" THEN SetAct(s, e, [ph |-> "resumed", x |-> e.x, t |-> e.t, left |-> e.x - e.t])
  ELSE IF e.a = "end state" THEN [s EXCEPT !.act = Del(@, Key(e))]
  ELSE IF e.a = "created product" THEN [s EXCEPT !.made = @ \cup {e.p}]
  ELSE IF e.a = "finished product" THEN [s EXCEPT !.done = @ \cup {e.p}]
  ELSE IF e.a = "created auxiliary" THEN [s EXCEPT !.aux = @ \cup {e.p}]
  ELSE s
=============================================================================
