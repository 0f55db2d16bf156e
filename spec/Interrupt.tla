----------------------------- MODULE Interrupt ------------------------------
(* Breakdowns of resources and of single processes.                           *)
(* cfg.pb[r][s] = process stopped by process breakdown s of resource r.       *)
(* state: down[r]  = [breakdown state |-> expected end], active breakdowns    *)
(*        pdown[r] = the same for process breakdowns                          *)
(*        run[k]   = work k = <<r, kind, process, product>> in progress:      *)
(*                   [since, left, on]; left is the work remaining at since   *)
(*        clear[r] = last instant at which a breakdown of r ended             *)
(* Times are integers (1/1000 minute), Tol absorbs their rounding.            *)
EXTENDS Base

Tol == 2
InterruptInit(cfg) == [down |-> Empty, pdown |-> Empty, run |-> Empty, clear |-> Empty]

IKey(e) == <<e.r, e.y, e.s, e.p>>
IDown(s, r)  == DOMAIN Get(s.down, r, Empty)
IPDown(s, r) == DOMAIN Get(s.pdown, r, Empty)
IProcs(cfg, s, r) == { cfg.pb[r][x] : x \in IPDown(s, r) }
\* work of kind y of process pr on r must stand still
IBlocked(cfg, s, r, y, pr) ==
  \/ IDown(s, r) # {}
  \/ y \in {"Production", "Transport"} /\ pr \in IProcs(cfg, s, r)
  \/ y = "Setup" /\ IPDown(s, r) # {}
IWork(e) == e.y \in {"Production", "Transport", "Setup"}
IRuns(s) == DOMAIN s.run

InterruptClauses(cfg, s, e) ==
  CASE e.e = "st" /\ IWork(e) ->
       LET k == IKey(e)
           blocked == IBlocked(cfg, s, e.r, e.y, e.s)
           known == k \in IRuns(s)
           r == s.run[k]
           due == r.since + r.left
       IN
       (CASE e.a = "start" ->
               << C("work starts on a resource or process that is broken down", ~blocked),
                  C("work that is running is started again", known => r.since = e.t),
                  C("resumed work announces another end than its remaining duration",
                     known => Near(e.x, due, Tol)),
                  C("work announces an end before its start", e.x >= e.t) >>
          [] e.a = "pause" ->
               << C("work that is not running is interrupted", known /\ r.on),
                  C("work is interrupted without a breakdown that affects it",
                     blocked \/ Get(s.clear, e.r, -1) = e.t),
                  C("work runs longer than announced", known => e.t <= due + Tol) >>
          [] e.a = "go" ->
               << C("work resumes on a resource or process that is broken down", ~blocked),
                  C("work that is not interrupted is resumed", known /\ ~r.on),
                  C("resumed work does not continue with its remaining duration",
                     known => Near(e.x, e.t + r.left, Tol)) >>
          [] OTHER ->
               << C("work ends on a resource or process that is broken down",
                     ~blocked \/ (known /\ r.on /\ Near(e.t, due, Tol))),
                  C("work ends while it is interrupted", known => r.on),
                  C("work is not active for exactly the announced duration",
                     known => Near(e.t, due, Tol)) >>)
  [] e.e = "st" /\ e.y \in {"Breakdown", "ProcessBreakdown"} ->
       LET B == IF e.y = "Breakdown" THEN Get(s.down, e.r, Empty) ELSE Get(s.pdown, e.r, Empty) IN
       << C("a breakdown starts twice", e.a = "start" => e.s \notin DOMAIN B),
          C("a breakdown ends that is not active", e.a = "end" => e.s \in DOMAIN B),
          C("a breakdown does not last exactly its repair time",
             e.a = "end" /\ e.s \in DOMAIN B => Near(e.t, B[e.s], Tol)) >>
  [] e.e = "snap" ->
       << C("work advances on a resource or process that is broken down",
             \A k \in IRuns(s) : s.run[k].on => ~IBlocked(cfg, s, k[1], k[2], k[3])),
          C("work stays interrupted although its resource and process are repaired",
             \A k \in IRuns(s) : ~s.run[k].on => IBlocked(cfg, s, k[1], k[2], k[3])),
          C("work is not completed at the end it announced",
             \A k \in IRuns(s) : s.run[k].on => e.t <= s.run[k].since + s.run[k].left + Tol),
          C("a repair is not completed at the end it announced",
             \A r \in DOMAIN s.down : \A b \in DOMAIN s.down[r] : e.t <= s.down[r][b] + Tol) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>

InterruptUpd(cfg, s, e) ==
  CASE e.e = "st" /\ IWork(e) ->
       LET k == IKey(e) IN
       (CASE e.a = "start" -> [s EXCEPT !.run = Put(@, k, [since |-> e.t, left |-> e.x - e.t, on |-> TRUE])]
          [] e.a = "pause" ->
               [s EXCEPT !.run = Put(@, k, [since |-> e.t, on |-> FALSE,
                                            left |-> Max2(0, @[k].left - (e.t - @[k].since))])]
          [] e.a = "go" -> [s EXCEPT !.run = Put(@, k, [since |-> e.t, left |-> e.x - e.t, on |-> TRUE])]
          [] OTHER -> [s EXCEPT !.run = Del(@, k)])
    [] e.e = "st" /\ e.y = "Breakdown" ->
         LET B == Get(s.down, e.r, Empty) IN
         IF e.a = "start" THEN [s EXCEPT !.down = Put(@, e.r, Put(B, e.s, e.x))]
         ELSE [s EXCEPT !.down = Put(@, e.r, Del(B, e.s)), !.clear = Put(@, e.r, e.t)]
    [] e.e = "st" /\ e.y = "ProcessBreakdown" ->
         LET B == Get(s.pdown, e.r, Empty) IN
         IF e.a = "start" THEN [s EXCEPT !.pdown = Put(@, e.r, Put(B, e.s, e.x))]
         ELSE [s EXCEPT !.pdown = Put(@, e.r, Del(B, e.s)), !.clear = Put(@, e.r, e.t)]
    [] OTHER -> s
=============================================================================
