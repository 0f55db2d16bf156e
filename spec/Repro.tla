-------------------------------- MODULE Repro -------------------------------
(* Runs are a function of the configuration and its seed.                   *)
(* state: the first run, the reference for every other run of the same      *)
(* configuration, whatever surrounds it.                                    *)
EXTENDS Base

ReproInit(cfg) == [ref |-> <<>>, end |-> <<>>, seen |-> FALSE]

ReproClauses(cfg, s, e) ==
  IF e.e = "run" THEN
    <<C("the event log differs from the first run", s.seen => e.log = s.ref),
      C("the final state differs from the first run", (s.seen /\ e.whole) => e.end = s.end)>>
  ELSE IF e.e = "same" THEN <<C("a run changes", e.a = e.b)>>
  ELSE <<C("the simulation of a valid configuration does not fail", FALSE)>>

ReproUpd(cfg, s, e) ==
  IF e.e = "run" /\ ~s.seen THEN [ref |-> e.log, end |-> e.end, seen |-> TRUE] ELSE s
=============================================================================
