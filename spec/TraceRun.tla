------------------------------ MODULE TraceRun ------------------------------
(* Conformance driver shared by every component of the specification.        *)
(*                                                                           *)
(* A component K is given by three operators                                 *)
(*   Init0(cfg)        the component's initial state for a configuration     *)
(*   Clauses(cfg,s,e)  a sequence of [c |-> name, ok |-> BOOLEAN]; the event *)
(*                     e is a step K allows in state s iff every clause is ok*)
(*   Upd(cfg,s,e)      the component's state after e                         *)
(* i.e. K's action for event e is  Step(e) == All ok /\ s' = Upd(cfg,s,e).   *)
(*                                                                           *)
(* TraceRun consumes a batch of recorded traces (JSON), one initial state    *)
(* per trace and one step per event.  The verdict is total: an event that is *)
(* not a step of the component is reported as REJECT with the failing clause,*)
(* and the trace stops there; a trace that reaches its end is reported by    *)
(* the state count and DONE.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Init0(_), Clauses(_, _, _), Upd(_, _, _)

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, st, bad
vars == <<tr, l, st, bad>>

Cfg == Traces[tr].cfg
Ev  == Traces[tr].ev

TInit == /\ tr \in 1..Len(Traces)
         /\ l = 1
         /\ st = Init0(Traces[tr].cfg)
         /\ bad = FALSE

Failing(cs) == { i \in 1..Len(cs) : ~cs[i].ok }
First(S) == CHOOSE i \in S : \A j \in S : i <= j

TStep == /\ ~bad
         /\ l <= Len(Ev)
         /\ LET e  == Ev[l]
                cs == Clauses(Cfg, st, e)
                F  == Failing(cs)
            IN IF F = {}
               THEN /\ st' = Upd(Cfg, st, e)
                    /\ l' = l + 1
                    /\ UNCHANGED <<tr, bad>>
                    /\ IF l = Len(Ev) THEN PrintT(<<"DONE", tr, l>>) ELSE TRUE
               ELSE /\ PrintT(<<"REJECT", tr, l, cs[First(F)].c>>)
                    /\ bad' = TRUE
                    /\ UNCHANGED <<tr, l, st>>

TSpec == TInit /\ [][TStep]_vars
(* The position alone identifies a state of a (deterministic) validation run.*)
TView == <<tr, l, bad>>
=============================================================================
