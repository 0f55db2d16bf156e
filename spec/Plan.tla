-------------------------------- MODULE Plan --------------------------------
(* Process plans.  cfg.plan[type] = [k |-> "list", seq |-> <<..>>] or         *)
(* [k |-> "dag", nodes |-> <<..>>, edges |-> << <<a,b>>, .. >>];              *)
(* cfg.impl[step] = processes that implement a step; cfg.off[m] = processes a *)
(* machine offers; cfg.rework = rework processes (no plan steps).             *)
(* state: run[p] = <<machine, process>> while p is being processed;           *)
(*        done[p] = steps completed, in order                                 *)
EXTENDS Base

PlanInit(cfg) == [run |-> Empty, done |-> Empty, seen |-> {}]

PlanSteps(pl) == IF pl.k = "list" THEN Len(pl.seq) ELSE Len(pl.nodes)
\* steps whose turn it is, given the completed ones
PlanNext(pl, done) ==
  IF pl.k = "list"
  THEN IF Len(done) < Len(pl.seq) THEN {pl.seq[Len(done) + 1]} ELSE {}
  ELSE LET D == SeqSet(done) IN
       { n \in SeqSet(pl.nodes) \ D :
           \A i \in 1..Len(pl.edges) : pl.edges[i][2] = n => pl.edges[i][1] \in D }
PlanMatch(cfg, pl, done, pr) == { n \in PlanNext(pl, done) : pr \in SeqSet(cfg.impl[n]) }

PlanClauses(cfg, s, e) ==
  CASE e.e = "work" /\ e.a \in {"start", "end"} ->
       LET pl == cfg.plan[cfg.type[e.p]]
           done == Get(s.done, e.p, <<>>)
           fresh == e.p \notin DOMAIN s.run
       IN << C("a product is processed by two processes at the same time",
                fresh \/ s.run[e.p] = <<e.r, e.s>>),
             C("a resource performs a process it does not offer", e.s \in SeqSet(cfg.off[e.r])),
             C("a product undergoes a process that is not the next step of its plan",
                fresh /\ e.s \notin SeqSet(cfg.rework) => PlanMatch(cfg, pl, done, e.s) # {}) >>
  [] e.e = "fin" ->
       LET pl == cfg.plan[cfg.type[e.p]] IN
       << C("a product is finished while it is being processed", e.p \notin DOMAIN s.run),
          C("a product is finished before all steps of its plan are done",
             Len(Get(s.done, e.p, <<>>)) = PlanSteps(pl)) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>

\* completing a run: the step it implements is done (rework runs are no steps)
PlanEnd(cfg, s, e) ==
  LET pl == cfg.plan[cfg.type[e.p]]
      done == Get(s.done, e.p, <<>>)
  IN [s EXCEPT !.run = Del(@, e.p),
               !.done = IF e.s \in SeqSet(cfg.rework) THEN @
                        ELSE Put(@, e.p, Append(done, CHOOSE n \in PlanMatch(cfg, pl, done, e.s) : TRUE))]

PlanUpd(cfg, s, e) ==
  CASE e.e = "work" /\ e.a = "start" -> [s EXCEPT !.run = Put(@, e.p, <<e.r, e.s>>)]
    [] e.e = "work" /\ e.a = "end" -> PlanEnd(cfg, s, e)
    [] OTHER -> s
=============================================================================
