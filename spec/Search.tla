-------------------------------- MODULE Search --------------------------------
(* What the optimizers report: the fitness of a configuration, the solutions  *)
(* a search documents and the solution it ends with.                          *)
(*                                                                            *)
(* Numbers are thousandths.  cfg: obj (names of the objectives), wmax, wmin   *)
(* (their weights, thousandths, when maximising and when minimising).         *)
(* State: known  hash -> fitness documented first for it                      *)
(*        seen   the documented solutions: ID, hash and fitness                   *)
(*        cur, best, tabu, left: those of an abstract tabu search             *)
EXTENDS Base

Target(name) == IF name \in {"cost", "WIP", "throughput_time"} THEN "min" ELSE "max"

(* ---- the objectives of one run -------------------------------------------*)
(* fin: the finished products [t |-> type, d |-> duration in the system]      *)
Types(fin) == { fin[i].t : i \in 1..Len(fin) }
Of(fin, t) == SelectSeq(fin, LAMBDA x : x.t = t)
MeanOf(fin, t) == LET o == Of(fin, t) IN SumSeq([ i \in 1..Len(o) |-> o[i].d ]) \div Len(o)
RECURSIVE SumMeans(_, _)
SumMeans(fin, T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN MeanOf(fin, t) + SumMeans(fin, T \ {t})
Value(run, name) ==
  CASE name = "throughput" -> 1000 * Len(run.fin)
    [] name = "throughput_time" -> IF run.fin = <<>> THEN 100000000 ELSE SumMeans(run.fin, Types(run.fin)) \div Cardinality(Types(run.fin))
    [] name = "WIP" -> run.wip
    [] name = "cost" -> run.cost
    [] OTHER -> 0

MeanValue(runs, name) == SumSeq([ i \in 1..Len(runs) |-> Value(runs[i], name) \div Len(runs) ])
Fitness(cfg, runs) == [ k \in 1..Len(cfg.obj) |-> MeanValue(runs, cfg.obj[k]) ]
(* -100000 / weight, all in thousandths                                      *)
Penalty(cfg) == [ k \in 1..Len(cfg.obj) |-> (-100000000 \div cfg.wmax[k]) * 1000 ]
SameFit(f, g) == Len(f) = Len(g) /\ \A k \in 1..Len(f) : Near(f[k], g[k], 8)
Times(v, w) == IF Abs(v) > 400000 THEN (v \div 1000) * w ELSE (v * w) \div 1000
Weighted(w, f) == SumSeq([ k \in 1..Len(f) |-> Times(f[k], w[k]) ])
WeightsOk(cfg) == \A k \in 1..Len(cfg.obj) :
  /\ cfg.wmax[k] = (IF Target(cfg.obj[k]) = "max" THEN cfg.w[k] ELSE -cfg.w[k])
  /\ cfg.wmin[k] = -cfg.wmax[k]

(* ---- an abstract tabu search ----------------------------------------------*)
InTabu(s, x) == \E i \in 1..Len(s.tabu) : s.tabu[i] = x
Push(cfg, tabu, x) == IF Len(tabu) = cfg.size THEN Append(Tail(tabu), x) ELSE Append(tabu, x)
Score(cfg, x) == cfg.score[x + 1]
Fresh(s, hood) == { x \in SeqSet(hood) : ~InTabu(s, x) }
Chosen(cfg, s, hood) == CHOOSE x \in Fresh(s, hood) : \A y \in Fresh(s, hood) : Score(cfg, y) <= Score(cfg, x)
Ends(cfg, s) == s.left = 0 \/ s.stuck \/ (cfg.limit # -1 /\ s.left < cfg.steps /\ Score(cfg, s.best) > cfg.limit)

SearchInit(cfg) ==
  [known |-> <<>>, seen |-> {}, fits |-> <<>>,
   cur |-> cfg.start, best |-> cfg.start, tabu |-> <<>>, left |-> cfg.steps, stuck |-> FALSE]

KnownOf(s, h) == SelectSeq(s.known, LAMBDA x : x.h = h)
SearchClauses(cfg, s, e) ==
  CASE e.e = "weights" -> <<C("an objective to be minimised counts negatively in maximisation, and vice versa", WeightsOk(cfg))>>
    [] e.e = "evaluate" ->
         LET k == KnownOf(s, e.h) IN
         IF Len(k) > 0 THEN <<C("a documented configuration keeps its fitness", e.fit = k[1].fit)>>
         ELSE IF ~e.valid THEN <<C("a forbidden configuration gets the penalty", SameFit(e.fit, Penalty(cfg)))>>
         ELSE <<C("the fitness is the mean of the objectives over the seeds", SameFit(e.fit, Fitness(cfg, e.runs)))>>
    [] e.e = "document" -> <<>>
    [] e.e = "policy" -> <<C("configurations of different performance are told apart [scenario:policy_cache]", SameFit(e.fit, e.own))>>
    [] e.e = "solution" ->
         <<C("a documented solution can be read", e.read),
           C("the documented hash is that of the documented solution", e.read => e.h = e.hfile),
           C("the documented fitness is that of the documented solution", e.read => (SameFit(e.fit, e.own) \/ \E x \in s.seen : x.h = e.h /\ x.fit = e.fit)),
           C("the aggregated fitness is the weighted sum of the objectives", Near(e.agg, Weighted(IF e.dir = "min" THEN cfg.wmin ELSE cfg.wmax, e.fit), 20 + Abs(e.agg) \div 1000)),
           C("an ID always denotes the same solution", \A x \in s.seen : x.id = e.id => x.h = e.h /\ x.fit = e.fit),
           C("a search only visits permitted configurations", (e.read /\ e.must) => e.valid),
           C("a forbidden configuration gets the penalty", (e.read /\ ~e.valid) => SameFit(e.fit, Penalty(cfg)))>>
    [] e.e = "generation" -> <<C("a generation has no more individuals than the population, and at least one", e.n \in 1..e.max)>>
    [] e.e = "again" -> <<C("a search with the same seed visits the same solutions", e.fits = s.fits)>>
    [] e.e = "hood" ->
         <<C("the search continues from the best neighbour that is not tabu", e.cur = s.cur),
           C("the search does not go on beyond its end", ~Ends(cfg, s))>>
    [] e.e = "result" ->
         <<C("the search only ends when it may", Ends(cfg, s)),
           C("the search returns the best solution it visited", e.best = s.best /\ e.score = Score(cfg, s.best))>>
    [] e.e = "pareto" ->
         <<C("exactly the points no other point dominates are efficient",
             \A i \in 1..Len(e.pts) :
               (\E j \in 1..Len(e.pts) :
                   /\ j # i
                   /\ \A k \in 1..Len(e.pts[i]) : e.pts[j][k] <= e.pts[i][k]
                   /\ \E k \in 1..Len(e.pts[i]) : e.pts[j][k] < e.pts[i][k]) => ~e.mask[i]),
           C("of every efficient point one instance is kept",
             \A i \in 1..Len(e.pts) :
               (~\E j \in 1..Len(e.pts) :
                   /\ \A k \in 1..Len(e.pts[i]) : e.pts[j][k] <= e.pts[i][k]
                   /\ \E k \in 1..Len(e.pts[i]) : e.pts[j][k] < e.pts[i][k])
                 => \E j \in 1..Len(e.pts) : e.pts[j] = e.pts[i] /\ e.mask[j]),
           C("both ways to find efficient points agree", e.mask = e.mask2)>>
    [] OTHER -> <<C("the search can be run: " \o e.what, FALSE)>>

SearchUpd(cfg, s, e) ==
  CASE e.e = "document" -> IF Len(KnownOf(s, e.h)) > 0 THEN s ELSE [s EXCEPT !.known = Append(@, [h |-> e.h, fit |-> e.fit])]
    [] e.e = "solution" -> [s EXCEPT !.seen = @ \cup {[id |-> e.id, h |-> e.h, fit |-> e.fit]}, !.fits = Append(@, e.fit)]
    [] e.e = "hood" ->
         IF Fresh(s, e.hood) = {} THEN [s EXCEPT !.stuck = TRUE, !.left = @ - 1]
         ELSE LET x == Chosen(cfg, s, e.hood) IN
              [s EXCEPT !.cur = x, !.tabu = Push(cfg, @, x), !.left = @ - 1, !.best = IF Score(cfg, x) > Score(cfg, @) THEN x ELSE @]
    [] OTHER -> s
=============================================================================
