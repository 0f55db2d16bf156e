------------------------------- MODULE Rework -------------------------------
(* Rework.  cfg.rate[pr] in {"never","always","maybe"};                       *)
(* cfg.cand[pr] = rework processes declared for pr;                           *)
(* cfg.block[pr] = failures of pr block the product's plan;                   *)
(* cfg.rework = rework processes; cfg.steps[type] = number of plan steps.     *)
(* Whether a "maybe" process failed is not observed, and a rework process may  *)
(* be declared for several failed processes: the component keeps every         *)
(* explanation of what was seen.  state: w[p] = set of worlds, a world is the  *)
(* sequence of pending failures [pr, sure]; n[p] = plan steps completed.       *)
EXTENDS Base

ReworkInit(cfg) == [w |-> Empty, n |-> Empty, run |-> Empty]

RwWorlds(s, p) == Get(s.w, p, {<<>>})
RwBlock(cfg, x) == x.pr \in DOMAIN cfg.block /\ cfg.block[x.pr]
RwCands(cfg, q, rw) == { i \in 1..Len(q) : rw \in SeqSet(cfg.cand[q[i].pr]) }
RwDone(cfg, s, p) == Get(s.n, p, 0) = cfg.steps[cfg.type[p]]
RemoveAt(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
IsRw(cfg, pr) == pr \in SeqSet(cfg.rework)
RwFresh(s, e) == e.p \notin DOMAIN s.run
\* a rework settles one failure it is declared for: a blocking one at any time,
\* another one only when the plan is done
RwAllowed(cfg, s, p, q, rw) == { i \in RwCands(cfg, q, rw) : RwBlock(cfg, q[i]) \/ RwDone(cfg, s, p) }
RwAfter(cfg, s, p, rw) ==
  UNION { { RemoveAt(q, i) : i \in RwAllowed(cfg, s, p, q, rw) } : q \in RwWorlds(s, p) }
RwFree(cfg, q) == \A i \in 1..Len(q) : ~(q[i].sure /\ RwBlock(cfg, q[i]))
\* a plan step settles that blocking "maybe" failures did not happen
RwStep(cfg, W) == { SelectSeq(q, LAMBDA x : ~RwBlock(cfg, x)) : q \in { v \in W : RwFree(cfg, v) } }

ReworkClauses(cfg, s, e) ==
  CASE e.e = "work" /\ e.a \in {"start", "end"} /\ RwFresh(s, e) ->
       IF IsRw(cfg, e.s)
       THEN << C("rework without a failed process it is declared for",
                  \E q \in RwWorlds(s, e.p) : RwCands(cfg, q, e.s) # {}),
               C("non-blocking rework before the product's plan is done",
                  (\E q \in RwWorlds(s, e.p) : RwCands(cfg, q, e.s) # {}) => RwAfter(cfg, s, e.p, e.s) # {}) >>
       ELSE << C("a plan step is performed while blocking rework is pending",
                  \E q \in RwWorlds(s, e.p) : RwFree(cfg, q)) >>
  [] e.e = "fin" ->
       << C("a product is finished with rework pending",
             \E q \in RwWorlds(s, e.p) : \A i \in 1..Len(q) : ~q[i].sure) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>

RwBegin(cfg, s, e) ==
  [s EXCEPT !.run = Put(@, e.p, e.s),
            !.w = Put(@, e.p, IF IsRw(cfg, e.s) THEN RwAfter(cfg, s, e.p, e.s) ELSE RwStep(cfg, RwWorlds(s, e.p)))]
RwFinish(cfg, s, e) ==
  [s EXCEPT !.run = Del(@, e.p),
            !.n = IF IsRw(cfg, e.s) THEN @ ELSE Put(@, e.p, Get(@, e.p, 0) + 1),
            !.w = IF IsRw(cfg, e.s) \/ cfg.rate[e.s] = "never" THEN @
                  ELSE Put(@, e.p, { Append(q, [pr |-> e.s, sure |-> cfg.rate[e.s] = "always"]) : q \in Get(@, e.p, {<<>>}) })]

ReworkUpd(cfg, s, e) ==
  CASE e.e = "work" /\ e.a = "start" -> IF RwFresh(s, e) THEN RwBegin(cfg, s, e) ELSE s
    [] e.e = "work" /\ e.a = "end" -> RwFinish(cfg, IF RwFresh(s, e) THEN RwBegin(cfg, s, e) ELSE s, e)
    [] OTHER -> s
=============================================================================
