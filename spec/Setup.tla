-------------------------------- MODULE Setup -------------------------------
(* Setups.  cfg.setup[r] = << <<state, origin, target>>, ... >> defined for r.*)
(* state: cur[r] = process the resource is set up for ("" initially);         *)
(* first[r] = processes started at the instant of the very first start;       *)
(* run[r] = production runs; set[r] = "" or running setup state               *)
EXTENDS Base

SetupInit(cfg) == [cur |-> Empty, first |-> Empty, run |-> Empty, set |-> Empty, done |-> Empty]

SCur(s, r) == Get(s.cur, r, None)
(* processes that started at the instant the resource was first used: any of them may be its setup *)
SFirst(s, r) == Get(s.first, r, {})
SRun(s, r) == Get(s.run, r, {})
SSet(s, r) == Get(s.set, r, None)
SDefs(cfg, r) == SeqSet(cfg.setup[r])
SDefined(cfg, r, a, b) == \E x \in SDefs(cfg, r) : x[2] = a /\ x[3] = b
SDef(cfg, r, st) == CHOOSE x \in SDefs(cfg, r) : x[1] = st

SetupClauses(cfg, s, e) ==
  CASE e.e = "work" /\ e.a \in {"start", "end"} /\ <<e.s, e.p>> \notin SRun(s, e.r) ->
       << C("a process starts on a resource that is being set up", SSet(s, e.r) = None),
          C("a process starts on a resource that is set up for another process",
             SCur(s, e.r) \in {None, e.s} \/ ~SDefined(cfg, e.r, SCur(s, e.r), e.s)
               \/ \E f \in SFirst(s, e.r) : ~SDefined(cfg, e.r, f, e.s)),
          C("a setup was not followed by the process it was made for",
             e.r \in DOMAIN s.done => s.done[e.r] = e.s \/ ~SDefined(cfg, e.r, s.done[e.r], e.s)) >>
  [] e.e = "setup" /\ e.a \in {"start", "end"} /\ SSet(s, e.r) # e.s ->
       << C("two setups run at the same time on a resource", SSet(s, e.r) = None),
          C("an undefined setup is performed", \E x \in SDefs(cfg, e.r) : x[1] = e.s),
          C("a setup starts from another setup than the current one",
             SDef(cfg, e.r, e.s)[2] = SCur(s, e.r) \/ SDef(cfg, e.r, e.s)[2] \in SFirst(s, e.r)),
          C("a setup runs while the resource is processing", SRun(s, e.r) = {}) >>
  [] e.e = "snap" ->
       << C("the setup of a resource changes without a setup process",
             \A r \in DOMAIN e.setup : r \in DOMAIN s.cur => (e.setup[r] = s.cur[r] \/ e.setup[r] \in SFirst(s, r))) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>

SetupUpd(cfg, s, e) ==
  CASE e.e = "work" /\ e.a = "start" ->
         [s EXCEPT !.run = Put(@, e.r, SRun(s, e.r) \cup {<<e.s, e.p>>}),
                   !.cur = IF SCur(s, e.r) = None THEN Put(@, e.r, e.s) ELSE @,
                   !.first = IF SCur(s, e.r) = None \/ SFirst(s, e.r) # {} THEN Put(@, e.r, SFirst(s, e.r) \cup {e.s}) ELSE @,
                   !.done = IF Get(s.done, e.r, e.s) = e.s THEN Del(@, e.r) ELSE @]
    [] e.e = "work" /\ e.a = "end" ->
         [s EXCEPT !.run = Put(@, e.r, SRun(s, e.r) \ {<<e.s, e.p>>}),
                   !.cur = IF SCur(s, e.r) = None THEN Put(@, e.r, e.s) ELSE @,
                   !.first = IF SCur(s, e.r) = None \/ SFirst(s, e.r) # {} THEN Put(@, e.r, SFirst(s, e.r) \cup {e.s}) ELSE @,
                   !.done = IF Get(s.done, e.r, e.s) = e.s THEN Del(@, e.r) ELSE @]
    [] e.e = "setup" /\ e.a = "start" -> [s EXCEPT !.set = Put(@, e.r, e.s)]
    [] e.e = "setup" /\ e.a = "end" ->
         LET d == SDef(cfg, e.r, e.s) IN
         [s EXCEPT !.set = Put(@, e.r, None), !.cur = Put(@, e.r, d[3]), !.done = Put(@, e.r, d[3])]
    [] e.e = "snap" ->
         [s EXCEPT !.cur = [ r \in DOMAIN @ |-> IF SFirst(s, r) # {} /\ r \in DOMAIN e.setup THEN e.setup[r] ELSE @[r] ],
                   !.first = Empty]
    [] OTHER -> s
=============================================================================
