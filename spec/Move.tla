-------------------------------- MODULE Move --------------------------------
(* Transports: orders, empty and loaded movements, positions, durations and   *)
(* routes of carriers of capacity one.                                        *)
(* cfg.place[x]  = [loc, inp, out, kind]  positions of a place                *)
(* cfg.init[c]   = initial position of carrier c                              *)
(* cfg.q[q]      = [kind, owner]                                              *)
(* cfg.tp[s]     = transport process s: [model |-> "dist" | "vals" | "any",   *)
(*                 num, den (speed = num/den), react, metric, vals, load,     *)
(*                 unload (possible handling times), link, links]             *)
(* cfg.route / cfg.dur = check routes / durations                             *)
(* state: ord[c] = orders of c not yet completed; c[c] = the carrier          *)
(*        dist[s] = all-pairs shortest distances of link network s            *)
EXTENDS Geo

MTol == 3

\* ---- link networks ------------------------------------------------------------
Far == 1000000
NetNodes(tp) == { tp.links[i][1] : i \in 1..Len(tp.links) } \cup { tp.links[i][2] : i \in 1..Len(tp.links) }
Linked(tp, a, b) == \E i \in 1..Len(tp.links) : {tp.links[i][1], tp.links[i][2]} = {a, b}
RECURSIVE Floyd(_, _)
Floyd(d, K) ==
  IF K = {} THEN d
  ELSE LET k == CHOOSE x \in K : TRUE IN
       Floyd(TLCEval([ p \in DOMAIN d |-> Min2(d[p], d[<<p[1], k>>] + d[<<k, p[2]>>]) ]), K \ {k})
Net(cfg, tp) ==
  LET N == NetNodes(tp) IN
  Floyd(TLCEval([ p \in N \X N |-> IF p[1] = p[2] THEN 0
                           ELSE IF Linked(tp, p[1], p[2])
                                THEN Euclid(cfg.place[p[1]].loc, cfg.place[p[2]].loc) ELSE Far ]), N)

MoveInit(cfg) ==
  [ ord  |-> [ c \in DOMAIN cfg.init |-> <<>> ],
    c    |-> [ c \in DOMAIN cfg.init |->
                 [at |-> None, pos |-> cfg.init[c], ph |-> "idle", job |-> <<>>, mv |-> <<>>, n |-> 0, path |-> <<>>] ],
    dist |-> [ s \in { x \in DOMAIN cfg.tp : cfg.tp[x].link } |-> Net(cfg, cfg.tp[s]) ] ]

\* the place a carrier stands at (a carrier that has not moved yet may stand at a place of its network)
MPlace(cfg, k) ==
  IF k.at # None THEN k.at
  ELSE LET S == { x \in DOMAIN cfg.place : cfg.place[x].loc = k.pos } IN
       IF S = {} THEN None ELSE CHOOSE x \in S : TRUE
MHere(cfg, k, tpl, o) == k.at = o \/ (tpl /\ k.at = None /\ MPlace(cfg, k) = o)
MJobs(s, c, p) == { i \in 1..Len(s.ord[c]) : s.ord[c][i].p = p }
MJob(s, c, p) == s.ord[c][CHOOSE i \in MJobs(s, c, p) : \A j \in MJobs(s, c, p) : i <= j]
Bare(cfg, x) == cfg.place[x].kind = "sink"        \* loads that leave such a place are not taken from a queue
Open(cfg, x) == cfg.place[x].kind = "source"      \* loads that arrive there are not put into a queue

\* the job a movement of load p belongs to, <<>> if none
MJobOf(s, k, c, p) == IF k.ph # "idle" THEN k.job
                      ELSE IF MJobs(s, c, p) # {} THEN MJob(s, c, p) ELSE <<>>
MLast(k, job, e) == IF e.em = 1 THEN e.g = job.o ELSE e.g = job.g
MTarget(cfg, job, e) ==
  LET pl == cfg.place[e.g] IN
  IF e.em = 1 THEN (IF e.g = job.o THEN pl.out ELSE pl.loc)
  ELSE (IF e.g = job.g THEN pl.inp ELSE pl.loc)
MFirst(k, e) == IF e.em = 1 THEN k.ph \in {"idle"} ELSE k.ph # "loaded"

\* the possible durations of a movement
MDurOK(cfg, k, job, e, d) ==
  LET tp == cfg.tp[e.s]
      to == MTarget(cfg, job, e)
      L == IF e.em = 0 /\ MFirst(k, e) THEN SeqSet(tp.load) ELSE {0}
      U == IF e.em = 0 /\ MLast(k, job, e) THEN SeqSet(tp.unload) ELSE {0}
      Base1(x) == CASE tp.model = "dist" ->
                        Near((x - tp.react) * tp.num, Dist(tp.metric, k.pos, to) * tp.den, MTol * Max2(tp.num, tp.den))
                    [] tp.model = "vals" -> \E v \in SeqSet(tp.vals) : Near(x, v, MTol)
                    [] OTHER -> TRUE
  IN \/ -1 \in L \/ -1 \in U
     \/ \E l \in L : \E u \in U : Base1(d - l - u)

MLegClauses(cfg, s, e) ==
  LET k == s.c[e.r]
      job == MJobOf(s, k, e.r, e.p)
      tp == cfg.tp[e.s]
      prev == MPlace(cfg, k)
  IN IF job = <<>> THEN << C("a carrier moves without an order", FALSE) >>
     ELSE << C("a carrier moves for two orders at a time", k.mv = <<>> /\ (k.ph = "idle" \/ job.p = e.p)),
             C("a carrier drives empty with a load or after it has arrived at the pick-up",
                e.em = 1 => /\ k.ph \in {"idle", "empty"}
                            /\ ~MHere(cfg, k, tp.link, job.o)),
             C("a carrier moves loaded without having fetched the load at its origin",
                e.em = 0 => \/ k.ph \in {"load", "loaded"}
                            \/ Bare(cfg, job.o) /\ MHere(cfg, k, tp.link, job.o)),
             C("a movement does not start where the previous one ended",
                e.o = (IF k.at = None THEN "Loading station" ELSE k.at)),
             C("a carrier moves to another place than its order says",
                tp.link \/ (IF e.em = 1 THEN e.g = job.o ELSE e.g = job.g)),
             C("a carrier uses a connection that is no declared link",
                tp.link /\ cfg.route /\ prev # None /\ prev # e.g => Linked(tp, prev, e.g)),
             C("the duration of a movement does not follow from the layout",
                cfg.dur => MDurOK(cfg, k, job, e, e.x - e.t)) >>

\* length of the way a carrier has gone in the current phase
RECURSIVE PathLen(_, _)
PathLen(cfg, path) ==
  IF Len(path) < 2 THEN 0
  ELSE Euclid(cfg.place[path[1]].loc, cfg.place[path[2]].loc) + PathLen(cfg, Tail(path))

MEndClauses(cfg, s, e) ==
  LET k == s.c[e.r] IN
  IF k.mv = <<>> THEN MLegClauses(cfg, s, e)       \* a movement without duration
  ELSE << C("a carrier ends another movement than it began",
             k.mv.p = e.p /\ k.mv.em = e.em /\ k.mv.g = e.g /\ k.mv.o = e.o) >>

MStart(cfg, s, e) ==
  LET k == s.c[e.r]
      job == MJobOf(s, k, e.r, e.p)
      ph == IF e.em = 1 THEN "empty" ELSE "loaded"
      fresh == k.ph # ph
  IN [s EXCEPT !.c[e.r] = [k EXCEPT !.ph = ph, !.job = job,
                                    !.mv = [p |-> e.p, em |-> e.em, o |-> e.o, g |-> e.g],
                                    !.n = IF fresh THEN 1 ELSE @ + 1,
                                    !.path = IF fresh THEN <<MPlace(cfg, k)>> ELSE @]]
MEnd(cfg, s, e) ==
  LET k == s.c[e.r]
      last == MLast(k, k.job, e)
      ph == IF ~last THEN k.ph
            ELSE IF e.em = 1 THEN "there"
            ELSE IF Open(cfg, k.job.g) THEN "idle" ELSE "drop"
      done == last /\ e.em = 0 /\ Open(cfg, k.job.g)
  IN [s EXCEPT !.c[e.r] = [k EXCEPT !.ph = ph, !.mv = <<>>, !.at = e.g,
                                    !.pos = MTarget(cfg, k.job, e), !.path = Append(@, e.g)],
               !.ord[e.r] = IF done THEN RemoveFirst(@, k.job) ELSE @]

\* carriers that may fetch load p from place o
MFetch(cfg, s, p, o) ==
  { c \in DOMAIN s.c :
      LET k == s.c[c] IN
      /\ k.mv = <<>>
      /\ \/ k.ph = "there" /\ k.job.p = p /\ k.job.o = o /\ k.at = o
         \/ k.ph = "idle" /\ MJobs(s, c, p) # {} /\ MJob(s, c, p).o = o
            /\ MHere(cfg, k, \E x \in DOMAIN s.dist : TRUE, o) }
MDropper(s, p, g) ==
  { c \in DOMAIN s.c :
      LET k == s.c[c] IN
      /\ k.job # <<>> /\ k.mv = <<>> /\ k.job.p = p /\ k.job.g = g
      /\ \/ k.ph = "drop"
         \* on a link network a delivery to where the load already is needs no movement
         \/ k.ph = "load" /\ k.job.o = g /\ DOMAIN s.dist # {} }

\* places at which loads are handed over where the place is
MPlain(cfg, x) == cfg.place[x].inp = cfg.place[x].loc /\ cfg.place[x].out = cfg.place[x].loc
\* the way of a completed phase of a link transport is a shortest one (judged between plain places, where
\* the length of the way does not depend on the hand-over positions)
MShort(cfg, s, e) ==
  LET k == s.c[e.r]
      tp == cfg.tp[e.s]
      k1 == IF k.mv = <<>> THEN MStart(cfg, s, e).c[e.r] ELSE k
      path == Append(k1.path, e.g)
      D == s.dist[e.s]
      a == path[1]
  IN tp.link /\ cfg.route /\ MLast(k1, k1.job, e) /\ a # None /\ MPlain(cfg, a) /\ MPlain(cfg, e.g) /\ <<a, e.g>> \in DOMAIN D
        => PathLen(cfg, path) <= D[<<a, e.g>>] + 2 * Len(path)

MoveClauses(cfg, s, e) ==
  CASE e.e = "leg" /\ e.a = "start" -> MLegClauses(cfg, s, e)
    [] e.e = "leg" /\ e.a = "end" ->
         MEndClauses(cfg, s, e) \o
           << C("a link transport does not take a shortest route", MShort(cfg, s, e)) >>
    [] e.e = "take" ->
         << C("a load is taken although no carrier is there to fetch it",
               MFetch(cfg, s, e.p, cfg.q[e.q].owner) # {}) >>
    [] e.e = "place" ->
         << C("a load is placed although no carrier has brought it there",
               MDropper(s, e.p, cfg.q[e.q].owner) # {}) >>
    [] e.e = "snap" ->
         << C("a carrier is not at the position where its last movement ended",
               \A c \in DOMAIN s.c : LET P == e.pos[c] IN
                  Near(P[1], s.c[c].pos[1], MTol) /\ Near(P[2], s.c[c].pos[2], MTol)),
            C("a carrier that has arrived does not exchange its load",
               \* nothing is taken from a queue at a bare place; the way on may have to wait for a repair there
               \A c \in DOMAIN s.c : s.c[c].ph \notin {"there", "drop"} \/ e.final = 1
                                      \/ (s.c[c].ph = "there" /\ Bare(cfg, s.c[c].job.o))) >>
    [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
    [] OTHER -> <<>>

MoveUpd(cfg, s, e) ==
  CASE e.e = "order" ->
         [s EXCEPT !.ord[e.r] = Append(@, [p |-> e.p, o |-> e.o, g |-> e.g])]
    [] e.e = "leg" /\ e.a = "start" -> MStart(cfg, s, e)
    [] e.e = "leg" /\ e.a = "end" ->
         MEnd(cfg, IF s.c[e.r].mv = <<>> THEN MStart(cfg, s, e) ELSE s, e)
    [] e.e = "take" ->
         LET c == CHOOSE x \in MFetch(cfg, s, e.p, cfg.q[e.q].owner) : TRUE
             k == s.c[c]
             job == IF k.ph = "idle" THEN MJob(s, c, e.p) ELSE k.job
         IN [s EXCEPT !.c[c] = [k EXCEPT !.ph = "load", !.job = job]]
    [] e.e = "place" ->
         LET c == CHOOSE x \in MDropper(s, e.p, cfg.q[e.q].owner) : TRUE IN
         [s EXCEPT !.ord[c] = RemoveFirst(@, s.c[c].job),
                   !.c[c] = [@ EXCEPT !.ph = "idle", !.job = <<>>]]
    [] OTHER -> s
=============================================================================
