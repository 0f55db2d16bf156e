--------------------------------- MODULE Tune ---------------------------------
(* The moves of the optimizers as actions on a configuration.                 *)
(*                                                                            *)
(* A configuration S is                                                       *)
(*   m    machine -> [loc, di, do, pol, cap, ctl, procs, other, bd, caps, q]  *)
(*        di/do: offsets of its pick-up points, other: its states that are no *)
(*        breakdowns, bd: its breakdowns, caps: capacity per process, q: the  *)
(*        queues in front of and behind it                                    *)
(*   t    carrier -> [loc, pol, cap, ctl, procs, other, bd, caps]             *)
(*   src  source -> routing heuristic                                         *)
(*   aux  auxiliary -> number of pieces per storage                           *)
(*   q    queue -> parameters                                                 *)
(*   rest everything else (a digest)                                          *)
(* Every function has the dummy key "".                                       *)
(*                                                                            *)
(* cfg: pos (allowed positions), mctl, tctl, routes, procs (modules), tprocs, *)
(*   setups id -> [a, b], bsm, bst (BOOLEAN), bsp (processes with a standard  *)
(*   breakdown), bds (all breakdowns), maxp, auxs aux -> [st, req],           *)
(*   qcap storage -> capacity, tf (permitted transformations)                 *)
EXTENDS Base

Ids(f) == DOMAIN f \ {""}
Locs(S) == { S.m[x].loc : x \in Ids(S.m) }
Free(cfg, S) == SeqSet(cfg.pos) \ Locs(S)
NoDup(s) == Cardinality(SeqSet(s)) = Len(s)

(* ---- the parts of a configuration a move may be about --------------------*)
MCore(x) == [loc |-> x.loc, di |-> x.di, do |-> x.do, pol |-> x.pol, cap |-> x.cap, ctl |-> x.ctl, procs |-> x.procs, other |-> SeqSet(x.other)]
TCore(x) == [loc |-> x.loc, pol |-> x.pol, cap |-> x.cap, ctl |-> x.ctl, procs |-> x.procs, other |-> SeqSet(x.other)]
SameM(S, T, x) == MCore(S.m[x]) = MCore(T.m[x])
SameT(S, T, x) == TCore(S.t[x]) = TCore(T.t[x])
Only(S, T, X) == Ids(S.m) = Ids(T.m) /\ \A x \in Ids(S.m) \ X : SameM(S, T, x)
OnlyT(S, T, X) == Ids(S.t) = Ids(T.t) /\ \A x \in Ids(S.t) \ X : SameT(S, T, x)
AllM(S, T) == Only(S, T, {})
AllT(S, T) == OnlyT(S, T, {})
Side(S, T) == S.src = T.src /\ S.aux = T.aux /\ S.rest = T.rest
Same(S, T) == AllM(S, T) /\ AllT(S, T) /\ Side(S, T)

(* Set up states a machine has to have and must not have for its processes.   *)
SetupOk(cfg, x) ==
  LET P == SeqSet(x.procs)  O == SeqSet(x.other) IN
  /\ { s \in Ids(cfg.setups) : {cfg.setups[s].a, cfg.setups[s].b} \subseteq P } \subseteq O
  /\ \A s \in O \cap Ids(cfg.setups) : {cfg.setups[s].a, cfg.setups[s].b} \cap P # {}
Plain(cfg, x) == SeqSet(x.other) \ Ids(cfg.setups)
(* x became y by a change of its processes                                    *)
Refit(cfg, x, y) ==
  /\ [MCore(x) EXCEPT !.procs = <<>>, !.other = {}] = [MCore(y) EXCEPT !.procs = <<>>, !.other = {}]
  /\ Plain(cfg, x) = Plain(cfg, y) /\ SetupOk(cfg, y)
Gains(x, y, p) == y.procs = (IF p \in SeqSet(x.procs) THEN x.procs ELSE Append(x.procs, p))
Loses(x, y, p) == SeqSet(y.procs) = SeqSet(x.procs) \ {p} /\ Len(y.procs) = Len(x.procs) - 1
Modules(cfg, x) == SeqSet(x.procs) \cap SeqSet(cfg.procs)

(* ---- the moves ------------------------------------------------------------*)
NewMachine(cfg, S, y) ==
  /\ y.loc \in Free(cfg, S) /\ y.di = "0,0" /\ y.do = "0,0"
  /\ y.pol \in SeqSet(cfg.mctl) /\ y.cap = 1
  /\ SeqSet(y.procs) \subseteq SeqSet(cfg.procs) /\ NoDup(y.procs) /\ Len(y.procs) \in 1..cfg.maxp
  /\ Plain(cfg, y) = {} /\ SetupOk(cfg, y)
AddMachine(cfg, S, T) ==
  \E n \in Ids(T.m) \ Ids(S.m) :
    /\ Ids(T.m) = Ids(S.m) \cup {n} /\ NewMachine(cfg, S, T.m[n])
    /\ \A x \in Ids(S.m) : SameM(S, T, x)
    /\ AllT(S, T) /\ Side(S, T)
RemoveMachine(cfg, S, T) ==
  \E x \in Ids(S.m) \ Ids(T.m) :
    /\ Ids(S.m) = Ids(T.m) \cup {x} /\ \A y \in Ids(T.m) : SameM(S, T, y)
    /\ AllT(S, T) /\ Side(S, T)
MoveMachine(cfg, S, T) ==
  \E x \in Ids(S.m) :
    /\ Only(S, T, {x}) /\ T.m[x].loc \in Free(cfg, S)
    /\ [MCore(S.m[x]) EXCEPT !.loc = ""] = [MCore(T.m[x]) EXCEPT !.loc = ""]
    /\ AllT(S, T) /\ Side(S, T)
AddModule(cfg, S, T) ==
  \E x \in Ids(S.m) :
    /\ Only(S, T, {x}) /\ Refit(cfg, S.m[x], T.m[x])
    /\ \E p \in SeqSet(cfg.procs) : Gains(S.m[x], T.m[x], p)
    /\ AllT(S, T) /\ Side(S, T)
RemoveModule(cfg, S, T) ==
  \E x \in Ids(S.m) :
    /\ Only(S, T, {x}) /\ Refit(cfg, S.m[x], T.m[x])
    /\ \E p \in Modules(cfg, S.m[x]) : Loses(S.m[x], T.m[x], p)
    /\ AllT(S, T) /\ Side(S, T)
MoveModule(cfg, S, T) ==
  \E x, y \in Ids(S.m) :
    /\ x # y /\ Only(S, T, {x, y}) /\ Refit(cfg, S.m[x], T.m[x]) /\ Refit(cfg, S.m[y], T.m[y])
    /\ \E p \in Modules(cfg, S.m[x]) : Loses(S.m[x], T.m[x], p) /\ Gains(S.m[y], T.m[y], p)
    /\ AllT(S, T) /\ Side(S, T)
ChangePolicy(cfg, S, T) ==
  /\ Side(S, T)
  /\ \/ /\ AllT(S, T)
        /\ \E x \in Ids(S.m) : /\ Only(S, T, {x}) /\ T.m[x].pol \in SeqSet(cfg.mctl) \ {S.m[x].pol}
                               /\ [MCore(S.m[x]) EXCEPT !.pol = ""] = [MCore(T.m[x]) EXCEPT !.pol = ""]
     \/ /\ AllM(S, T)
        /\ \E x \in Ids(S.t) : /\ OnlyT(S, T, {x}) /\ T.t[x].pol \in SeqSet(cfg.tctl) \ {S.t[x].pol}
                               /\ [TCore(S.t[x]) EXCEPT !.pol = ""] = [TCore(T.t[x]) EXCEPT !.pol = ""]
ChangeRouting(cfg, S, T) ==
  /\ AllM(S, T) /\ AllT(S, T) /\ S.aux = T.aux /\ S.rest = T.rest
  /\ Ids(S.src) = Ids(T.src)
  /\ \E x \in Ids(S.src) : /\ T.src[x] \in SeqSet(cfg.routes) \ {S.src[x]}
                           /\ \A y \in Ids(S.src) \ {x} : S.src[y] = T.src[y]
AddTransport(cfg, S, T) ==
  \E n \in Ids(T.t) \ Ids(S.t) :
    /\ Ids(T.t) = Ids(S.t) \cup {n} /\ \A x \in Ids(S.t) : SameT(S, T, x)
    /\ T.t[n].pol \in SeqSet(cfg.tctl) /\ T.t[n].cap = 1 /\ Len(T.t[n].procs) = 1 /\ SeqSet(T.t[n].procs) \subseteq SeqSet(cfg.tprocs)
    /\ AllM(S, T) /\ Side(S, T)
RemoveTransport(cfg, S, T) ==
  \E x \in Ids(S.t) \ Ids(T.t) :
    /\ Ids(S.t) = Ids(T.t) \cup {x} /\ \A y \in Ids(T.t) : SameT(S, T, y)
    /\ AllM(S, T) /\ Side(S, T)

Req(cfg) == { a \in Ids(cfg.auxs) : cfg.auxs[a].req }
RECURSIVE SumS(_, _)
SumS(f, X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN f[x] + SumS(f, X \ {x})
Slots(cfg, q) == { <<a, i>> \in UNION { { <<a, i>> : i \in 1..Len(cfg.auxs[a].st) } : a \in Ids(cfg.auxs) } : cfg.auxs[a].st[i] = q }
Stored(cfg, S, q) == SumS([ w \in Slots(cfg, q) |-> S.aux[w[1]][w[2]] ], Slots(cfg, q))
Fits(cfg, S, q) == cfg.qcap[q] = 0 \/ Stored(cfg, S, q) <= cfg.qcap[q]
StepAux(cfg, S, T, d) ==
  /\ AllM(S, T) /\ AllT(S, T) /\ S.src = T.src /\ S.rest = T.rest /\ Ids(S.aux) = Ids(T.aux)
  /\ \E a \in Req(cfg) : /\ \A b \in Ids(S.aux) \ {a} : S.aux[b] = T.aux[b]
                         /\ \E i \in 1..Len(S.aux[a]) : /\ T.aux[a] = [S.aux[a] EXCEPT ![i] = @ + d]
                                                        /\ T.aux[a][i] >= 0
                                                        /\ (d > 0) => Fits(cfg, T, cfg.auxs[a].st[i])
AddAux(cfg, S, T) == StepAux(cfg, S, T, 1)
RemoveAux(cfg, S, T) == StepAux(cfg, S, T, -1)

Did(cfg, op, S, T) ==
  CASE op = "add_machine" -> AddMachine(cfg, S, T)
    [] op = "remove_machine" -> RemoveMachine(cfg, S, T)
    [] op = "move_machine" -> MoveMachine(cfg, S, T)
    [] op = "add_process_module" -> AddModule(cfg, S, T)
    [] op = "remove_process_module" -> RemoveModule(cfg, S, T)
    [] op = "move_process_module" -> MoveModule(cfg, S, T)
    [] op = "change_control_policy" -> ChangePolicy(cfg, S, T)
    [] op = "change_routing_policy" -> ChangeRouting(cfg, S, T)
    [] op = "add_transport_resource" -> AddTransport(cfg, S, T)
    [] op = "remove_transport_resource" -> RemoveTransport(cfg, S, T)
    [] op = "add_auxiliary" -> AddAux(cfg, S, T)
    [] op = "remove_auxiliary" -> RemoveAux(cfg, S, T)
    [] OTHER -> FALSE

(* When may a move be impossible?                                             *)
MayRefuse(cfg, op, S) ==
  CASE op = "add_machine" -> Free(cfg, S) = {}
    [] op = "remove_machine" -> Ids(S.m) = {}
    [] op = "move_machine" -> Ids(S.m) = {} \/ Free(cfg, S) = {}
    [] op = "add_process_module" -> Ids(S.m) = {}
    [] op = "remove_process_module" -> Ids(S.m) = {} \/ \E x \in Ids(S.m) : Modules(cfg, S.m[x]) = {}
    [] op = "move_process_module" -> Cardinality(Ids(S.m)) < 2 \/ \E x \in Ids(S.m) : Modules(cfg, S.m[x]) = {}
    [] op = "change_control_policy" ->
         \/ Ids(S.m) \cup Ids(S.t) = {}
         \/ Ids(S.m) # {} /\ Len(cfg.mctl) < 2
         \/ Ids(S.t) # {} /\ Len(cfg.tctl) < 2
    [] op = "change_routing_policy" -> Len(cfg.routes) < 2 \/ Ids(S.src) = {}
    [] op = "add_transport_resource" -> Len(cfg.tprocs) = 0
    [] op = "remove_transport_resource" -> Ids(S.t) = {}
    [] op = "add_auxiliary" ->
         Req(cfg) = {} \/ \E a \in Req(cfg) : \E i \in 1..Len(cfg.auxs[a].st) :
                            LET q == cfg.auxs[a].st[i] IN cfg.qcap[q] # 0 /\ Stored(cfg, S, q) >= cfg.qcap[q]
    [] op = "remove_auxiliary" -> Req(cfg) = {} \/ \E a \in Req(cfg) : \E i \in 1..Len(S.aux[a]) : S.aux[a][i] = 0
    [] OTHER -> FALSE

Allowed(cfg) == UNION {
  IF "production_capacity" \in SeqSet(cfg.tf) THEN {"add_machine", "remove_machine", "move_machine", "change_control_policy", "add_process_module",
                                                      "remove_process_module", "move_process_module"} ELSE {},
  IF "transport_capacity" \in SeqSet(cfg.tf) THEN {"add_transport_resource", "remove_transport_resource"} ELSE {},
  IF "auxiliary_capacity" \in SeqSet(cfg.tf) THEN {"add_auxiliary", "remove_auxiliary"} ELSE {},
  IF "layout" \in SeqSet(cfg.tf) THEN {"move_machine"} ELSE {},
  IF "sequencing_logic" \in SeqSet(cfg.tf) THEN {"change_control_policy"} ELSE {},
  IF "routing_logic" \in SeqSet(cfg.tf) THEN {"change_routing_policy"} ELSE {} }

(* ---- what a configuration looks like after a step of an optimizer ---------*)
QueuesOk(T) ==
  /\ \A x \in Ids(T.m) : Len(T.m[x].qi) = 1 /\ Len(T.m[x].qo) = 1 /\ SeqSet(T.m[x].qi \o T.m[x].qo) \subseteq Ids(T.q)
  /\ \A x, y \in Ids(T.m) : (x # y) => SeqSet(T.m[x].qi \o T.m[x].qo) \cap SeqSet(T.m[y].qi \o T.m[y].qo) = {}
  /\ \A x \in Ids(T.m) : T.m[x].qi # T.m[x].qo
  /\ \A x \in Ids(T.m) : \A k \in SeqSet(T.m[x].qi \o T.m[x].qo) : T.q[k] = "inf"
CapsOk(T) == /\ \A x \in Ids(T.m) : T.m[x].caps = [ i \in 1..Len(T.m[x].procs) |-> T.m[x].cap ]
             /\ \A x \in Ids(T.t) : T.t[x].caps = [ i \in 1..Len(T.t[x].procs) |-> T.t[x].cap ]
StdBd(cfg, x) == (IF cfg.bsm THEN {"BSM"} ELSE {}) \cup { cfg.bsp[p] : p \in SeqSet(x.procs) \cap Ids(cfg.bsp) }
BdOk(cfg, T) ==
  /\ (cfg.bsm \/ Ids(cfg.bsp) # {}) => \A x \in Ids(T.m) : SeqSet(T.m[x].bd) = StdBd(cfg, T.m[x]) /\ NoDup(T.m[x].bd)
  /\ cfg.bst => \A x \in Ids(T.t) : T.t[x].bd = <<"BST">>
RefsOk(T, ids) ==
  /\ \A x \in Ids(T.m) : SeqSet(T.m[x].procs) \subseteq SeqSet(ids.procs) /\ SeqSet(T.m[x].other \o T.m[x].bd) \subseteq SeqSet(ids.states)
  /\ \A x \in Ids(T.t) : SeqSet(T.t[x].procs) \subseteq SeqSet(ids.procs) /\ SeqSet(T.t[x].other \o T.t[x].bd) \subseteq SeqSet(ids.states)
OnceOk(T) == \A x \in Ids(T.m) : NoDup(T.m[x].procs)
KeepBd(S, T) == /\ \A x \in Ids(S.m) \cap Ids(T.m) : SeqSet(S.m[x].bd) = SeqSet(T.m[x].bd)
                /\ \A x \in Ids(S.t) \cap Ids(T.t) : S.t[x].bd = T.t[x].bd

Normal(cfg, T) ==
  <<C("every machine has one own unlimited input and output queue", QueuesOk(T)),
    C("the capacity of every process is the capacity of its resource", CapsOk(T)),
    C("every resource has the standard breakdowns of its kind and processes", BdOk(cfg, T)),
    C("all processes and states of the resources exist", RefsOk(T, cfg.ids)),
    C("no machine has a process twice", OnceOk(T))>>

(* ---- recombination --------------------------------------------------------*)
MBag(S, c) == Cardinality({ x \in Ids(S.m) : MCore(S.m[x]) = c })
TBag(S, c) == Cardinality({ x \in Ids(S.t) : TCore(S.t[x]) = c })
MCores(S) == { MCore(S.m[x]) : x \in Ids(S.m) }
TCores(S) == { TCore(S.t[x]) : x \in Ids(S.t) }
Conserved(A, B, X, Y) ==
  /\ \A c \in MCores(A) \cup MCores(B) \cup MCores(X) \cup MCores(Y) : MBag(A, c) + MBag(B, c) = MBag(X, c) + MBag(Y, c)
  /\ \A c \in TCores(A) \cup TCores(B) \cup TCores(X) \cup TCores(Y) : TBag(A, c) + TBag(B, c) = TBag(X, c) + TBag(Y, c)

(* ---- a random configuration on the basis of B -----------------------------*)
May(cfg, x) == x \in SeqSet(cfg.tf)
RandomOk(cfg, B, T) ==
  <<C("machines are only replaced where production capacity may change",
      May(cfg, "production_capacity") \/
        ( /\ Ids(B.m) = Ids(T.m)
          /\ \A x \in Ids(B.m) : [MCore(B.m[x]) EXCEPT !.loc = "", !.pol = ""] = [MCore(T.m[x]) EXCEPT !.loc = "", !.pol = ""] )),
    C("machines are only moved where the layout may change",
      May(cfg, "production_capacity") \/ May(cfg, "layout") \/ \A x \in Ids(B.m) \cap Ids(T.m) : B.m[x].loc = T.m[x].loc),
    C("control policies of machines only change where the sequencing may change",
      May(cfg, "production_capacity") \/ May(cfg, "sequencing_logic") \/ \A x \in Ids(B.m) \cap Ids(T.m) : B.m[x].pol = T.m[x].pol),
    C("carriers are only replaced where transport capacity may change",
      May(cfg, "transport_capacity") \/
        ( /\ Ids(B.t) = Ids(T.t)
          /\ \A x \in Ids(B.t) : [TCore(B.t[x]) EXCEPT !.pol = ""] = [TCore(T.t[x]) EXCEPT !.pol = ""] )),
    C("control policies of carriers only change where the sequencing may change",
      May(cfg, "transport_capacity") \/ May(cfg, "sequencing_logic") \/ \A x \in Ids(B.t) \cap Ids(T.t) : B.t[x].pol = T.t[x].pol),
    C("the number of auxiliaries only changes where it may", May(cfg, "auxiliary_capacity") \/ B.aux = T.aux),
    C("auxiliaries fit in their storages",
      \A a \in Ids(cfg.auxs) : \A i \in 1..Len(cfg.auxs[a].st) : Fits(cfg, B, cfg.auxs[a].st[i]) => Fits(cfg, T, cfg.auxs[a].st[i])),
    C("routing heuristics only change where they may", May(cfg, "routing_logic") \/ B.src = T.src),
    C("a new routing heuristic is one of the options",
      May(cfg, "routing_logic") => \A x \in Ids(T.src) : T.src[x] \in SeqSet(cfg.routes)),
    C("machines stand at permitted positions of their own",
      \A x \in Ids(T.m) : T.m[x].loc \in SeqSet(cfg.pos) /\ \A y \in Ids(T.m) \ {x} : T.m[y].loc # T.m[x].loc),
    C("new machines are built from the options",
      May(cfg, "production_capacity") => \A x \in Ids(T.m) : NewMachine(cfg, [T EXCEPT !.m = [k \in {""} |-> T.m[""]]], T.m[x])),
    C("everything else is as in the baseline", B.rest = T.rest)>>

TuneInit(cfg) == 0
Names(S) == Ids(S.m) \cup Ids(S.t)
TuneClauses(cfg, s, e) ==
  CASE e.e = "move" ->
         (IF e.ret THEN
            <<C("a move that reports success did what it is said to do: " \o e.op, Did(cfg, e.op, e.a, e.b))>>
          ELSE
            <<C("a move that reports failure changed nothing: " \o e.op, Same(e.a, e.b)),
              C("a move only fails when it is impossible: " \o e.op, MayRefuse(cfg, e.op, e.a))>>)
         \o <<C("a move does not touch the breakdowns: " \o e.op, KeepBd(e.a, e.b)),
              C("a move leaves no dangling references: " \o e.op, RefsOk(e.b, cfg.ids))>>
    [] e.e = "mutation" ->
         <<C("a mutation is one of the permitted moves", Same(e.a, e.b) \/ \E op \in Allowed(cfg) : Did(cfg, op, e.a, e.b)),
           C("a mutation does nothing only when a permitted move is impossible",
             Same(e.a, e.b) => \E op \in Allowed(cfg) : MayRefuse(cfg, op, e.a) \/ Did(cfg, op, e.a, e.b)),
           C("a changed configuration has an ID of its own", e.sameid => e.a = e.b)>>
         \o Normal(cfg, e.b)
    [] e.e = "crossover" ->
         <<C("no two resources of a child share an ID", e.unique),
           C("a crossover neither loses nor duplicates machines or carriers", Conserved(e.a, e.b, e.x, e.y)),
           C("a crossover only exchanges resources", e.x.src = e.a.src /\ e.x.aux = e.a.aux /\ e.x.rest = e.a.rest
                                                    /\ e.y.src = e.b.src /\ e.y.aux = e.b.aux /\ e.y.rest = e.b.rest),
           C("children have IDs of their own", e.newids)>>
         \o Normal(cfg, e.x) \o Normal(cfg, e.y)
    [] e.e = "random" ->
         <<C("the baseline is not changed", e.a = e.a2),
           C("a random configuration has an ID of its own", e.newids)>>
         \o RandomOk(cfg, e.a, e.b) \o Normal(cfg, e.b)
    [] e.e = "standard" ->
         (* standard breakdowns are added to the states of the system             *)
         <<C("a standard machine breakdown exists iff machines break down", e.bsm <=> e.hadm),
           C("a standard carrier breakdown exists iff carriers break down", e.bst <=> e.hadt),
           C("a standard process breakdown exists for every process that breaks down", SeqSet(e.bsp) = SeqSet(e.hadp)),
           C("defining standard breakdowns changes no resource", AllM(e.a, e.b) /\ AllT(e.a, e.b) /\ KeepBd(e.a, e.b)),
           C("standard breakdowns take the times of the breakdowns they stand for", e.times)>>
    [] OTHER -> <<C("the moves can be made: " \o e.what, FALSE)>>
TuneUpd(cfg, s, e) == s
=============================================================================
