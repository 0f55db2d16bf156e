-------------------------------- MODULE Recon --------------------------------
(* Which reconfigurations an optimizer may choose, and what they cost.        *)
(*                                                                            *)
(* The configurations are those of Tune.tla; cfg additionally has             *)
(*   lim   [cost, machines, modules, carriers]: the limits of the scenario    *)
(*   price [machine, carrier, module (process -> price), aux]                 *)
(*   pc    the products' needs, the processes and the fixed places as in      *)
(*         Config.tla                                                         *)
EXTENDS Tune
CF == INSTANCE Config

Pos(n) == IF n > 0 THEN n ELSE 0
Offering(S, p) == Cardinality({ x \in Ids(S.m) : p \in SeqSet(S.m[x].procs) })
PosSum(f, X) == SumS([ x \in X |-> Pos(f[x]) ], X)

MachineCost(cfg, S, B) == Pos((Cardinality(Ids(S.m)) - Cardinality(Ids(B.m))) * cfg.price.machine)
CarrierCost(cfg, S, B) == Pos((Cardinality(Ids(S.t)) - Cardinality(Ids(B.t))) * cfg.price.carrier)
ModuleCost(cfg, S, B) ==
  LET P == SeqSet(cfg.procs) IN
  PosSum([ p \in P |-> (Offering(S, p) - Offering(B, p)) * (IF p \in DOMAIN cfg.price.module THEN cfg.price.module[p] ELSE 0) ], P)
AuxSlots(S) == UNION { { <<a, i>> : i \in 1..Len(S.aux[a]) } : a \in Ids(S.aux) }
AuxCost(cfg, S, B) == PosSum([ w \in AuxSlots(S) |-> (S.aux[w[1]][w[2]] - B.aux[w[1]][w[2]]) * cfg.price.aux ], AuxSlots(S))
Cost(cfg, S, B) == MachineCost(cfg, S, B) + CarrierCost(cfg, S, B) + ModuleCost(cfg, S, B) + AuxCost(cfg, S, B)

FewMachines(cfg, S) == Cardinality(Ids(S.m)) <= cfg.lim.machines
SomeCarriers(cfg, S) == Cardinality(Ids(S.t)) \in 1..cfg.lim.carriers
FewModules(cfg, S) == \A x \in Ids(S.m) : Cardinality(Modules(cfg, S.m[x])) <= cfg.lim.modules
AuxThere(cfg, S) == \A a \in Req(cfg) : \E i \in 1..Len(S.aux[a]) : S.aux[a][i] > 0
(* the places and offers of this configuration, as Config.tla wants them      *)
Provides(pc) == CF!Lacking(pc) = {} /\ ~CF!OffersDemand(pc)
Apart(pc) == ~CF!Overlap(pc)
Placed(cfg, S) == \A x \in Ids(S.m) : S.m[x].loc \in SeqSet(cfg.pos)
Affordable(cfg, S, B) == Cost(cfg, S, B) <= cfg.lim.cost

Permitted(cfg, S, B, pc) ==
  /\ FewMachines(cfg, S) /\ SomeCarriers(cfg, S) /\ FewModules(cfg, S) /\ AuxThere(cfg, S)
  /\ Provides(pc) /\ Apart(pc) /\ Placed(cfg, S) /\ Affordable(cfg, S, B)

ReconInit(cfg) == 0
ReconClauses(cfg, s, e) ==
  IF e.e = "judge" THEN
    <<C("the cost of a reconfiguration", e.cost = Cost(cfg, e.s, cfg.base)),
      C("the cost of a reconfiguration is not negative", e.cost >= 0),
      C("too many machines are refused", e.ok => FewMachines(cfg, e.s)),
      C("no carrier or too many carriers are refused", e.ok => SomeCarriers(cfg, e.s)),
      C("too many process modules of a machine are refused", e.ok => FewModules(cfg, e.s)),
      C("lacking auxiliaries are refused", e.ok => AuxThere(cfg, e.s)),
      C("lacking processes are refused", e.ok => Provides(e.pc)),
      C("two things at one place are refused", e.ok => Apart(e.pc)),
      C("a machine at a forbidden position is refused", e.ok => Placed(cfg, e.s)),
      C("an unaffordable reconfiguration is refused", e.ok => Affordable(cfg, e.s, cfg.base)),
      C("a permitted reconfiguration is accepted", Permitted(cfg, e.s, cfg.base, e.pc) => e.ok),
      C("the cost of an accepted reconfiguration is noted", e.ok => (e.noted = e.cost)),
      C("judging a reconfiguration does not change it", e.same)>>
  ELSE <<C("a reconfiguration can be judged: " \o e.what, FALSE)>>
ReconUpd(cfg, s, e) == s
=============================================================================
