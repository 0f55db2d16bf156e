------------------------------- MODULE Config -------------------------------
(* Which configurations are valid, and when a broken one has to be refused.  *)
(*                                                                           *)
(* A configuration c is                                                      *)
(*   ids    entity kind -> IDs                                               *)
(*   refs   references [k, o, f, t]: field f of entity o of kind k names t   *)
(*   pts    occupied points [g, o, p]: entity o of group g at the points p   *)
(*   procs  process -> [kind, cap, of]                                       *)
(*   offer  [r, p]: resource r offers the processes p                        *)
(*   need   [o, p]: product o needs the processes p                          *)
(*   links  [p, a, b]: a link of process p from a to b                       *)
EXTENDS Base

(* What a reference has to name, and is refused for while loading.           *)
LoadSchema == {
  <<"state", "time_model_id", "time_model">>, <<"process", "time_model_id", "time_model">>,
  <<"resource", "process_ids", "process">>, <<"resource", "state_ids", "state">>,
  <<"resource", "input_queues", "queue">>, <<"resource", "output_queues", "queue">>,
  <<"product", "transport_process", "process">>, <<"product", "processes", "process">>,
  <<"sink", "product_type", "product">>, <<"sink", "input_queues", "queue">>,
  <<"source", "product_type", "product">>, <<"source", "time_model_id", "time_model">>, <<"source", "output_queues", "queue">> }
(* References that have to be resolved before the simulation can start.      *)
InitSchema == {
  <<"state", "repair_time_model_id", "time_model">>, <<"state", "battery_time_model_id", "time_model">>,
  <<"process", "loading_time_model_id", "time_model">>, <<"process", "unloading_time_model_id", "time_model">>,
  <<"product", "successors", "process">>, <<"auxiliary", "transport_process", "process">>,
  <<"auxiliary", "relevant_transport_processes", "process">> }
(* References of which nothing is required here.                             *)
OtherSchema == {
  <<"state", "process_id", "process">>, <<"state", "origin_setup", "process">>, <<"state", "target_setup", "process">>,
  <<"process", "reworked_process_ids", "process">>, <<"auxiliary", "storages", "queue">>, <<"product", "auxiliaries", "auxiliary">>,
  <<"process", "process_ids", "process">> }

Broken(c, schema) == { i \in 1..Len(c.refs) :
  \E w \in schema : /\ w[1] = c.refs[i].k /\ w[2] = c.refs[i].f
                    /\ c.refs[i].t \notin SeqSet(c.ids[w[3]]) }
Targets(c, S) == { c.refs[i].t : i \in S }

(* ---- load ---------------------------------------------------------------*)
LoadFaults(c) == Broken(c, LoadSchema)
Loadable(c) == LoadFaults(c) = {}

(* ---- physical validity --------------------------------------------------*)
Group(c, g) == { i \in 1..Len(c.pts) : c.pts[i].g = g }
PointsOf(c, I) == UNION { SeqSet(c.pts[i].p) : i \in I }
(* machines and stores need points of their own; all sources (all sinks) may share theirs *)
Owners(c) == { {i} : i \in Group(c, "machine") \cup Group(c, "store") } \cup { Group(c, "source"), Group(c, "sink") }
Overlap(c) == \E A, B \in Owners(c) : A # B /\ PointsOf(c, A) \cap PointsOf(c, B) # {}

Avail(c) == UNION { SeqSet(c.offer[i].p) : i \in 1..Len(c.offer) }
Need(c) == UNION { SeqSet(c.need[i].p) : i \in 1..Len(c.need) }
Caps(c) == { c.procs[p].cap : p \in { q \in Avail(c) : c.procs[q].kind # "RequiredCapabilityProcesses" } } \ {""}
Lacking(c) == { p \in Need(c) : IF c.procs[p].cap # "" THEN c.procs[p].cap \notin Caps(c) ELSE p \notin Avail(c) }
OffersDemand(c) == \E p \in Avail(c) : c.procs[p].kind = "RequiredCapabilityProcesses"
Nodes(c) == UNION { SeqSet(c.ids[k]) : k \in {"node", "resource", "source", "sink"} }
LinksOk(c) == \A i \in 1..Len(c.links) : {c.links[i].a, c.links[i].b} \subseteq Nodes(c)
Physical(c) == ~Overlap(c) /\ Lacking(c) = {} /\ ~OffersDemand(c) /\ LinksOk(c)

(* ---- nothing is said about these ----------------------------------------*)
Open(c) == \/ Broken(c, OtherSchema) # {}
           \/ \E i \in 1..Len(c.refs) : /\ c.refs[i].k = "source" /\ c.refs[i].f = "product_type"
                                        /\ ~\E j \in 1..Len(c.refs) : c.refs[j].k = "sink" /\ c.refs[j].f = "product_type" /\ c.refs[j].t = c.refs[i].t
           \/ \E k \in DOMAIN c.ids : Cardinality(SeqSet(c.ids[k])) # Len(c.ids[k])
Startable(c) == Broken(c, InitSchema) = {}

ConfigInit(cfg) == 0
Refused(v) == v.err # ""
IsValue(v) == v.err \in {"ValidationError", "ValueError"}
Names(c, v) == LoadFaults(c) = {} \/ SeqSet(v.named) \cap Targets(c, LoadFaults(c)) # {}

ConfigClauses(cfg, s, e) ==
  IF e.e = "cfg" THEN
    IF ~Loadable(e.c) THEN
      <<C("a configuration with a dangling reference is refused when it is read", Refused(e.v.read)),
        C("a configuration with a dangling reference is refused when it is made", Refused(e.v.make)),
        C("the refusal on reading is a validation error", IsValue(e.v.read)),
        C("the refusal on reading names the missing ID", Names(e.c, e.v.read)),
        C("the refusal on making is a validation error", IsValue(e.v.make)),
        C("the refusal on making names the missing ID", Names(e.c, e.v.make))>>
    ELSE
      <<C("a configuration without a dangling reference can be read", ~Refused(e.v.read)),
        C("a configuration without a dangling reference can be made", ~Refused(e.v.make))>>
      \o (IF Refused(e.v.read) THEN <<>> ELSE
        IF ~Physical(e.c) THEN
          <<C("two things at one place are refused", Overlap(e.c) => Refused(e.v.check)),
            C("a process no resource offers is refused", Lacking(e.c) # {} => Refused(e.v.check)),
            C("a resource that offers a mere requirement is refused", OffersDemand(e.c) => Refused(e.v.check)),
            C("a link from or to nowhere is refused", ~LinksOk(e.c) => Refused(e.v.check)),
            C("an invalid configuration is refused with a value error", IsValue(e.v.check)),
            C("an invalid configuration is not simulated", Refused(e.v.init))>>
        ELSE
          <<C("a physically valid configuration passes the check: " \o e.v.check.err, ~Refused(e.v.check)),
            C("an unresolvable reference is refused before the simulation starts", ~Startable(e.c) => Refused(e.v.init)),
            C("a valid configuration can be initialised: " \o e.v.init.err, Startable(e.c) /\ ~Open(e.c) => ~Refused(e.v.init))>>)
  ELSE <<C("the case can be built", FALSE)>>

ConfigUpd(cfg, s, e) == s
=============================================================================
