"""Writes properties.jsonl (kept as a script so the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["prodsys/" + f for f in files],
                     state=[dict(name=n, meaning=m, where="prodsys/" + w) for n, m, w in state],
                     mechanism=[dict(name=n, where="prodsys/" + w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=None)))
S = "simulation/"
p("P01", "Material flow conservation",
  "Every product enters exactly once through a source of its type, is at every quiescent instant in exactly one place (one queue, one machine or one carrier) which is also the place it reports, and moves only source -> carrier -> input queue -> machine -> output queue -> carrier -> ... -> sink. A product is counted as finished exactly once, at a sink of its own product type, and from then on is no longer in the system; no product is lost, duplicated, or finished elsewhere.",
  ["configurations", "schedules", "histories"], "all valid configurations (stores, finite queues, batches, auxiliaries, breakdowns) and every event interleaving of a run, at every instant",
  "Tests run a handful of fixed configurations to a horizon and compare a few end-of-run KPIs; they never look at where products are in between.",
  [S+"product.py", S+"source.py", S+"sink.py", S+"store.py", S+"control.py", "factories/product_factory.py"],
  [("request/transport/production loop of a product", S+"product.py: Product.process_product"), ("retrieval and placing of products", S+"control.py: *.start_process"), ("registration of finished products", "factories/product_factory.py: register_finished_product")],
  ["queue contents", "event log", "product_factory.products / finished_products"],
  [("current_locatable", "where the product reports to be", S+"product.py"), ("items", "queue contents", S+"store.py")])
p("P02", "Products execute exactly their process plan",
  "Each product undergoes exactly the production processes of its plan: a sequence in the given order, a precedence graph in some order compatible with all its edges, each step exactly once, one at a time. A step is executed on a resource offering that process, a required capability by any process providing the capability; a product reaches its sink only after all steps are done.",
  ["configurations", "schedules", "histories"], "all product plans (sequences with repeats, precedence graphs as adjacency or edge lists, capability requirements), all schedules",
  "Tests check the number of finished products, not which processes each product saw or in what order.",
  [S+"proces_models.py", S+"product.py", S+"router.py", S+"process.py", "factories/product_factory.py"],
  [("marking of the process model", S+"proces_models.py"), ("choice of next process", S+"product.py: set_next_production_process"), ("matching of requests", S+"process.py: matches_request")],
  ["event log (Production rows)", "queue contents"])
p("P03", "Rework after failed processes",
  "A process with failure rate 0 never causes rework and one with failure rate 1 always does; every failure is reworked exactly once, by a process declared to rework the failed one. Blocking rework is performed before any further plan step, non-blocking rework only after the whole plan; no product reaches its sink with rework pending.",
  ["configurations", "schedules", "histories"], "all assignments of failure rates and blocking/non-blocking rework processes, all failure histories",
  "One test runs a single rework configuration and checks throughput; which failure is reworked when is never looked at.",
  [S+"product.py", S+"control.py", S+"router.py", S+"process.py"],
  [("failure draw", S+"control.py: handle_rework_required"), ("pending rework bookkeeping", S+"product.py: add_needed_rework, register_rework, set_next_production_process")],
  ["event log (Production rows)"])
p("P04", "Buffers never overflow and reservations are exact",
  "A queue or store with a capacity never holds more products than that, and products are only sent to an input queue or store while the products in it plus those on the way leave room. A queue refuses products exactly when contents plus announced deliveries reach its capacity (no leaked or lost reservations), so an arriving product is always placed at once; a finished product stays on its machine until the output queue has room.",
  ["configurations", "schedules", "histories"], "all queue/store capacities and all interleavings of routing, transport, processing and storage",
  "Tests with finite queues only assert that runs finish; a leaked reservation or a transient overflow is invisible in end-of-run KPIs.",
  [S+"store.py", S+"router.py", S+"resources.py", S+"control.py"],
  [("reservation counter", S+"store.py: reserve/unreserve/put"), ("reservation on routing", S+"router.py: get_routed_production_request, route_product_to_storage"), ("correction for output queues", S+"resources.py: adjust_pending_put_of_output_queues")],
  ["Queue.items", "Queue.full", "requests for transport"])
p("P05", "Resource and process capacities",
  "A resource never performs more processes at the same time than its capacity, nor more of one process than that process's capacity on the resource, and never holds more products than its capacity outside batch operation. A transport resource of capacity one carries at most one load, and a load is carried by at most one transport resource.",
  ["configurations", "schedules"], "all capacities and process capacities, all schedules including setups and breakdowns",
  "Overlapping work is invisible in throughput; tests never compare concurrent work with capacities.",
  [S+"resources.py", S+"control.py", "factories/resource_factory.py"],
  [("free capacity", S+"resources.py: full, capacity_current_setup"), ("parallel production states", "factories/resource_factory.py: register_production_states"), ("reserved requests", S+"control.py: control_loop")],
  ["event log", "queue contents"])
p("P06", "Resource breakdowns suspend and resume work exactly",
  "While a resource is broken down none of its production, transport or setup work advances or starts; work in progress is suspended when the breakdown starts and continues when the last overlapping breakdown has been repaired, and in total each piece of work is active for exactly the duration announced when it began. A breakdown lasts exactly its drawn repair time, and a resource is never stopped without a breakdown.",
  ["fault_sequences", "schedules", "configurations"], "all breakdown/repair schedules of machines and carriers, including breakdowns that overlap each other, process breakdowns, setups and waiting for output space, and events at the same instant",
  "Tests use one breakdown model each and check aggregate KPIs with tolerance; coinciding and overlapping interruptions are not reached.",
  [S+"state.py", S+"resources.py"],
  [("interruption of states", S+"resources.py: interrupt_states, activate"), ("remaining time", S+"state.py: process_state, update_done_in")],
  ["event log"], [("done_in", "remaining work", S+"state.py"), ("active", "resource is up", S+"resources.py")])
p("P07", "Process breakdowns stop exactly the affected process",
  "While a process breakdown is active on a resource, runs of that process (and setups) on that resource make no progress and none starts, while other processes of the resource and all other resources are unaffected. Affected work resumes when its process is repaired (and the resource is up) with exactly its remaining duration, and process breakdowns of different processes may overlap freely.",
  ["fault_sequences", "schedules", "configurations"], "all schedules of process breakdowns on one or several processes, together with resource breakdowns and setups",
  "One test uses a single process breakdown; several broken processes, overlap with machine breakdowns and coinciding events are never reached.",
  [S+"state.py", "factories/resource_factory.py"],
  [("process breakdown", S+"state.py: ProcessBreakDownState.process_state"), ("association with production states", "factories/resource_factory.py: register_production_states_for_processes / adjust_process_breakdown_states")],
  ["event log"])
p("P08", "Setups between different processes",
  "A resource starts a process only when it is set up for it, or no setup from the currently set-up process to it is defined. Setups change the setup from exactly the current one to the required one, never run while the resource is processing, never overlap on a resource, and happen only when needed.",
  ["configurations", "schedules"], "all setup matrices, capacities and arrival orders",
  "One test counts setups in one configuration.",
  [S+"resources.py", S+"state.py"],
  [("choice and reservation of the setup", S+"resources.py: setup, reserve_setup"), ("waiting for running processes", S+"state.py: SetupState.process_state")],
  ["event log", "Resource.current_setup"])
p("P09", "Transports pick up, carry and deliver at the right places",
  "For every transport order the carrier first travels empty to the origin (only if it is elsewhere), takes the load there only once it has arrived, then travels loaded from the origin to the target and delivers it there; orders are not interleaved on a carrier. The position and the logged origin/target of each movement connect without jumps: each movement starts where the previous one ended, a load is fetched at the output position and delivered at the input position of a place (a carrier that already stands at the place takes the load without moving).",
  ["configurations", "schedules", "histories"], "all layouts, carrier fleets and transport sequences, with and without link networks, separate input/output positions, stores and auxiliaries",
  "Tests look at throughput only; a carrier that teleports or takes a load without fetching it changes it only slightly.",
  [S+"control.py", S+"request.py", S+"route_finder.py"],
  [("transport sequence", S+"control.py: TransportController.start_process, run_transport, run_process, update_location")],
  ["event log (Transport rows)", "queue contents", "TransportResource.get_location"])
p("P10", "Transport durations and routes follow the layout",
  "A movement's duration is the metric distance between its end points divided by the speed, plus the reaction time, plus the loading time on the first and the unloading time on the last movement of a loaded transport. On a link network transports only use declared links, and the route taken is a shortest one.",
  ["configurations", "inputs"], "all layouts, metrics, speeds, reaction/handling times and link networks",
  "Tests use a few coordinates; shortest-path choice and handling of first/last legs depend on the topology.",
  [S+"time_model.py", S+"state.py", S+"route_finder.py", S+"request.py", "factories/link_transport_process_updater.py"],
  [("distance time model", S+"time_model.py: DistanceTimeModel"), ("handling times", S+"state.py: TransportState.process_state"), ("route search", S+"route_finder.py")],
  ["event log (Transport rows)"])
p("P11", "Control policies decide which request is served next",
  "Whenever a resource with several waiting requests becomes available it starts the one its control policy prescribes: first come first served, last come first served, shortest expected process or transport time, or nearest pick-up with the configured tie-break on target queues. A batch machine starts the group its policy prescribes.",
  ["configurations", "schedules", "histories"], "all arrival orders, process times and layouts, at every dispatch decision",
  "Tests never compare the served request with the waiting ones.",
  [S+"control.py", "factories/resource_factory.py"],
  [("policies", S+"control.py: *_control_policy"), ("dispatch", S+"control.py: control_loop/start_process")],
  ["waiting requests at quiescent instants", "requests issued", "event log"])
p("P12", "Routing heuristics choose an eligible resource",
  "A product is only routed to a resource that offers its next process, is reachable by a transport, and has room in its input queues; among the eligible ones the configured heuristic decides (first defined, shortest queue, or random), and a product waits only while no eligible resource exists.",
  ["configurations", "schedules", "histories"], "all machine/process assignments and queue states at every routing decision",
  "Tests only observe aggregated throughput.",
  [S+"router.py", S+"process.py", "factories/source_factory.py"],
  [("candidates", S+"router.py: get_possible_production_requests, get_reachable_production_requests"), ("heuristics", S+"router.py: *_routing_heuristic")],
  ["requests issued", "queue contents at quiescent instants"])
p("P13", "Batch machines process full, homogeneous batches",
  "A batch machine starts only when a full batch is available, its products start together, run equally long, end together, are of the same product type and undergo the same process; the number of products in a batch equals the batch size and never exceeds it (a machine of twice the capacity may run two batches at a time).",
  ["configurations", "schedules"], "all batch sizes, capacities and arrival patterns",
  "One batch configuration is tested via KPIs.",
  [S+"control.py"],
  [("batch building", S+"control.py: BatchController")],
  ["event log (Production rows)", "queue contents"])
p("P14", "Auxiliaries accompany exactly one product at a time",
  "An auxiliary serves at most one product at a time, a product needing one starts production only after its auxiliary has been brought to it, and after the product is finished the auxiliary is brought back to its storage and becomes available again. The number of auxiliaries is constant.",
  ["configurations", "schedules", "histories"], "all numbers of auxiliaries, storages and products competing for them",
  "One auxiliary configuration is tested via KPIs.",
  [S+"auxiliary.py", S+"router.py", S+"product.py", "factories/auxiliary_factory.py"],
  [("reservation", S+"router.py: get_auxiliary"), ("release", S+"auxiliary.py: release_auxiliary_from_product")],
  ["auxiliary state at quiescent instants", "event log"])
p("P15", "Charging when, and only when, the battery is used up",
  "A resource with a battery charges before it starts another process once its use since the last charging has reached 90 % of the battery time, never earlier, performs no work while charging, and starts with a full battery afterwards; a charging takes exactly its charging time. An order under way is finished first, with all its movements, and so is what runs at the same time on a resource with several places.",
  ["configurations", "schedules"], "all battery and charging times of machines and carriers",
  "Charging is tested in one configuration through KPIs.",
  [S+"state.py", S+"resources.py", S+"control.py"],
  [("battery use", S+"state.py: ChargingState"), ("charging in the control loop", S+"control.py: control_loop")],
  ["event log"])
p("P16", "Work is never left waiting without reason",
  "A valid configuration simulates without internal errors, and at every quiescent instant no resource idles with a request it could serve, and every product in the system is being worked on, requested, waiting for room at all its possible destinations, or waiting for a busy auxiliary or an incomplete batch; a product with room where it has to go and a full batch with a free machine do not wait. Hence without circular buffer blocking every product eventually reaches its sink.",
  ["configurations", "schedules", "fault_sequences"], "all configurations and schedules, at every quiescent instant",
  "A stalled machine or a lost wake-up in a rare interleaving only lowers throughput; tests cannot tell.",
  [S+"control.py", S+"router.py", S+"product.py", S+"resources.py"],
  [("control loops", S+"control.py"), ("wake-up on state changes", S+"store.py: state_change, " + S + "router.py")],
  ["quiescent snapshots"])
p("P17", "The event log is a faithful, well-formed history",
  "Log times never decrease; per resource, state and product the rows alternate start / interrupt start / interrupt end / end in a well-formed way, each production or transport start names the expected end at which the state then ends unless interrupted, and the log table returned to the user contains exactly the recorded events in order.",
  ["configurations", "schedules", "histories"], "all runs",
  "Tests read KPIs computed from the log but not the log itself.",
  [S+"logger.py", S+"state.py", S+"observer.py"],
  [("pre/post hooks on log methods", S+"logger.py, util/"), ("rows", S+"state.py: StateInfo.log_*")],
  ["event log", "Runner.get_event_data_of_simulation"])
p("P18", "Runs are reproducible and isolated",
  "Simulating the same configuration with the same seed gives the same event log, whatever was simulated or drawn before in the process, in every process (no dependence on the hash seed), also when the same configuration object is simulated again, and a longer run extends a shorter one. Runs in several parts and with other seeds give the same log when nothing in the configuration is random. A run leaves the caller's random state and the configuration as they were.",
  ["configurations", "histories"], "all configurations, seeds and preceding activity",
  "Tests compare one run with stored numbers but not two runs with different histories.",
  [S+"sim.py", "runner.py", "util/runner_util.py"],
  [("temporary seeding", "simulation/sim.py: temp_seed, runner.py")],
  ["event logs of repeated runs"])
p("P19", "Arrivals and durations follow the configured time models",
  "Sources create products exactly at the times their time model prescribes (schedules absolute or relative, cyclic or not, constant or sampled gaps) and stop when a finite schedule is exhausted; each production, setup, repair and handling duration is a value its time model can produce.",
  ["configurations", "inputs"], "all time models and parameters",
  "Tests sample a few models at few points.",
  [S+"time_model.py", S+"source.py", "models/time_model_data.py"],
  [("schedules", S+"time_model.py: ScheduledTimeModel"), ("samples", S+"time_model.py: SampleTimeModel, FunctionTimeModel")],
  ["event log"])
json.dump  # noqa
for mod in ("props_more",):
    fn = os.path.join(os.path.dirname(os.path.abspath(__file__)), mod + ".py")
    if os.path.exists(fn):
        exec(open(fn).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
