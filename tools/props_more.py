U = "util/"
p("P20", "Performance indicators are exact functions of the event log",
  "For every finished product the reported throughput time is the time from its creation to its completion; output, throughput and mean throughput time per product type are those of exactly the finished products (with warm-up cut-off: of those created after the cut-off time), the work in process over time is created minus finished products, and the flow ratio shares of production, transport and idle time follow from the logged activities. Tables, KPI objects, dictionaries, lists and a log saved to and read from a file agree.",
  ["configurations", "histories"], "all runs, product types and cut-off methods",
  "Tests compare a few KPI values of one run with wide intervals; that a KPI counts each product once is not settled by that.",
  [U+"post_processing.py", U+"warm_up_post_processing.py", "models/performance_indicators.py"],
  [("throughput", U+"post_processing.py: df_throughput, df_aggregated_output_and_throughput"), ("work in process", U+"post_processing.py: df_WIP"),
   ("warm up", U+"warm_up_post_processing.py")],
  ["PostProcessor tables", "KPI objects"])
p("P21", "The time of every resource is fully and correctly accounted",
  "At every instant of a run a resource is in exactly one of unscheduled downtime (a breakdown is active), charging, setup, productive (a process is running and not interrupted) or standby, in this order of precedence; the reported time and share of each of these states equal the time actually spent in it between time zero and the last event, so that the shares of a resource sum up to 100 %. (Process breakdowns are not accounted by the post processing and are excluded.)",
  ["configurations", "schedules", "histories"], "all runs, with breakdowns, setups, charging and capacities above one",
  "Tests assert two or three percentages within intervals; lost or double counted intervals only shift them.",
  [U+"post_processing.py"],
  [("resource states", U+"post_processing.py: df_resource_states"), ("shares", U+"post_processing.py: df_aggregated_resource_states")],
  ["PostProcessor tables", "KPI objects", "event log"])
A = "adapters/"
M = "models/"
p("P22", "Only valid configurations are accepted and simulated",
  "A configuration in which an entity references an ID that does not exist (a time model of a state, process or source; a process, state or queue of a resource; a process of a product; a product type or queue of a source or sink) is refused with a validation error that names the missing ID, both when it is read from a file and when it is constructed. A configuration in which two machines, stores, or the sources and sinks occupy the same position, in which a process or capability a product requires is offered by no resource, in which a resource offers a mere requirement, or in which a link starts or ends nowhere, is refused by validate_configuration and can not be simulated. Remaining unresolvable references (repair, battery and loading time models, successors of a plan) are refused before the simulation starts. Every other configuration is accepted at every stage; whatever the IDs are and in whatever order the entities are listed, IDs refer to exactly the entity with that ID.",
  ["configurations", "inputs"], "all configurations and single or combined faults of them",
  "Tests load a few valid example files; which of the many possible inconsistencies are recognised, and that none of the valid configurations is refused, is a statement over all configurations.",
  [A+"adapter.py", A+"json_adapter.py", "util/runner.py", "factories/"],
  [("reference checks", A+"adapter.py: check_states .. check_sources"), ("physical checks", A+"adapter.py: validate_configuration"), ("look up by ID", "factories/process_factory.py: get_process")],
  ["exceptions of JsonProductionSystemAdapter.read_data / constructor, validate_configuration, Runner.initialize_simulation"])
p("P23", "Writing and reading a configuration loses nothing",
  "A configuration that is written with write_data and read with read_data, or constructed from the written data, is the same configuration: the same entities of the same classes in the same order with the same values of all fields, the same ID, seed and hash; writing it again gives the same text, writing does not change the configuration, and simulating it gives the same event log as simulating the original.",
  ["configurations"], "all valid configurations, with every kind of entity",
  "Tests read example files but do not compare what was read with what had been written; fields of rarely used classes can be dropped unnoticed.",
  [A+"json_adapter.py", A+"adapter.py", M],
  [("writing", A+"json_adapter.py: write_data"), ("reading", A+"json_adapter.py: read_data"), ("entity classes", M)],
  ["fields of the configuration", "written text", "hash", "event log"])
p("P24", "Equal hashes exactly for equal production systems",
  "The hash of a configuration does not depend on IDs (except those in links and auxiliary types), descriptions, the seed or the order in which entities, states, queues, links or processes (with their capacities) are listed; and two configurations have different hashes when they differ in a time model parameter, in which time model, process, state, queue or product is used where, in a failure rate, capability, capacity, process capacity, location, plan, routing heuristic, link, or in the number of entities of a kind.",
  ["configurations", "pairs of configurations"], "all configurations with list plans, all single functional changes",
  "Tests pin the hash of four examples; equality and inequality of hashes are statements about all pairs of configurations. The optimizer reuses the KPIs of configurations with equal hashes.",
  [A+"adapter.py", M],
  [("configuration hash", A+"adapter.py: hash"), ("entity hashes", M+"*.py: hash")],
  ["JsonProductionSystemAdapter.hash()"])
O = "optimization/"
p("P25", "Moves of the optimizers change a configuration only as permitted",
  "A randomly chosen configuration differs from the baseline only in what the permitted transformations name: machines are built from the options (numbers within the limits, processes from the baseline, positions of their own among the permitted ones), policies and routing heuristics are options, every process has the capacity of its resource, every machine has input and output queues of its own and every resource the standard breakdowns of its kind, if the baseline has any; the rest, and the baseline itself, is unchanged. A mutation is exactly one of the permitted moves (add, remove or move a machine, carrier, process module or auxiliary; change a policy, heuristic or position), each of which does what its name says, or reports failure and changes nothing, and fails only when it is impossible; the other resources and the rest of the configuration remain. A crossover exchanges machines or carriers (all, or some by position) or the heuristic, so that no resource is lost or duplicated. A changed configuration gets an ID of its own.",
  ["configurations", "sequences of moves", "random choices"], "all configurations, sets of permitted transformations and random choices",
  "Tests run short searches and look at the number of results; that no move silently alters or loses other parts of a configuration is a statement over all random choices and sequences of moves.",
  [O+"adapter_manipulation.py", O+"util.py"],
  [("moves", O+"adapter_manipulation.py: add_machine .. mutation"), ("crossover", O+"adapter_manipulation.py: crossover"), ("random configurations", O+"adapter_manipulation.py: random_configuration"),
   ("standard breakdowns", O+"util.py: clean_out_breakdown_states_of_resources, create_default_breakdown_states")],
  ["the configurations before and after a move, its return value"])
p("P26", "Reconfigurations are costed and judged by the given limits",
  "The cost of a configuration relative to a baseline is the number of additional machines, carriers, auxiliaries and process modules times their costs (removal is free and pays nothing back). A configuration is permitted exactly when it has at least one carrier, at most the allowed numbers of machines, carriers and process modules per machine, enough auxiliaries, a resource for every required process, no two things at one place, machines only at permitted positions, and costs at most the allowed reconfiguration cost. Judging a configuration does not change it.",
  ["configurations", "pairs of configurations"], "all baselines, constraints and configurations reached from them or damaged",
  "Tests judge one or two configurations; that exactly the permitted ones are accepted, at and around each limit, is a statement over all configurations.",
  [O+"optimization.py", "adapters/adapter.py"],
  [("cost", O+"optimization.py: get_reconfiguration_cost"), ("limits", O+"optimization.py: check_valid_configuration")],
  ["get_reconfiguration_cost", "check_valid_configuration", "reconfiguration_cost of the configuration"])
p("P28", "Optimizers report the true fitness of what they document",
  "The fitness of a configuration is, per objective, the mean over the seeds 0..n-1 of the indicator in a run of this configuration, or -100000 divided by the signed weight if it is not permitted; objectives to be minimised have negative weights in a maximisation and vice versa; a configuration with the hash of a documented one gets the documented fitness. Every solution a tabu search, simulated annealing or evolutionary search documents can be read, has the documented hash and fitness and the weighted sum as aggregated fitness; searches only visit permitted configurations (offspring of an evolutionary search may be forbidden, with the penalty); a search with the same seed gives the same results. The tabu search always continues from the best neighbour not in the tabu list of bounded length, ends exactly at its limits and returns the best solution it visited; the Pareto filters keep exactly the non-dominated points.",
  ["configurations", "histories", "random choices"], "all configurations, hyperparameters, seeds and score landscapes",
  "Tests only check that a search ends and writes files; whether what it reports is what a simulation of the stored configuration gives is a statement over all histories.",
  [O+"optimization.py", O+"util.py", O+"tabu_search.py", O+"simulated_annealing.py", O+"evolutionary_algorithm.py", O+"optimization_analysis.py"],
  [("fitness", O+"optimization.py: evaluate"), ("weights, documentation", O+"util.py: get_weights, document_individual"), ("tabu search", O+"tabu_search.py: run"), ("Pareto", O+"optimization_analysis.py: is_pareto_efficient")],
  ["return values of evaluate", "optimization_results.json", "generation_*.json"])
p("P27", "Express production systems convert to exactly the configuration they describe",
  "The configuration an express production system is converted to consists of exactly the objects reachable from its resources, sources and sinks (time models, processes, states, nodes, products, auxiliaries, stores), each once and with exactly the values and references it was given, with or without IDs of its own, plus one internal queue of the given size in front of and behind every machine and one behind every source and in front of every sink, owned by nobody else. It has the hash of the configuration built by hand, converting again gives the same, running the system is running that configuration with the given seed and time, results are those of that run and refused before it, and invalid systems are refused by validate.",
  ["configurations"], "all express systems with every kind of object, shared and anonymous objects",
  "Tests convert a few example systems and look at a few KPIs; that no field, reference or object of any class is lost or doubled is a statement over all trees of objects.",
  ["express/"],
  [("conversion", "express/production_system.py: to_model"), ("objects", "express/*.py: to_model"), ("runs", "express/production_system.py: run, validate")],
  ["ProductionSystem.to_model()", "hash", "event log", "validate()"])
S29 = "simulation/"
p("P29", "A shop behaves as its operational model: only durations let time pass",
  "In a shop of sources, machines with finite buffers, stores behind machines, carriers and breakdowns, whose products follow a sequence or a precedence graph of steps, everything happens in an order the operational model allows (arrive, be ordered by one carrier to a machine or store with room or to the sink, fetched, taken, carried, delivered, loaded into a free slot, worked on for the drawn time, interrupted only by breakdowns, put behind the machine when there is room, finished) and at the very instant at which the last of its preconditions becomes true: nothing waits although it could go on, and nothing goes on although it should wait. For small shops the completion times of the products are among those of the behaviours of the model, which in turn never overfills a buffer, a store, a slot or a carrier, works on every product for exactly the time of its steps, and finishes every product unless a circular flow through finite buffers blocks it.",
  ["configurations", "schedules", "histories"], "all shops of this kind (histories); all schedules of the shops drawn from a finite scope (completion times)",
  "A test fixes a throughput or a log of one shop; that no schedule whatsoever lets a product, machine or carrier idle without a reason, or gives a result outside the possible ones, needs the set of all behaviours.",
  [S29+"resources.py", S29+"router.py", S29+"process.py", S29+"sim.py", S29+"source.py", S29+"sink.py", S29+"store.py", S29+"state.py", S29+"control.py", S29+"product.py"],
  [("routing and orders", S29+"router.py"), ("machines and carriers", S29+"control.py: *.start_process"),
   ("work and breakdowns", S29+"state.py: ProductionState, TransportState, BreakDownState"), ("buffers", S29+"store.py")],
  ["event log", "queue contents", "requests", "completion times"])
