TECH_DEFAULT = "TLA+ component specification; TLC validates traces recorded from the real simulator against it"
TECH = {"P22": "TLA+ predicate of valid configurations; TLC decides for every generated configuration whether the verdict of the real code is the right one",
 "P23": "TLA+ round trip relation, decided by TLC on what the real code wrote and read", "P24": "TLA+ equivalence of configurations; TLC compares it with equality of the hashes the real code computes",
 "P25": "TLA+ specification of the moves (relation between configuration before and after); TLC decides whether each move the real code made is one of the specified steps",
 "P26": "TLA+ definition of cost and permission; TLC decides whether the verdict of the real code is the specified one",
 "P27": "TLA+ definition of the configuration of a tree of objects (reachability from the roots); TLC compares it with the conversion the real code made",
 "P28": "TLA+ specification of fitness, documentation, tabu search and Pareto dominance; TLC validates recorded histories of the real optimizers",
 "P29": "operational TLA+ model of the shop: TLC explores all behaviours of small shops (invariants, possible outcomes; the real simulator's outcome must be one of them) and validates recorded histories action by action",
 "P18": "self-composition in TLA+: TLC compares every recorded run with the reference run of the same configuration"}
LEVEL_DEFAULT = ("Every recorded trace of the generated configurations is decided completely by TLC against the TLA+ component; "
                 "assurance is bounded by the configurations explored (seeded), and trusts TLC and the external recorder.")
LEVEL = {}
NA = {}
