------------------------------ MODULE Capacity ------------------------------
(* Capacities.  cfg.cap[r]; cfg.pcap[r][pr] process capacities; cfg.hold[r]:  *)
(* number of products the machine may hold (0: not limited, batch machines);  *)
(* state: run[r] = set of <<process, product>>; held[r]; load[c]; on[p] = c   *)
EXTENDS Base

CapacityInit(cfg) == [run |-> Empty, held |-> Empty, load |-> Empty]

CRun(s, r)  == Get(s.run, r, {})
CHeld(s, r) == Get(s.held, r, {})

CapacityClauses(cfg, s, e) ==
  CASE e.e = "work" /\ e.a = "start" ->
       LET R == CRun(s, e.r) \cup {<<e.s, e.p>>} IN
       << C("a resource performs more processes at a time than its capacity", Cardinality(R) <= cfg.cap[e.r]),
          C("a resource performs a process more often at a time than the process's capacity there",
             Cardinality({ x \in R : x[1] = e.s }) <= cfg.pcap[e.r][e.s]) >>
  [] e.e = "take" ->
       << C("a machine holds more products than its capacity",
             cfg.hold[e.r] > 0 => Cardinality(CHeld(s, e.r) \cup {e.p}) <= cfg.hold[e.r]),
          C("a product is held twice", \A r \in DOMAIN s.held : e.p \notin s.held[r]) >>
  [] e.e = "carry" ->
       << C("a carrier carries more loads than its capacity",
             Cardinality(Get(s.load, e.r, {}) \cup {e.p}) <= cfg.cap[e.r]),
          C("a load is carried by two carriers",
             \A c \in DOMAIN s.load : c # e.r => e.p \notin s.load[c]) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>

CapacityUpd(cfg, s, e) ==
  CASE e.e = "work" /\ e.a = "start" -> [s EXCEPT !.run = Put(@, e.r, CRun(s, e.r) \cup {<<e.s, e.p>>})]
    [] e.e = "work" /\ e.a = "end"   -> [s EXCEPT !.run = Put(@, e.r, CRun(s, e.r) \ {<<e.s, e.p>>})]
    [] e.e = "take"  -> [s EXCEPT !.held = Put(@, e.r, CHeld(s, e.r) \cup {e.p})]
    [] e.e = "give"  -> [s EXCEPT !.held = Put(@, e.r, CHeld(s, e.r) \ {e.p})]
    [] e.e = "carry" -> [s EXCEPT !.load = Put(@, e.r, Get(s.load, e.r, {}) \cup {e.p})]
    [] e.e = "drop"  -> [s EXCEPT !.load = [ c \in DOMAIN @ |-> @[c] \ {e.p} ]]
    [] OTHER -> s
=============================================================================
