------------------------------ MODULE Progress ------------------------------
(* Nothing is left waiting without reason.  Judged at quiescent instants.     *)
(* cfg.cap[r], cfg.batch[r] (0: no batch machine), cfg.pcap[r][pr]            *)
(* cfg.mach, cfg.carr   resources; cfg.outq[m] output queue of machine m      *)
(* cfg.finite           queues and stores with a capacity                     *)
(* cfg.dest[t]          queues a product of type t may have to wait for       *)
(* cfg.need[t]          auxiliary types of a product type                     *)
(* state: open[n] = [r, p, pr, k, g] request n, issued and not yet done       *)
(*        busy[r] = works (production, transport) in progress,                *)
(*                  [<<state, product>> |-> announced end, -1: paused]        *)
(*        setup[r], charge[r]: setup / charging in progress (instances)       *)
(*        down[r]: breakdowns in progress;  live, fin: products               *)
EXTENDS Base

ProgressInit(cfg) == [ open |-> Empty, busy |-> Empty, setup |-> Empty, charge |-> {},
                       down |-> Empty, live |-> {}, fin |-> {}, told |-> {}, ty |-> Empty,
                       made |-> Empty ]           \* steps performed on a product

Slack == 2
GBusy(s, r)  == Get(s.busy, r, Empty)
GSetup(s, r) == Get(s.setup, r, {})
GDown(s, r)  == Get(s.down, r, {})
\* requests of r that are neither done nor waiting
GTaken(s, e, r) == { n \in DOMAIN s.open : s.open[n].r = r /\ n \notin SeqSet(e.w[r]) }
GWorks(s, r, p) == \E k \in DOMAIN GBusy(s, r) : k[2] = p

ProgressClauses(cfg, s, e) ==
  CASE e.e = "snap" ->
       LET M == SeqSet(cfg.mach)
           T == SeqSet(cfg.carr)
           waits(r) == Len(e.w[r])
           openOf(p) == { n \in DOMAIN s.open : s.open[n].p = p }
           fullq == SeqSet(e.full)
           inwork(r) == { k[2] : k \in DOMAIN GBusy(s, r) }
           idle(r) == { n \in GTaken(s, e, r) : s.open[n].p \notin inwork(r) /\ n \notin s.told }
           ended(r) == { n \in GTaken(s, e, r) : s.open[n].p \notin inwork(r) /\ n \in s.told }
           \* a resource with a battery takes no new order until it is recharged; broken down, it waits for the repair first
           charging(r) == r \in s.charge \/ (r \in SeqSet(cfg.batt) /\ GDown(s, r) # {})
           runs(r, pr) == Cardinality({ k \in DOMAIN GBusy(s, r) : k[1] = pr })
       IN
       << C("an order waits although it has been performed",
             \A r \in M \cup T : SeqSet(e.w[r]) \subseteq DOMAIN s.open),
          C("a machine idles although requests wait that it could serve",
             \A r \in M : waits(r) > 0 /\ cfg.batch[r] = 0 /\ ~charging(r) =>
                 Cardinality(GTaken(s, e, r)) >= (IF cfg.setups[r] \/ r \in SeqSet(cfg.batt) THEN 1 ELSE cfg.cap[r])),
          C("a batch machine idles although a full batch waits",
             \A r \in M : waits(r) > 0 /\ cfg.batch[r] > 0 /\ ~charging(r) /\ DOMAIN GBusy(s, r) = {} /\ GSetup(s, r) = {}
                          /\ GTaken(s, e, r) = {} /\ (\A o \in DOMAIN s.open : s.open[o].r # r \/ o \notin s.told) =>
                 \A n \in SeqSet(e.w[r]) \cap DOMAIN s.open :
                     Cardinality({ m \in SeqSet(e.w[r]) : m \in DOMAIN s.open /\ s.open[m].pr = s.open[n].pr /\ s.open[m].ty = s.open[n].ty })
                         < cfg.batch[r]),
          C("a batch machine has room for another batch and a full batch waits",
             \A r \in M : waits(r) > 0 /\ cfg.batch[r] > 0 /\ ~cfg.setups[r] /\ r \notin SeqSet(cfg.batt) /\ GDown(s, r) = {}
                          /\ idle(r) = {} /\ ended(r) = {} /\ Cardinality(DOMAIN GBusy(s, r)) + cfg.batch[r] <= cfg.cap[r] =>
                 \A n \in SeqSet(e.w[r]) \cap DOMAIN s.open :
                     \/ runs(r, s.open[n].pr) + cfg.batch[r] > cfg.pcap[r][s.open[n].pr]
                     \/ Cardinality({ m \in SeqSet(e.w[r]) : m \in DOMAIN s.open /\ s.open[m].pr = s.open[n].pr /\ s.open[m].ty = s.open[n].ty })
                         < cfg.batch[r]),
          C("a transport resource idles although orders wait that it could serve",
             \A r \in T : waits(r) > 0 /\ ~charging(r) =>
                 Cardinality(GTaken(s, e, r)) >= (IF r \in SeqSet(cfg.batt) THEN 1 ELSE cfg.cap[r])),
          C("a machine holds an order that it does not work on",
             \A r \in M : cfg.batch[r] = 0 =>
                 \A n \in idle(r) : \/ GSetup(s, r) # {}
                                    \/ GDown(s, r) # {}
                                    \/ \E k \in DOMAIN GBusy(s, r) : TRUE),
          C("a machine does not start an order although the process is free",
             \A r \in M : cfg.batch[r] = 0 /\ ~cfg.setups[r] =>
                 \A n \in idle(r) : runs(r, s.open[n].pr) >= cfg.pcap[r][s.open[n].pr] \/ GDown(s, r) # {}),
          C("a transport resource holds an order that it does not perform",
             \A r \in T : \A n \in idle(r) : GDown(s, r) # {}),
          C("a finished product stays on its machine although the output queue has room",
             \A r \in M : ended(r) # {} => cfg.outq[r] \in SeqSet(e.outfull)),
          C("a delivered load stays on its carrier",
             \A r \in T : ended(r) = {}),
          C("work is overdue",
             \A r \in DOMAIN s.busy : \A k \in DOMAIN s.busy[r] : s.busy[r][k] >= 0 => s.busy[r][k] + Slack >= e.t),
          C("interrupted work does not go on although nothing is broken down",
             \A r \in DOMAIN s.busy : \A k \in DOMAIN s.busy[r] : s.busy[r][k] < 0 => GDown(s, r) # {}),
          C("a setup is overdue", \A r \in DOMAIN s.setup : \A k \in s.setup[r] : k[2] + Slack >= e.t \/ GDown(s, r) # {} \/ k[3]),
          C("a product in the system is forgotten: it has no order and no place to wait for",
             \A p \in s.live \ s.fin : openOf(p) = {} =>
                 \/ cfg.need[s.ty[p]] # <<>> /\ p \notin SeqSet(e.served)       \* waits for an auxiliary (P14 judges whether one is free)
                 \/ \E x \in DOMAIN e.auxof : e.auxof[x] = p /\ openOf(x) # {}  \* its auxiliary is being brought
                 \/ \E r \in M : cfg.batch[r] > 0 /\ cfg.outq[r] \in SeqSet(e.outfull)  \* the rest of its batch waits for room
                 \/ SeqSet(cfg.dest[s.ty[p]]) \cap fullq # {}),
          C("a product waits although there is room where it has to go",
             \A p \in s.live \ s.fin :
                 LET L == cfg.steps[s.ty[p]]
                     n == Get(s.made, p, 0)
                 IN openOf(p) = {} /\ L # <<>> /\ (cfg.need[s.ty[p]] = <<>> \/ p \in SeqSet(e.served))
                    /\ (\A x \in DOMAIN e.auxof : e.auxof[x] # p \/ openOf(x) = {})
                    /\ ~(\E r \in M : cfg.batch[r] > 0 /\ cfg.outq[r] \in SeqSet(e.outfull)) =>
                    \/ n < Len(L) /\ \A m \in SeqSet(L[n + 1]) : SeqSet(cfg.allin[m]) \cap fullq # {}
                    \/ Has(e.sit, p) /\ cfg.outst[e.sit[p]] # <<>> /\ SeqSet(cfg.outst[e.sit[p]]) \subseteq fullq),
          C("an auxiliary in use is forgotten: it is neither transported nor with its product",
             \A x \in DOMAIN e.auxof : openOf(x) = {} => e.auxof[x] \notin s.fin),
          C("a product in the system is dead", \A p \in s.live \ s.fin : e.alive[p]) >>
  [] e.e = "crash" -> << C("the simulation of a valid configuration crashed", FALSE) >>
  [] OTHER -> <<>>


POpen(s, p) == { n \in DOMAIN s.open : s.open[n].p = p }
PDone(s, p) == [s EXCEPT !.open = [ n \in DOMAIN s.open \ POpen(s, p) |-> s.open[n] ], !.told = @ \ POpen(s, p)]
PReq(e) == [r |-> e.r, p |-> e.p, pr |-> e.pr, k |-> e.k, g |-> e.g, ty |-> e.ty]
PSetBusy(s, r, k, x) == [s EXCEPT !.busy = Put(s.busy, r, Put(GBusy(s, r), k, x))]

ProgressUpd(cfg, s, e) ==
  CASE e.e = "new"  -> [s EXCEPT !.live = @ \cup {e.p}, !.ty = Put(s.ty, e.p, e.ty)]
    [] e.e = "fin"  -> [PDone(s, e.p) EXCEPT !.fin = @ \cup {e.p}]
    [] e.e = "req"  -> LET u == PDone(s, e.p) IN [u EXCEPT !.open = Put(u.open, e.n, PReq(e))]
    [] e.e = "here" -> PDone(s, e.p)                      \* stored where the request wanted it
    [] e.e = "work" ->
         CASE e.a \in {"start", "go"} -> PSetBusy(s, e.r, <<e.s, e.p>>, e.x)
           [] e.a = "pause"           -> PSetBusy(s, e.r, <<e.s, e.p>>, -1)
           [] OTHER -> LET u == [s EXCEPT !.busy = Put(s.busy, e.r, Del(GBusy(s, e.r), <<e.s, e.p>>))]
                           N == { n \in POpen(s, e.p) : s.open[n].r = e.r }
                           v == IF e.r \in SeqSet(cfg.mach) THEN [u EXCEPT !.made = Put(s.made, e.p, Get(s.made, e.p, 0) + 1)] ELSE u
                       IN IF e.last THEN [v EXCEPT !.told = @ \cup N] ELSE v
    [] e.e = "setup" ->
         LET rest == { k \in GSetup(s, e.r) : k[1] # e.s } IN
         CASE e.a \in {"start", "go"} -> [s EXCEPT !.setup = Put(s.setup, e.r, rest \cup {<<e.s, e.x, FALSE>>})]
           [] e.a = "pause"           -> [s EXCEPT !.setup = Put(s.setup, e.r, rest \cup {<<e.s, -1, TRUE>>})]
           [] OTHER                   -> [s EXCEPT !.setup = Put(s.setup, e.r, rest)]
    [] e.e = "charge" ->
         IF e.a = "start" THEN [s EXCEPT !.charge = @ \cup {e.r}]
         ELSE IF e.a = "end" THEN [s EXCEPT !.charge = @ \ {e.r}] ELSE s
    [] e.e = "down" ->
         IF e.a = "start" THEN [s EXCEPT !.down = Put(s.down, e.r, GDown(s, e.r) \cup {e.s})]
         ELSE IF e.a = "end" THEN [s EXCEPT !.down = Put(s.down, e.r, GDown(s, e.r) \ {e.s})] ELSE s
    [] OTHER -> s
=============================================================================
