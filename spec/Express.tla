------------------------------- MODULE Express -------------------------------
(* An express production system is a tree of objects: resources, sources and  *)
(* sinks, and whatever they refer to.  Its configuration consists of exactly  *)
(* the objects reachable from these roots, each once, with the same values,   *)
(* and of internal queues: one in front of and one behind every machine, one  *)
(* behind every source and in front of every sink.                            *)
(*                                                                            *)
(* An entity is [k |-> kind, id, v |-> its fields as text, refs |-> IDs];     *)
(* a configuration is [ent, plain (internal queues), own (who has which)].    *)
EXTENDS Base

ExpressInit(cfg) == 0

RECURSIVE Close(_, _)
Close(E, S) ==
  LET N == S \cup UNION { SeqSet(x.refs) : x \in { y \in E : y.id \in S } } IN
  IF N = S THEN S ELSE Close(E, N)
(* The entities reachable from the roots                                      *)
Reached(c, roots) == LET E == SeqSet(c.ent) R == Close(E, SeqSet(roots)) IN { x \in E : x.id \in R }

IdsOf(E) == { x.id : x \in E }
Ent(E, i) == CHOOSE x \in E : x.id = i
Txt(S) == IF S = {} THEN "" ELSE CHOOSE x \in S : TRUE
(* Kinds of entities that are there in both but differ                        *)
Differing(E, F) == { x.k : x \in { y \in E : y.id \in IdsOf(F) /\ Ent(F, y.id) # y } }
Missing(E, F) == { x.k : x \in { y \in E : y.id \notin IdsOf(F) } }

OwnKey(o) == <<o.id, o.side>>
OwnOf(c, k) == CHOOSE o \in SeqSet(c.own) : OwnKey(o) = k
Size(c, q) == (CHOOSE x \in SeqSet(c.plain) : x.id = q).cap

QueuesOk(w, g) ==
  /\ { OwnKey(o) : o \in SeqSet(w.own) } = { OwnKey(o) : o \in SeqSet(g.own) }
  /\ \A o \in SeqSet(w.own) :
       LET p == OwnOf(g, OwnKey(o)) IN
       /\ p.stores = o.stores
       /\ Len(p.plain) = 1
       /\ p.plain[1] \in IdsOf(SeqSet(g.plain))
       /\ Size(g, p.plain[1]) = Size(w, o.plain[1])
QueuesOwn(g) == \A i, j \in 1..Len(g.own) : i # j => SeqSet(g.own[i].plain) \cap SeqSet(g.own[j].plain) = {}
NoIdleQueues(g) == \A i \in 1..Len(g.plain) : \E j \in 1..Len(g.own) : g.plain[i].id \in SeqSet(g.own[j].plain)
Once(s) == \A i, j \in 1..Len(s) : i # j => s[i].id # s[j].id

ExpressClauses(cfg, s, e) ==
  CASE e.e = "convert" ->
         LET W == Reached(e.want, e.roots) G == SeqSet(e.got.ent) IN
         <<C("everything a production system refers to is in its configuration: " \o Txt(Missing(W, G)), IdsOf(W) \subseteq IdsOf(G)),
           C("nothing else is in its configuration: " \o Txt(Missing(G, W)), IdsOf(G) \subseteq IdsOf(W)),
           C("every object has the values it was given: " \o Txt(Differing(W, G)), Differing(W, G) = {}),
           C("nothing is in a configuration twice", Once(e.got.ent) /\ Once(e.got.plain)),
           C("every machine, source and sink has its internal queue and its stores", QueuesOk(e.want, e.got)),
           C("no internal queue is shared", QueuesOwn(e.got)),
           C("no internal queue is idle", NoIdleQueues(e.got))>>
    [] e.e = "early" -> <<C("there are no results before a run", e.ok)>>
    [] e.e = "hash" -> <<C("the configuration has the hash of the one built by hand", e.got = e.want)>>
    [] e.e = "run" ->
         <<C("running a production system is running its configuration with the given seed and time", e.same),
           C("the results are those of the run", e.fin = e.nfin)>>
    [] e.e = "validate" ->
         <<C("an invalid production system is refused", e.what # "fine" => e.res = "refused"),
           C("a valid production system is accepted", e.what = "fine" => e.res = "accepted")>>
    [] OTHER -> <<C("a production system can be converted and run: " \o e.what, FALSE)>>

ExpressUpd(cfg, s, e) == s
=============================================================================
