--------------------------------- MODULE Same ---------------------------------
(* When two configurations describe the same production system, regardless of *)
(* IDs, descriptions, the order of lists and the seed; their hashes have to   *)
(* be equal then, and only then.                                              *)
(*                                                                            *)
(* A configuration is a record of functions ID -> entity:                     *)
(*   tm    par                       (texts of its parameters)                *)
(*   proc  [kind, tm, load, unload, par, links, of]                           *)
(*   st    [kind, tm, rep, bat, proc, from, to]                               *)
(*   q     [par]                                                              *)
(*   res   [par, proc, cap, st, q]   cap[i] is the capacity for proc[i]       *)
(*   node  [par]     prod [plan, tp]     snk [par, prod, q]                   *)
(*   src   [par, prod, tm, q]         aux [par, tp, st, n, rp, rt]            *)
EXTENDS Base, SequencesExt

(* Do two sequences contain the same things, R being the sameness?            *)
SameBag(s, t, R(_, _), Rs(_, _)) ==
  /\ Len(s) = Len(t)
  /\ \A i \in 1..Len(s) :
       Cardinality({ j \in 1..Len(s) : Rs(s[i], s[j]) }) = Cardinality({ j \in 1..Len(t) : R(s[i], t[j]) })
SameSeq(s, t, R(_, _)) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : R(s[i], t[i])
Opt(i, j, R(_, _)) == IF i = "" \/ j = "" THEN i = j ELSE R(i, j)

STm(c, d, i, j) == c.tm[i] = d.tm[j]
SProc(c, d, i, j) ==
  LET p == c.proc[i]  q == d.proc[j] IN
  /\ p.kind = q.kind /\ p.par = q.par
  /\ Opt(p.tm, q.tm, LAMBDA x, y : STm(c, d, x, y))
  /\ Opt(p.load, q.load, LAMBDA x, y : STm(c, d, x, y))
  /\ Opt(p.unload, q.unload, LAMBDA x, y : STm(c, d, x, y))
  /\ SeqSet(p.links) = SeqSet(q.links) /\ Len(p.links) = Len(q.links)
SSt(c, d, i, j) ==
  LET p == c.st[i]  q == d.st[j] IN
  /\ p.kind = q.kind
  /\ STm(c, d, p.tm, q.tm)
  /\ Opt(p.rep, q.rep, LAMBDA x, y : STm(c, d, x, y))
  /\ Opt(p.bat, q.bat, LAMBDA x, y : STm(c, d, x, y))
  /\ Opt(p.proc, q.proc, LAMBDA x, y : SProc(c, d, x, y))
  /\ Opt(p.from, q.from, LAMBDA x, y : SProc(c, d, x, y))
  /\ Opt(p.to, q.to, LAMBDA x, y : SProc(c, d, x, y))
SQ(c, d, i, j) == c.q[i] = d.q[j]
BagSt(c, d, s, t) == SameBag(s, t, LAMBDA x, y : SSt(c, d, x, y), LAMBDA x, y : SSt(c, c, x, y))
BagQ(c, d, s, t) == SameBag(s, t, LAMBDA x, y : SQ(c, d, x, y), LAMBDA x, y : SQ(c, c, x, y))
BagProc(c, d, s, t) == SameBag(s, t, LAMBDA x, y : SProc(c, d, x, y), LAMBDA x, y : SProc(c, c, x, y))
Can(r) == [ k \in 1..Len(r.proc) |-> [p |-> r.proc[k], n |-> IF r.cap = <<>> THEN "" ELSE r.cap[k]] ]
SameCan(c, d, x, y) == x.n = y.n /\ SProc(c, d, x.p, y.p)
SRes(c, d, i, j) ==
  LET p == c.res[i]  q == d.res[j] IN
  /\ p.par = q.par
  /\ SameBag(Can(p), Can(q), LAMBDA x, y : SameCan(c, d, x, y), LAMBDA x, y : SameCan(c, c, x, y))
  /\ BagSt(c, d, p.st, q.st)
  /\ BagQ(c, d, p.qi \o p.qo, q.qi \o q.qo)
SProd(c, d, i, j) ==
  LET p == c.prod[i]  q == d.prod[j] IN
  /\ SameSeq(p.plan, q.plan, LAMBDA x, y : SProc(c, d, x, y))
  /\ SProc(c, d, p.tp, q.tp)
SSnk(c, d, i, j) ==
  LET p == c.snk[i]  q == d.snk[j] IN
  p.par = q.par /\ SProd(c, d, p.prod, q.prod) /\ BagQ(c, d, p.q, q.q)
SSrc(c, d, i, j) ==
  LET p == c.src[i]  q == d.src[j] IN
  p.par = q.par /\ SProd(c, d, p.prod, q.prod) /\ STm(c, d, p.tm, q.tm) /\ BagQ(c, d, p.q, q.q)
SAux(c, d, i, j) ==
  LET p == c.aux[i]  q == d.aux[j] IN
  /\ p.par = q.par /\ p.n = q.n /\ SProc(c, d, p.tp, q.tp)
  /\ SameSeq(p.st, q.st, LAMBDA x, y : SQ(c, d, x, y))
  /\ BagProc(c, d, p.rp, q.rp) /\ BagProc(c, d, p.rt, q.rt)

Keys(f) == SetToSeq(DOMAIN f \ {""})
SameSystem(c, d) ==
  /\ SameBag(Keys(c.tm), Keys(d.tm), LAMBDA x, y : STm(c, d, x, y), LAMBDA x, y : STm(c, c, x, y))
  /\ BagProc(c, d, Keys(c.proc), Keys(d.proc))
  /\ BagSt(c, d, Keys(c.st), Keys(d.st))
  /\ BagQ(c, d, Keys(c.q), Keys(d.q))
  /\ SameBag(Keys(c.node), Keys(d.node), LAMBDA x, y : c.node[x] = d.node[y], LAMBDA x, y : c.node[x] = c.node[y])
  /\ SameBag(Keys(c.res), Keys(d.res), LAMBDA x, y : SRes(c, d, x, y), LAMBDA x, y : SRes(c, c, x, y))
  /\ SameBag(Keys(c.prod), Keys(d.prod), LAMBDA x, y : SProd(c, d, x, y), LAMBDA x, y : SProd(c, c, x, y))
  /\ SameBag(Keys(c.snk), Keys(d.snk), LAMBDA x, y : SSnk(c, d, x, y), LAMBDA x, y : SSnk(c, c, x, y))
  /\ SameBag(Keys(c.src), Keys(d.src), LAMBDA x, y : SSrc(c, d, x, y), LAMBDA x, y : SSrc(c, c, x, y))
  /\ SameBag(Keys(c.aux), Keys(d.aux), LAMBDA x, y : SAux(c, d, x, y), LAMBDA x, y : SAux(c, c, x, y))

(* The implementation is known to see the processes of a setup only when they *)
(* are the first process of the configuration (known finding P24-setup): what *)
(* differs in nothing else is judged in the strict case only.                 *)
WeakSt(c, x) == IF "from" \notin DOMAIN x THEN x
                ELSE [x EXCEPT !.from = IF c.first \in {x.from, x.to} THEN c.first ELSE "",
                             !.to = IF x.from = c.first /\ x.to = c.first THEN c.first ELSE ""]
Weak(c) == [c EXCEPT !.st = [ i \in DOMAIN c.st |-> WeakSt(c, c.st[i]) ]]

SameInit(cfg) == 0
SameClauses(cfg, s, e) ==
  IF e.e = "pair" THEN
    LET same == SameSystem(cfg, e.c)
        weak == SameSystem(Weak(cfg), Weak(e.c))
        apart == ~same /\ (e.strict \/ ~weak) IN
    <<C("the same production system has the same hash: " \o e.what, (same /\ (e.strict \/ weak)) => e.hash = cfg.hash),
      C("a different production system has a different hash: " \o e.what, apart => e.hash # cfg.hash)>>
  ELSE <<C("a configuration has a hash", FALSE)>>
SameUpd(cfg, s, e) == s
=============================================================================
