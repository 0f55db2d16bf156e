-------------------------------- MODULE Base --------------------------------
(* Small vocabulary shared by all components.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

C(name, cond) == [c |-> name, ok |-> cond]
Range(f)      == { f[x] : x \in DOMAIN f }
Get(f, k, d)  == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v)  == (k :> v) @@ f
Del(f, k)     == [ x \in DOMAIN f \ {k} |-> f[x] ]
Has(f, k)     == k \in DOMAIN f
SeqSet(s)     == { s[i] : i \in 1..Len(s) }
Occ(s, x)     == Cardinality({ i \in 1..Len(s) : s[i] = x })
RemoveFirst(s, x) ==
  LET I == { i \in 1..Len(s) : s[i] = x } IN
  IF I = {} THEN s
  ELSE LET k == CHOOSE i \in I : \A j \in I : i <= j
       IN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
None == ""
Empty == << >>      \* the empty function / sequence
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
=============================================================================
