-------------------------------- MODULE Geo ---------------------------------
(* Integer plane geometry (coordinates and times are scaled by 1000).         *)
EXTENDS Base

\* ---- geometry ---------------------------------------------------------------
RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN
                          IF m * m <= n THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m)
ISqrt(n) == ISqrtB(n, 0, 46340)
Euclid(a, b) == LET dx == Abs(a[1] - b[1])
                    dy == Abs(a[2] - b[2])
                IN ISqrt(dx * dx + dy * dy)
Manhattan(a, b) == Abs(a[1] - b[1]) + Abs(a[2] - b[2])
Dist(metric, a, b) == IF metric = "manhattan" THEN Manhattan(a, b) ELSE Euclid(a, b)
\* expected duration of a movement of transport process tp
Travel(tp, a, b) == IF tp.model = "dist" THEN (Dist(tp.metric, a, b) * tp.den) \div tp.num + tp.react
                                         ELSE tp.mean
=============================================================================
