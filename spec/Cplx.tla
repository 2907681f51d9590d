-------------------------------- MODULE Cplx --------------------------------
(* Exact complex arithmetic on pairs of integers, and matrices over them.  A
   matrix is [r |-> rows, c |-> columns, a |-> rows as sequences].              *)
EXTENDS Lists
Z == <<0, 0>>
ONE == <<1, 0>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CConj(x) == <<x[1], -x[2]>>
CNeg(x) == <<-x[1], -x[2]>>
CNorm2(x) == x[1] * x[1] + x[2] * x[2]
CSum(s) == FoldLeft(CAdd, Z, s)
(* --- matrices ---------------------------------------------------------------- *)
Mat(r, c, F(_, _)) == [r |-> r, c |-> c, a |-> [i \in 1 .. r |-> [j \in 1 .. c |-> F(i, j)]]]
At(m, i, j) == m.a[i][j]
ZeroM(r, c) == Mat(r, c, LAMBDA i, j : Z)
IdM(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN ONE ELSE Z)
MAdd(x, y) == Mat(x.r, x.c, LAMBDA i, j : CAdd(x.a[i][j], y.a[i][j]))
MSub(x, y) == Mat(x.r, x.c, LAMBDA i, j : CSub(x.a[i][j], y.a[i][j]))
MScale(s, x) == Mat(x.r, x.c, LAMBDA i, j : CMul(s, x.a[i][j]))
Dot(r, c, K) == FoldLeft(LAMBDA acc, k : CAdd(acc, CMul(r[k], c[k])), Z, Idx(K, LAMBDA k : k))
MMul(x, y) == Mat(x.r, y.c, LAMBDA i, j :
                FoldLeft(LAMBDA acc, k : CAdd(acc, CMul(x.a[i][k], y.a[k][j])), Z, Idx(x.c, LAMBDA k : k)))
Trans(x) == Mat(x.c, x.r, LAMBDA i, j : x.a[j][i])
ConjM(x) == Mat(x.r, x.c, LAMBDA i, j : CConj(x.a[i][j]))
Dag(x) == Mat(x.c, x.r, LAMBDA i, j : CConj(x.a[j][i]))
MVec(x, v) == [i \in 1 .. x.r |-> FoldLeft(LAMBDA acc, k : CAdd(acc, CMul(x.a[i][k], v[k])), Z, Idx(x.c, LAMBDA k : k))]
VAdd(u, v) == [i \in DOMAIN u |-> CAdd(u[i], v[i])]
VSub(u, v) == [i \in DOMAIN u |-> CSub(u[i], v[i])]
VScale(s, v) == [i \in DOMAIN v |-> CMul(s, v[i])]
VDot(u, v) == FoldLeft(LAMBDA acc, k : CAdd(acc, CMul(CConj(u[k]), v[k])), Z, Idx(Len(u), LAMBDA k : k))
Kron(x, y) == Mat(x.r * y.r, x.c * y.c, LAMBDA i, j :
                CMul(x.a[((i - 1) \div y.r) + 1][((j - 1) \div y.c) + 1],
                     y.a[((i - 1) % y.r) + 1][((j - 1) % y.c) + 1]))
IsHermitian(x) == x.r = x.c /\ \A i \in 1 .. x.r, j \in 1 .. x.c : x.a[i][j] = CConj(x.a[j][i])
IsAntiHermitian(x) == x.r = x.c /\ \A i \in 1 .. x.r, j \in 1 .. x.c : x.a[i][j] = CNeg(CConj(x.a[j][i]))
IsZeroM(x) == \A i \in 1 .. x.r, j \in 1 .. x.c : x.a[i][j] = Z
IsIdM(x) == x.r = x.c /\ \A i \in 1 .. x.r, j \in 1 .. x.c : x.a[i][j] = (IF i = j THEN ONE ELSE Z)
IsDiagM(x) == x.r = x.c /\ \A i \in 1 .. x.r, j \in 1 .. x.c : i = j \/ x.a[i][j] = Z
\* column-major storage with leading dimension
CM(flat, ld, i, j) == flat[i + (j - 1) * ld]
=============================================================================
