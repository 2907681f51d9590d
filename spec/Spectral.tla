------------------------------ MODULE Spectral ------------------------------
(* Dense decompositions of matrices of (Gaussian) integers: eigenvalues and
   eigenvectors, exponentials, inverses and singular values.  What is irrational comes
   as whole multiples of 1/F, and must fulfil the defining equations to that precision. *)
EXTENDS Lanczos
F == 1000
RECURSIVE Det(_)
Minor(m, i, j) == Mat(m.r - 1, m.c - 1, LAMBDA p, q : m.a[IF p < i THEN p ELSE p + 1][IF q < j THEN q ELSE q + 1])
Signed(k, z) == IF (k % 2) = 0 THEN z ELSE CNeg(z)
Det(m) == IF m.r = 0 THEN ONE ELSE CSum(Idx(m.r, LAMBDA i : CMul(m.a[i][1], Signed(i + 1, Det(Minor(m, i, 1))))))
Adj(m) == Mat(m.r, m.c, LAMBDA i, j : Signed(i + j, Det(Minor(m, j, i))))
RECURSIVE Power(_, _)
Power(m, k) == IF k = 0 THEN IdM(m.r) ELSE MMul(m, Power(m, k - 1))
\* M f(D) M
Function(v, d, f(_)) ==
  LET n == Len(v)  s == Size2(v)
      mm == Mat(n, n, LAMBDA i, j : CSub(IF i = j THEN <<s, 0>> ELSE Z, CMul(<<2, 0>>, CMul(v[i], CConj(v[j]))))) IN
  MMul(mm, Mat(n, n, LAMBDA i, j : CMul(f(d[i]), mm.a[i][j])))
H(v, d) == Function(v, d, LAMBDA x : <<x, 0>>)
\* 2^x times 8
TwoTo(x) == <<2 ^ (x + 3), 0>>
ITo(x) == CASE (x % 4) = 0 -> ONE [] (x % 4) = 1 -> <<0, 1>> [] (x % 4) = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
InsertSorted(s, e) == LET k == Cardinality({i \in DOMAIN s : s[i] <= e}) IN SubSeq(s, 1, k) \o <<e>> \o SubSeq(s, k + 1, Len(s))
Sorted(s) == FoldLeft(InsertSorted, <<>>, s)
Col(m, j) == [i \in 1 .. m.r |-> m.a[i][j]]
\* columns of unit length, orthogonal to each other
Orthonormal(m) == \A p, q \in 1 .. m.c : CClose(VDot(Col(m, p), Col(m, q)), IF p = q THEN <<F * F, 0>> ELSE Z, F * (m.r + 2))
\* the columns of z are eigenvectors of M D M, the q-th of eigenvalue e[q]
EigenBasis(v, d, z, e) ==
  LET s == Size2(v) IN
  /\ z.r = Len(v) /\ z.c = Len(v) /\ Orthonormal(z)
  /\ \A q \in 1 .. z.c : LET w == Mirror(v, Col(z, q)) IN \A i \in DOMAIN v : d[i] # e[q] => CClose(w[i], Z, 4 * s)
\* A = U S V
MNear(x, y, tol) == x.r = y.r /\ x.c = y.c /\ \A i \in 1 .. x.r, j \in 1 .. x.c : CClose(x.a[i][j], y.a[i][j], tol)
Thin(m, r, c) == Mat(r, c, LAMBDA i, j : m.a[i][j])
IsSvd(A, job, U, S, V) ==
  LET k == Min2(A.r, A.c) IN
  /\ Len(S) = k /\ U.r = A.r /\ V.c = A.c
  /\ U.c = (IF job = "A" THEN A.r ELSE k) /\ V.r = (IF job = "A" THEN A.c ELSE k)
  /\ \A i \in 1 .. k : S[i] >= 0 /\ (i > 1 => S[i] <= S[i - 1])
  /\ Orthonormal(U) /\ Orthonormal(Dag(V))
  /\ LET us == Mat(A.r, k, LAMBDA i, j : LET z == U.a[i][j] IN <<(z[1] * S[j]) \div F, (z[2] * S[j]) \div F>>)
         root == CHOOSE q \in 1 .. k + 1 : q * q >= k /\ (q = 1 \/ (q - 1) * (q - 1) < k)
         tol == (root + 1) * (S[1] + F) IN
     MNear(MMul(us, Thin(V, k, A.c)), MScale(<<F * F, 0>>, A), tol)
\* X is the inverse of A, in units of 1/F^2
IsInverse(A, X) ==
  LET dt == Det(A)  ad == Adj(A)  n2 == CNorm2(dt) IN
  /\ X.r = A.r /\ X.c = A.c
  /\ \A i, j \in 1 .. A.r :
       LET w == CMul(ad.a[i][j], CConj(dt)) IN
       CClose(X.a[i][j], <<(2 * F * w[1] + n2) \div (2 * n2), (2 * F * w[2] + n2) \div (2 * n2)>>, 1)
\* the same where B is an inverse of A: there is only one
IsInverseBy(A, B, X) ==
  /\ MMul(A, B) = IdM(A.r)
  /\ X.r = A.r /\ X.c = A.c /\ MNear(X, MScale(<<F, 0>>, B), 1)
\* there is nothing to pivot on in some column however one counts
PlainlySingular(A) ==
  \/ \E i \in 1 .. A.r : \A j \in 1 .. A.c : A.a[i][j] = Z
  \/ \E j \in 1 .. A.c : \A i \in 1 .. A.r : A.a[i][j] = Z
  \/ (\A i \in 1 .. A.r, j \in 1 .. A.c : i > j => A.a[i][j] = Z) /\ \E i \in 1 .. A.r : A.a[i][i] = Z
(* --- eigenvalues of any matrix: w, and right and left vectors --------------------- *)
Shr(z) == <<z[1] \div F, z[2] \div F>>
RightOk(A, w, x, tol) == \A i \in 1 .. A.r : CClose(CSum(Idx(A.r, LAMBDA j : CMul(A.a[i][j], x[j]))), Shr(CMul(w, x[i])), tol)
Unit(x, tol) == Close(Size2(x), F * F, tol)
\* the elementary symmetric functions of the eigenvalues are those of the matrix
Sym1(w) == CSum(w)
Sym2(w) == CSum([i \in DOMAIN w |-> CSum([j \in DOMAIN w |-> IF i < j THEN Shr(CMul(w[i], w[j])) ELSE Z])])
Prod(w) == FoldLeft(LAMBDA a, z : Shr(CMul(a, z)), <<F, 0>>, w)
Trace(A) == CSum(Idx(A.r, LAMBDA i : A.a[i][i]))
Minors2(A) == CSum([i \in 1 .. A.r |-> CSum([j \in 1 .. A.r |->
   IF i < j THEN CSub(CMul(A.a[i][i], A.a[j][j]), CMul(A.a[i][j], A.a[j][i])) ELSE Z])])
Times(k, z) == <<k * z[1], k * z[2]>>
IsSpectrum(A, w, tol) ==
  /\ Len(w) = A.r
  /\ CClose(Sym1(w), Times(F, Trace(A)), A.r + 1)
  /\ CClose(Sym2(w), Times(F, Minors2(A)), tol)
  /\ (A.r <= 3 => CClose(Prod(w), Times(F, Det(A)), tol))
\* the leading part of a Hermitian tridiagonal matrix: what it is built from says b next to the diagonal
Tridiagonal(a, b, n) == Mat(n, n, LAMBDA i, j : IF i = j THEN a[i] ELSE IF j = i + 1 THEN b[j] ELSE IF i = j + 1 THEN CConj(b[i]) ELSE Z)
=============================================================================
