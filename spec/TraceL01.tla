------------------------------- MODULE TraceL01 -------------------------------
EXTENDS Lanczos, TraceBase
NoSolver == [ok |-> FALSE]
Reset(r) == [v |-> r.v, d |-> r.d, n |-> Len(r.v), s |-> NoSolver]
Refused(r) == r.x # 0
Single(s, x) == Levels(s.v, s.d, x)
Zeros(x) == \A i \in DOMAIN x : x[i] = Z
\* a start vector in the kernel cannot be told from its own rounding errors
Kernel(lv) == lv = <<0>>
\* Rounding errors grow with every step, and once they prevail a run goes on beyond the
\* levels: then it may give other eigenstates, with reorthogonalisation, and ghosts of
\* the same ones without.
Exact(s, lv) == Len(lv) <= (IF s.s.re = 1 THEN 11 ELSE 7)
IsEigen(v, d, ev, z) == UnitLength(z) /\ LET w == Mirror(v, z)  s == Size2(v) IN \A i \in DOMAIN z : d[i] # ev => CClose(w[i], Z, 20 * s)
OneOk(r, s, lv) ==
  IF Len(r.init) # s.n THEN Refused(r)
  ELSE IF Kernel(lv) THEN TRUE
  ELSE IF s.s.steps >= Len(lv) THEN
    IF ~Exact(s, lv) THEN
      r.k < Len(lv) => /\ r.x = 0
                       /\ s.s.re = 1 => r.E \in Elems(s.d) /\ IsEigen(s.v, s.d, r.E, r.z)
                       /\ r.k = 0 => r.E \in Elems(s.d) /\ r.E <= lv[1]
    ELSE IF r.k >= Len(lv) THEN Refused(r)
    ELSE /\ r.x = 0 /\ r.E = lv[r.k + 1] /\ IsState(s.v, s.d, r.init, lv[r.k + 1], r.z)
         /\ r.steps <= Min2(s.s.steps, s.n)
  \* too few steps: a state of the right mean energy between the extremes
  ELSE IF r.k >= s.s.steps THEN Refused(r)
  ELSE /\ r.x = 0 /\ r.steps <= s.s.steps /\ UnitLength(r.z)
       /\ r.Ef >= 1000000 * lv[1] /\ r.Ef <= 1000000 * lv[Len(lv)]
       /\ Close(Mean(s.v, s.d, r.z), r.Ef, 30000 * (MaxOf(s.d) - MinOf(s.d) + 1))
AllOk(r, s, lv) ==
  IF Len(r.init) # s.n THEN Refused(r)
  ELSE IF Kernel(lv) THEN TRUE
  ELSE IF s.s.steps >= Len(lv) THEN
    IF ~Exact(s, lv) THEN
      r.k <= Len(lv) => /\ r.x = 0 /\ Len(r.E) >= Min2(r.k + 1, Len(lv))
                        /\ s.s.re = 1 => \A q \in 1 .. Min2(Min2(r.k + 1, Len(lv)), r.nz) : r.E[q] \in Elems(s.d) /\ IsEigen(s.v, s.d, r.E[q], r.z[q])
    ELSE IF r.k > Len(lv) THEN Refused(r)
    ELSE LET k == Min2(r.k + 1, Len(lv)) IN
         /\ r.x = 0 /\ Len(r.E) >= k
         /\ \A q \in 1 .. k : r.E[q] = lv[q]
         /\ \A q \in 1 .. Min2(k, r.nz) : IsState(s.v, s.d, r.init, lv[q], r.z[q])
         \* the rest of what is given to it stays as it was
         /\ \A q \in k + 1 .. r.nz : \A i \in DOMAIN r.z[q] : r.z[q][i] = Z
  ELSE IF r.k > s.s.steps THEN Refused(r) ELSE r.x = 0
\* the decomposition: V has orthonormal columns, the first along the start vector, and
\* the tridiagonal matrix is H between them
DecOk(r, s, lv) ==
  IF Len(r.init) # s.n THEN Refused(r)
  ELSE IF Kernel(lv) THEN TRUE
  ELSE
  LET m == Len(r.a)
      ss == Size2(s.v)
      w == [q \in 1 .. m |-> Shrink(Mirror(s.v, r.V[q]), 1)]
      u == [q \in 1 .. m |-> [i \in 1 .. s.n |-> <<w[q][i][1] \div ss, w[q][i][2] \div ss>>]]
      h(p, q) == LET z == FoldLeft(LAMBDA a, i : CAdd(a, CMul(<<s.d[i], 0>>, CMul(CConj(u[p][i]), u[q][i]))), Z, Idx(s.n, LAMBDA i : i)) IN z
      t(p, q) == IF p = q THEN r.a[p] ELSE IF p + 1 = q THEN r.b[q] ELSE IF q + 1 = p THEN r.b[p] ELSE 0
      tol == 10000 * (MaxOf(s.d) - MinOf(s.d) + 2)
  IN /\ r.x = 0 /\ m <= Len(lv) /\ m <= s.s.steps /\ (s.s.tol = 0 /\ s.s.steps >= Len(lv) => m = Len(lv))
     /\ Len(r.V) = m /\ Len(r.b) = m
     /\ \A p, q \in 1 .. m :
          LET z == VDot(r.V[p], r.V[q]) IN
          CClose(z, IF p = q THEN <<1000000, 0>> ELSE Z, 10000)
     /\ \A p, q \in 1 .. m : CClose(h(p, q), <<10 * t(p, q), 0>>, tol)
     /\ \A i, j \in 1 .. s.n : CClose(CMul(r.V[1][i], r.init[j]), CMul(r.V[1][j], r.init[i]), 20)
     /\ \A i \in 1 .. s.n : r.init[i][1] * r.V[1][i][1] >= 0 /\ r.init[i][2] * r.V[1][i][2] >= 0
\* with reorthogonalisation the vectors stay orthonormal however long the run
BasisOk(r, s) == /\ r.x = 0 /\ Len(r.V) = r.m /\ r.m \in 1 .. s.s.steps
                 /\ \A p, q \in 1 .. r.m : p <= q => CClose(VDot(r.V[p], r.V[q]), IF p = q THEN <<1000000, 0>> ELSE Z, 10000)
\* no fewer steps than asked for, unless nothing is left to find
Enough(r, s, lv) == r.x = 0 /\ s.n > 4 /\ Len(r.init) = s.n /\ ~Kernel(lv) => r.steps >= Min2(s.s.min, Min2(Len(lv), s.s.steps))
Judge(r, s) ==
  CASE r.e = "solver" -> IF r.lota = 0 THEN When(Refused(r), s, "an exception")
                         ELSE When(r.x = 0, [s EXCEPT !.s = [ok |-> TRUE, steps |-> Min2(r.steps, s.n), re |-> r.re, min |-> r.min, tol |-> r.tol]], "a solver")
    [] ~s.s.ok -> When(FALSE, s, "not generated")
    [] r.e = "one" -> LET lv == IF Len(r.init) = s.n THEN Levels(s.v, s.d, r.init) ELSE <<>> IN When(OneOk(r, s, lv) /\ Enough(r, s, lv), s, [levels |-> lv, k |-> r.k])
    [] r.e = "all" -> LET lv == IF Len(r.init) = s.n THEN Levels(s.v, s.d, r.init) ELSE <<>> IN When(AllOk(r, s, lv), s, [levels |-> lv, k |-> r.k])
    [] r.e = "basis" -> When(s.s.re = 1 /\ BasisOk(r, s), s, "orthonormal vectors")
    [] r.e = "dec" -> LET lv == IF Len(r.init) = s.n THEN Levels(s.v, s.d, r.init) ELSE <<>> IN When(DecOk(r, s, lv), s, [levels |-> lv])
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
