------------------------------- MODULE TraceK03 -------------------------------
EXTENDS Numerics, TraceBase
Reset(r) == [none |-> 0]
Mx(a) == [r |-> Len(a), c |-> Len(a), a |-> a]
Judge(r, s) ==
  CASE r.e = "rk" ->
         \* n values, at t0, t0 + h ...; every one exact, in units of 1/(24 b^4)
         LET m == Mx(r.m)
             w == [i \in 1 .. r.n |-> Exact(m, r.c, r.y0, r.t0, r.b, i - 1)] IN
         When(r.x = 0 /\ r.ys = w, s, w)
    [] r.e = "rkstep" ->
         LET m == Mx(r.m)  u == 24 * Pow(r.b, 4)
             w == [i \in 1 .. r.n |-> VScale(R(Pow(u, r.n - i)), Steps(m, r.b, r.y0, i - 1))] IN
         When(r.x = 0 /\ r.ys = w, s, w)
    [] r.e = "lp" ->
         IF LpRefused(Len(r.y), r.p) \/ (r.two # <<>> /\ (LpRefused(Len(r.two), r.p2) \/ r.p2 > Len(r.y))) THEN When(r.x = 1, s, "refused")
         ELSE LET fit == IF r.two = <<>> THEN r.y ELSE r.two
                  d == Reduced(LpD(fit, Len(fit) \div 2, IF r.two = <<>> THEN r.p ELSE r.p2))
                  k == Len(r.y)
                  ok == /\ Len(r.v) = k + r.q
                        /\ \A i \in 1 .. k : r.v[i] = G * r.y[i]
                        /\ (d[1] = 0 \/ \A i \in k + 1 .. k + r.q : LpSmall(d, r.v, i) => LpFits(d, r.v, i)) IN
              IF d[1] = 0 THEN When(r.x \in {0, 1}, s, "anything") ELSE When(r.x = 0 /\ ok, s, d)
    [] r.e = "fermi" ->
         LET f == Fermi(r.k) IN
         When(/\ r.x = 0
              /\ Close(r.f, f, 1) /\ Close(r.lf, f, IF Abs(r.k) < 29 THEN 1 + f \div 2 ^ 28 ELSE 3)
              /\ Close(r.pr, -MinusPrime(r.k), 1)
              /\ (r.k \in 14 .. 72 => Close(r.lg, 1000 * r.k, 1))
              /\ (r.k > 14 => Close(r.ll, -1000 * r.k, 1)), s, <<f, MinusPrime(r.k)>>)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
