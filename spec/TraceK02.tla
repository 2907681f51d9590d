------------------------------- MODULE TraceK02 -------------------------------
EXTENDS Chebyshev, TraceBase
Reset(r) == [none |-> 0]
Smallest(s) == FoldLeft(LAMBDA a, q : IF q < a THEN q ELSE a, s[1], s)
Largest(s) == FoldLeft(LAMBDA a, q : IF q > a THEN q ELSE a, s[1], s)
Judge(r, s) ==
  CASE r.e = "T" -> LET want == IF r.scale = 2 /\ r.q = 2 /\ Abs(r.p) <= 2 THEN THalf(r.m, r.p) ELSE TPoly(r.m, r.p, r.q) IN
                    When(r.x = 0 /\ r.y = want, s, want)
    [] r.e = "mu" -> LET want == MuUnits(r.v, r.d, r.init, r.a, r.b)  tol == 5 + Size2(r.init) IN
                    When(/\ r.x = 0 /\ Len(r.mu) = 2 * r.steps /\ r.steps > 0 /\ r.size = Len(r.mu)
                         /\ \A n \in DOMAIN r.mu : Close(r.mu[n], want[((n - 1) % 12) + 1], tol)
                         /\ r.lo <= G * Smallest(r.d) + 10 /\ r.hi >= G * Largest(r.d) - 10, s, want)
    [] r.e = "plot" ->
         LET span == IF r.w2 > r.w1 THEN r.w2 - r.w1 ELSE 0
             size == IF r.old = 0 THEN span \div r.dw ELSE r.old
             fill == IF CeilOf(span, r.dw) < size THEN CeilOf(span, r.dw) ELSE size
             at(i) == r.w1 + (i - 1) * r.dw
             want == [i \in 1 .. fill |-> Density(r.mu, r.kind, r.cut, at(i) + r.Eg - r.b, 4 * r.a)] IN
         When(/\ r.x = 0 /\ Len(r.w) = size /\ Len(r.y) = size
              /\ \A i \in 1 .. size : r.w[i] = IF i <= fill THEN at(i) ELSE 396
              /\ \A i \in 1 .. fill : Close(r.y[i], want[i], 3 * Len(r.mu)), s, want)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
