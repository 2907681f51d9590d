------------------------------- MODULE TraceK01 -------------------------------
EXTENDS Bisect, TraceBase
Reset(r) == [none |-> 0]
Refused(r) == r.x = 1
Lo(r) == IF r.a < r.b THEN r.a ELSE r.b
Hi(r) == IF r.a < r.b THEN r.b ELSE r.a
\* the point is a binary fraction of no more places than there are steps
Found(r) == /\ r.c >= Lo(r) * U /\ r.c <= Hi(r) * U /\ 1024 * Abs1(At1(r.f, r.c)) < r.tol * U
Judge(r, s) ==
  CASE r.e = "root" ->
         IF ~Bracket(r.f, r.a, r.b) THEN When(Refused(r), s, "an exception")
         ELSE When(/\ (Enough(r.f, r.a, r.b, r.n, r.tol) => r.x = 0)
                   /\ (r.x = 0 => Found(r) /\ r.evals <= r.n + 3 /\ r.outside = 0)
                   /\ r.x \in {0, 1}, s, <<"a root within", r.tol, "/ 1024, enough steps:", Enough(r.f, r.a, r.b, r.n, r.tol)>>)
    [] r.e = "akima" ->
         IF Len(r.p) # Len(r.s) \/ Len(r.p) < 3 THEN When(Refused(r), s, "an exception")
         ELSE LET k == Len(r.p)
                  want == [q \in 1 .. 4 * (k - 1) |-> Akima(r.p, r.s, ((q - 1) \div 4) + 1, (q - 1) % 4)] \o <<Scale * r.s[k]>> IN
              When(/\ r.x = 0 /\ Len(r.v) = Len(want)
                   /\ \A q \in DOMAIN want : IF ((q - 1) % 4) = 0 THEN r.v[q] = want[q] ELSE Abs1(r.v[q] - want[q]) <= 6
                   /\ r.from = r.p[1] /\ r.to = r.p[k] /\ r.below = 1 /\ r.above = 1, s, want)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
