------------------------------- MODULE TraceL03 -------------------------------
EXTENDS Resolvent, TraceBase
Reset(r) == [v |-> r.v, d |-> r.d, cf |-> <<>>]
\* cs are all of one kind
Mats(r, cs) == r.nm > 0 \/ (cs # <<>> /\ cs[1].mats)
Freqs(r, cs) == IF cs = <<>> THEN <<>> ELSE IF Mats(r, cs) THEN Matsubaras(r.d, r.beta, r.nm) ELSE Reals(r.a, r.b, r.c, r.d)
W(r, cs, z) == IF Mats(r, cs) THEN z[2] ELSE z[1]
\* plotted so many times over: the values add up
PointsOk(r, cs, n, times) ==
  LET zs == Freqs(r, cs)
      want(z) == CMul(<<times, 0>>, CSum([q \in DOMAIN cs |-> Green(cs[q], cs[q].off, cs[q].sgn, z)]))
      tol == 2 + times * SumOf([q \in DOMAIN cs |-> Tol(cs[q])]) IN
  /\ r.x = 0 /\ n
  /\ r.w = [q \in DOMAIN zs |-> W(r, cs, zs[q])]
  /\ Len(r.g) = Len(zs) /\ \A q \in DOMAIN zs : CClose(r.g[q], want(zs[q]), tol)
Want(r, cs) == LET zs == Freqs(r, cs) IN [q \in DOMAIN zs |-> CSum([p \in DOMAIN cs |-> Green(cs[p], cs[p].off, cs[p].sgn, zs[q])])]
Judge(r, s) ==
  CASE r.e = "solver" -> When(r.x = 0, s, "a solver")
    [] r.e = "cf" -> LET c == [mats |-> r.set = 2] @@ Fraction(s.v, s.d, r.init, r.off, r.w, r.sgn) IN
                     When(r.x = 0 /\ (c.kernel \/ r.size = c.levels), [s EXCEPT !.cf = Append(@, c)], c.levels)
    [] r.e = "at" -> LET c == s.cf[r.i + 1]  g == IF Pole(c, r.off, r.sgn, <<r.zr, r.zi>>) THEN Z ELSE Green(c, r.off, r.sgn, <<r.zr, r.zi>>) IN
                     When(c.kernel \/ Pole(c, r.off, r.sgn, <<r.zr, r.zi>>) \/ (r.x = 0 /\ CClose(r.g, g, Tol(c))), s, g)
    [] r.e = "plot" -> LET c == s.cf[r.i + 1] IN When(c.kernel \/ PointsOk(r, <<c>>, TRUE, 1), s, Want(r, <<c>>))
    [] r.e = "coll" -> LET cs == [q \in DOMAIN r.ids |-> s.cf[r.ids[q] + 1]] IN
                       IF cs = <<>> /\ r.file = 1 THEN When(r.x # 0, s, "an exception")
                       ELSE When((\E q \in DOMAIN cs : cs[q].kernel) \/ PointsOk(r, cs, r.n = Len(cs) /\ r.p = 1, r.times), s, Want(r, cs))
    [] r.e = "tri" -> LET n == IF r.nn = 0 THEN Len(r.a) ELSE r.nn IN
                      When(r.x = 0 /\ r.n = Len(r.a) /\ r.m = Tri(r.a, r.b, n) /\ RootsOk(r.a, r.b, n, r.ev), s, Tri(r.a, r.b, n))
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
