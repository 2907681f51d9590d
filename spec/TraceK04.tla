------------------------------- MODULE TraceK04 -------------------------------
(* gsl: whether the library is there; without it every operation is refused.   *)
EXTENDS Analysis, TraceBase
Reset(r) == [gsl |-> r.gsl, b |-> [a |-> <<>>, m |-> <<>>, c |-> 0, most |-> 0]]
Judge(r, s) ==
  IF s.gsl = 0 THEN When(r.x = 1, s, "refused")
  ELSE CASE r.e = "integ" ->
         LET w == [i \in DOMAIN r.calls |-> Integral(r.kind, r.c, r.s, r.unit, r.calls[i][1], r.calls[i][3])] IN
         When(r.x = 0 /\ r.r = w, s, w)
    [] r.e = "new" -> When(r.x = 0 /\ r.st = UNKNOWN, [s EXCEPT !.b = [a |-> r.a, m |-> r.m, c |-> r.c, most |-> r.most]], "a new minimizer")
    [] r.e = "min" -> When(r.x = 0 /\ Search(s.b, r.how, IF r.off = 0 THEN r.start ELSE <<1000000, r.off>>, r), s, s.b)
    [] r.e = "gamma" ->
         LET w == IF r.a > 0 /\ r.a < 20 /\ r.b = 0 THEN GammaHalf(r.a) ELSE 0 IN
         When(/\ r.x = 0 /\ r.next = <<r.a, r.b>> /\ r.conj = <<1, 0>> /\ r.twice = <<1, 0>>
              /\ r.val = w /\ r.pi = 1, s, <<r.a, r.b, w>>)
    [] r.e = "ci" -> When(r.x = 0 /\ r.d = 0 /\ r.s = 0, s, 0)
    [] r.e = "lp2" ->
         IF r.p # r.q \/ Len(r.y) % 2 = 1 \/ r.p > Len(r.y) \div 2 THEN When(r.x = 1, s, "refused")
         ELSE LET w == Follow(r.y, Poly(Kept(r.h), KeptPairs(r.c)), r.q) IN When(r.x = 0 /\ r.v = w, s, w)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
