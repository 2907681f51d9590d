----------------------------- MODULE TraceCanonical -----------------------------
EXTENDS Canonical, TraceBase
M(n, m) == [n |-> n, m |-> [q \in DOMAIN m |-> Num(m[q][1], m[q][2], 1)]]
Reset(r) == [env |-> <<>>]
\* entries in units of 1/den
Cells(v, den) == [q \in DOMAIN v.m |-> <<v.m[q].a * (den \div v.m[q].d), v.m[q].b * (den \div v.m[q].d)>>]
Fits(v, den) == \A q \in DOMAIN v.m : den % v.m[q].d = 0
Judge(r, s) ==
  CASE r.e = "let" -> When(r.x = 0, [env |-> Append(SelectSeq(s.env, LAMBDA b : b.n # r.name), [n |-> r.name, v |-> M(r.n, r.m)])], "")
    [] r.e = "canon" ->
         LET old == M(r.n, r.m)  y == Evaluate(r.t, r.s, s.env, old) IN
         IF ~y.ok THEN When(r.x = 1, s, "an exception")
         ELSE IF ~Fits(y.v, r.den) THEN Assert(FALSE, <<"denominator", r, y>>)
         ELSE When(r.x = 0 /\ r.rn = y.v.n /\ r.rm = Cells(y.v, r.den) /\ r.some = (IF y.v.n > 0 THEN 1 ELSE 0), s, [n |-> y.v.n, m |-> Cells(y.v, r.den)])
    [] r.e = "pi" -> When(r.x = 0 /\ r.v = 3141593, s, 3141593)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
