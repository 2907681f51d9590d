------------------------------ MODULE TracePrefix ------------------------------
EXTENDS Prefix, TraceBase
Reset(r) == <<>>
Judge(r, s) ==
  CASE r.e = "eval" ->
         IF ~Valid(r.t, r.toks) THEN When(r.x = 1, s, "an exception")
         ELSE LET v == Value(r.t, r.toks)  k == r.den \div v.d IN
              IF r.den % v.d # 0 THEN Assert(FALSE, <<"denominator", r, v>>)
              ELSE When(r.x = 0 /\ r.v = <<v.a * k, v.b * k>>, s, v)
    [] r.e = "lit" -> \* the text of a complex number
         IF ~IsLit("z", r.s) THEN When(r.x = 1, s, "an exception")
         ELSE LET v == Lit("z", r.s)  k == 1000 \div v.d IN When(r.x = 0 /\ r.v = <<v.a * k, v.b * k>>, s, v)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
