------------------------------ MODULE TraceS03 ------------------------------
EXTENDS Crs, TraceBase
Reset(r) == Const(4, NoMat)
Agree(m, s) == \A k \in DOMAIN s : m[k].r = s[k].r /\ m[k].c = s[k].c /\ Dense(m[k]) = s[k]
Judge(r, s) ==
  LET t == Step(r, s) IN
  IF r.e = "ext1" /\ s[r.a + 1].r # s[r.a + 1].c THEN When(r.x = 1, s, "an exception: the matrix is not square")
  ELSE IF r.x # 0 THEN When(FALSE, s, "no exception")
  ELSE When(Agree(r.m, t), t, t)
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
