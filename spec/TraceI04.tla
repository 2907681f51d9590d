------------------------------- MODULE TraceI04 -------------------------------
EXTENDS LabelFile, TraceBase
\* w: the words of the file, p: where the reader is; lost: it met something else than
\* the kind of value it was to read, where it stands then is not specified
Reset(r) == [w |-> <<>>, p |-> 0, lost |-> FALSE]
Lost(s) == Ok([s EXCEPT !.lost = TRUE])
Blank(c) == c \in {32, 9, 10, 13}
RECURSIVE Words(_)
Words(t) ==
  IF t = <<>> THEN <<>>
  ELSE IF Blank(t[1]) THEN Words(Tail(t))
  ELSE LET e == {q \in DOMAIN t : Blank(t[q])}
           n == IF e = {} THEN Len(t) ELSE (CHOOSE q \in e : \A u \in e : q <= u) - 1 IN
       <<SubSeq(t, 1, n)>> \o Words(SubSeq(t, n + 1, Len(t)))
V(r) == IF r.k = "m" THEN [k |-> "m", r |-> r.rows, c |-> r.cols, a |-> r.a] ELSE [k |-> "v", a |-> r.a]
Add(r, s, ws) == When(r.x = 0, [s EXCEPT !.w = @ \o ws], "no exception")
Judge(r, s) ==
  CASE r.e = "file" -> When(r.x = 0, [s EXCEPT !.w = Words(r.text)], "")
    [] r.e = "oopen" -> When(r.x = 0, IF r.how = 2 THEN s ELSE [s EXCEPT !.w = <<>>], "opens")
    [] r.e = "oclose" -> When(r.x = 0, s, "no exception")
    [] r.e = "wsc" -> Add(r, s, ScalarWords(r.label, r.t, r.v))
    [] r.e = "wv" -> Add(r, s, ValueWords(r.label, r.t, V(r)))
    [] r.e = "line" -> Add(r, s, Words(r.s))
    [] r.e \in {"iopen", "reopen"} -> When(r.x = 0, [Back(s) EXCEPT !.lost = FALSE], "no exception")
    [] s.lost -> Ok(s)
    [] r.e = "rewind" -> When(r.x = 0, Back(s), "no exception")
    [] r.e = "rl" /\ Found(s.w, s.p, r.s, r.level) /\ ~Fits(r.t, After(s.w[Spot(s.w, s.p, r.s, r.level)], r.s)) -> Lost(s)
    [] r.e = "rv" /\ Found(s.w, s.p, r.s, r.level)
       /\ ~FitsValue(IF r.k = "m" THEN "m" ELSE "v", r.t, SubSeq(s.w, Spot(s.w, s.p, r.s, r.level) + 1, Len(s.w))) -> Lost(s)
    [] r.e = "rl" -> LET y == ReadScalar(s, r.s, r.level, r.t) IN
                     IF ~y.ok THEN When(r.x = 1, y.f, "an exception")
                     ELSE When(r.x = 0 /\ r.got = y.v /\ r.n = y.n, y.f, [got |-> y.v, n |-> y.n])
    [] r.e = "rv" -> LET y == ReadValue(s, r.s, r.level, r.k, r.t) IN
                     IF ~y.ok THEN When(r.x = 1, y.f, "an exception")
                     ELSE When(r.x = 0 /\ r.got = y.v, y.f, y.v)
    [] r.e = "adv" -> LET y == Advance(s, r.s, r.level) IN
                      IF ~y.ok THEN When(r.x = 1, y.f, "an exception")
                      ELSE When(r.x = 0 /\ r.w = y.w /\ r.n = y.n, y.f, [w |-> y.w, n |-> y.n])
    [] r.e = "count" -> LET n == Len(Occ(s.w, s.p, r.s)) IN When(r.x = 0 /\ r.n = n, Back(s), n)
    [] r.e = "rest" -> LET w == SubSeq(s.w, s.p + 1, Len(s.w)) IN
                       When(r.x = 0 /\ r.w = w, [s EXCEPT !.p = Len(s.w)], w)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
