------------------------------ MODULE TraceD02 ------------------------------
EXTENDS TextIO, TraceBase
\* the tokens that are in the stream and not read yet
Reset(r) == <<>>
V(r) == IF r.k = "v" THEN [k |-> "v", a |-> r.a] ELSE [k |-> "m", r |-> r.rows, c |-> r.cols, a |-> r.a]
Got(g) == IF g.k = "v" THEN [k |-> "v", a |-> g.a] ELSE [k |-> "m", r |-> g.r, c |-> g.c, a |-> g.a]
Judge(r, s) ==
  IF r.e = "get" /\ s = <<>> /\ r.k = "m" THEN
     When(r.x = 0 /\ "refused" \in DOMAIN r /\ r.same = 1, s, "an exception, destination unchanged")
  ELSE IF r.e = "get" /\ s = <<>> THEN When(r.x = 0 /\ r.got.a = <<>>, s, "nothing")
  ELSE IF r.e = "mfile" THEN
     IF r.rows = 0 \/ r.cols = 0 THEN When(r.x = 1, s, "an exception")
     ELSE When(r.x = 0 /\ Got(r.got) = V(r), s, V(r))
  ELSE IF r.e = "sym" /\ Len(Symbols(V(r)).vs) > 25 THEN When(r.x = 1, s, "an exception")
  ELSE IF r.x # 0 THEN When(FALSE, s, "no exception")
  ELSE
  CASE r.e = "put" -> When(r.w = Tokens(r.t, V(r)), s \o r.w, Tokens(r.t, V(r)))
    [] r.e = "putchop" -> LET x == [V(r) EXCEPT !.a = [q \in DOMAIN @ |-> Chop(r.t, r.eps, @[q])]] IN
                          When(r.w = Tokens(r.t, x), s \o r.w, Tokens(r.t, x))
    [] r.e = "feed" -> Ok(s \o r.w)
    [] r.e = "get" -> IF "refused" \in DOMAIN r THEN When(FALSE, s, "no refusal") ELSE
                      LET p == Parse(r.k, r.t, s) IN When(Got(r.got) = p.x, p.rest, p.x)
    [] r.e = "fd" -> When(Got(r.got) = V(r), s, V(r))
    [] r.e = "math" -> When(Flatten(r.w) = Mathematica(r.t, V(r)), s, Mathematica(r.t, V(r)))
    [] r.e = "nonz" -> When(r.w = NonZeroTokens(r.t, V(r)), s, NonZeroTokens(r.t, V(r)))
    [] r.e = "sym" -> When(r.w = SymTokens(r.t, V(r)), s, SymTokens(r.t, V(r)))
    [] r.e = "vprint" -> LET w == [q \in DOMAIN r.a |-> r.name \o <<91>> \o IntText(q - 1) \o <<93, 61>> \o EntryText(r.t, r.a[q])] IN
                         When(r.w = w, s, w)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
