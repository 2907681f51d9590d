------------------------------- MODULE TraceR01 -------------------------------
EXTENDS Twister, TraceBase
NoGens == [i \in {} |-> 0]
Reset(r) == [g |-> NoGens, x |-> <<0, 0, 0>>, own |-> NoGens, m |-> NoGens]
Put(f, k, v) == (k :> v) @@ f
XorAll(s) == FoldLeft(XorW, <<0, 0>>, s)
FromSeq(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Judge(r, s) ==
  CASE r.e = "new" -> When(r.x = 0, [s EXCEPT !.g = Put(@, r.id, New(r.s))], "a generator")
    [] r.e = "rank" -> When(r.x = 0, [s EXCEPT !.g = Put(@, r.id, Ranked(r.s, r.rank))], "a generator")
    [] r.e = "seed" -> When(r.x = 0, [s EXCEPT !.g = Put(@, r.id, New(r.s))], "a generator")
    [] r.e = "copy" -> When(r.x = 0, [s EXCEPT !.g = Put(@, r.to, s.g[r.id])], "a generator")
    [] r.e = "draw" -> LET d == Draws(s.g[r.id], r.n) IN
                       When(r.x = 0 /\ r.last = FromSeq(d, Len(r.last)) /\ Len(r.last) = (IF r.n > 6 THEN 6 ELSE r.n) /\ r.all = XorAll(d) /\ r.out = 0,
                            [s EXCEPT !.g = Put(@, r.id, Skip(s.g[r.id], r.n))], [last |-> FromSeq(d, IF r.n > 6 THEN 6 ELSE r.n), all |-> XorAll(d)])
    [] r.e = "n48" -> LET sd == Start48(r.s, r.rank, r.n) IN
                      When(r.x = 0 /\ r.seed = sd, [s EXCEPT !.x = Seed48(W(sd)), !.own = Put(@, r.id, sd)], sd)
    [] r.e = "s48" -> When(r.x = 0 /\ r.seed = r.v, [s EXCEPT !.own = Put(@, r.id, r.v)], r.v)
    [] r.e = "d48" -> LET d == Run48(s.x, r.n) IN When(r.x = 0 /\ r.d = d, [s EXCEPT !.x = Last48(s.x, r.n)], d)
    [] r.e = "newm" -> When(r.x = 0, [s EXCEPT !.m = Put(@, r.id, r.s)], "a generator")
    [] r.e = "drawm" -> LET d == MinStds(s.m[r.id], r.n) IN When(r.x = 0 /\ r.d = d, [s EXCEPT !.m = Put(@, r.id, d[r.n])], d)
    [] r.e = "runid" -> When(r.x = 0 /\ IsRunId(r.id), s, "an identifier that ends in the count of its one bits")
    [] r.e = "bits" -> When(r.x = 0 /\ r.a = Ones(Digits(r.w)) /\ r.b = r.a, s, Ones(Digits(r.w)))
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
