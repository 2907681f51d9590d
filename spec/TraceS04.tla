------------------------------ MODULE TraceS04 ------------------------------
EXTENDS SparseAcc, TraceBase
\* row: pairs of the row being accumulated; out: finalized so far; vec: three vectors
NewVec(n) == [n |-> n, ps |-> <<>>]
Reset(r) == [row |-> <<>>, out |-> <<>>, vec |-> Const(3, NewVec(0)), cached |-> r.kind = 1]
Apply(ps, y) == FoldLeft(LAMBDA a, p : CAdd(a, CMul(p[2], y[p[1] + 1])), Z, ps)
AfterRow(s) == IF s.cached THEN [s EXCEPT !.row = <<>>] ELSE s
Means(r, v) == r.n = v.n /\ DenseV(v.n, Pairs(r.ii, r.vv)) = DenseV(v.n, v.ps)
VJudge(r, s, new) ==   \* new: the value the vector d must have
  LET t == [s EXCEPT !.vec[r.d + 1] = new] IN
  When(r.x = 0 /\ Means(r, new), t, DenseV(new.n, new.ps))
Judge(r, s) ==
  LET V(k) == s.vec[k + 1]  D(k) == DenseV(V(k).n, V(k).ps) IN
  CASE r.e = "add" -> When(r.x = 0, [s EXCEPT !.row = Append(@, <<r.i, r.s>>)], "")
    [] r.e = "fin" ->
         LET o == s.out \o Merged(s.row) IN
         When(r.x = 0 /\ r.n = Len(Merged(s.row)) /\ Pairs(r.ii, r.vv) = o /\ Len(r.vv) = Len(r.ii), [s EXCEPT !.row = <<>>, !.out = o], Merged(s.row))
    [] r.e = "mvp" -> LET w == Apply(s.row, r.y) IN When(r.x = 0 /\ r.res = w, AfterRow(s), w)
    [] r.e = "finy" -> LET w == Apply(s.row, r.y) IN When(r.x = 0 /\ r.res = w, [s EXCEPT !.row = <<>>], w)
    [] r.e = "vfrom" -> VJudge(r, s, [n |-> Len(r.v), ps |-> Idx(Len(r.v), LAMBDA k : <<k - 1, r.v[k]>>)])
    [] r.e = "vnew" -> VJudge(r, s, NewVec(r.len))
    [] r.e = "vresize" -> VJudge(r, s, NewVec(r.len))
    [] r.e = "vclear" -> VJudge(r, s, NewVec(V(r.d).n))
    [] r.e = "vchunk" -> VJudge(r, s, [n |-> r.total, ps |-> Idx(Len(r.v), LAMBDA k : <<k - 1 + r.off, r.v[k]>>)])
    [] r.e = "vadd" -> VJudge(r, s, [V(r.d) EXCEPT !.ps = Append(@, <<r.i, r.s>>)])
    [] r.e = "vcopy" -> VJudge(r, s, V(r.a))
    [] r.e = "vscale" -> VJudge(r, s, [V(r.d) EXCEPT !.ps = Map(@, LAMBDA p : <<p[1], CMul(r.s, p[2])>>)])
    [] r.e = "vscaled" -> VJudge(r, s, [V(r.a) EXCEPT !.ps = Map(@, LAMBDA p : <<p[1], CMul(r.s, p[2])>>)])
    [] r.e = "vsub" -> VJudge(r, s, [V(r.d) EXCEPT !.ps = @ \o Map(V(r.a).ps, LAMBDA p : <<p[1], CNeg(p[2])>>)])
    [] r.e = "vsort" ->
         LET c == Compressed(V(r.d).ps)  new == [V(r.d) EXCEPT !.ps = c] IN
         When(r.x = 0 /\ Pairs(r.ii, r.vv) = c /\ Len(r.ii) = Len(c) /\ r.n = new.n, [s EXCEPT !.vec[r.d + 1] = new], c)
    [] r.e = "veq" -> LET b == IF D(r.a) = D(r.b) THEN 1 ELSE 0 IN When(r.x = 0 /\ r.res = b, s, b)
    [] r.e = "vdot" -> LET w == DotC(D(r.a), D(r.b)) IN When(r.x = 0 /\ r.res = w, s, w)
    [] r.e = "vone" -> LET b == IF Len(Compressed(V(r.a).ps)) <= 1 THEN 1 ELSE 0 IN When(r.x = 0 /\ r.res = b, s, b)
    [] r.e = "vtochunk" ->
         LET ps == V(r.a).ps
             in == FirstIdx(ps) >= r.i0 /\ LastIdx(ps) < r.i0 + r.total IN
         IF r.test = 1 /\ ~in THEN When(r.x = 1, s, "an exception: the chunk does not hold the vector")
         ELSE LET w == Idx(r.total, LAMBDA k : SumAt(ps, r.i0 + k - 1)) IN When(r.x = 0 /\ r.res = w, s, w)
    [] r.e = "vpart" ->
         LET ps == V(r.a).ps   p == PartOf(r.parts, FirstIdx(ps))   q == PartOf(r.parts, LastIdx(ps)) IN
         IF p # q THEN When(r.x = 1, s, "an exception: the vector is in more than one part")
         ELSE LET w == Idx(r.parts[p + 2] - r.parts[p + 1], LAMBDA k : SumAt(ps, r.parts[p + 1] + k - 1)) IN
              When(r.x = 0 /\ r.part = p /\ (r.chunk = 0 \/ r.res = w), s, <<p, w>>)
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
