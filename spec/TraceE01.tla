------------------------------ MODULE TraceE01 ------------------------------
EXTENDS Enumerations, TraceBase
Reset(r) == [cur |-> <<>>]
Judge(r, s) ==
  CASE r.e = "sort" ->
         When(r.x = 0 /\ IsSortOf(r.v, r.n, r.y, r.p), s, "sorted with positions")
    [] r.e = "perm" -> Same(r, "r", FirstArr(r.v), [cur |-> FirstArr(r.v)])
    [] r.e = "inc" ->
         LET ok == HasNext(s.cur)
             n == IF ok THEN NextArr(s.cur) ELSE s.cur
         IN When(r.x = 0 /\ r.b = (IF ok THEN 1 ELSE 0) /\ r.r = n, [cur |-> n], <<ok, n>>)
    [] r.e = "sum" -> LET d == Decomps(r.parts, r.total) IN
         When(r.x = 0 /\ r.r = d /\ r.size = Len(d), s, d)
    [] r.e = "sumsel" -> LET d == Decomps(r.parts, r.total)
                             want == IF r.idx = -1 THEN <<>> ELSE IF r.idx < Len(d) THEN <<d[r.idx + 1]>> ELSE <<>> IN
         When(r.x = 0 /\ r.size = Len(d) /\ r.r = want, s, <<Len(d), want>>)
    [] r.e = "unpack" -> When(r.x = 0 /\ r.r = <<r.ind % r.n, r.ind \div r.n>>, s, <<r.ind % r.n, r.ind \div r.n>>)
    [] r.e = "pack" -> Same(r, "r", r.perm[r.a + r.n * r.b + 1], s)
    [] r.e = "bits" -> When(r.x = 0 /\ r.c = BitCount(r.w) /\ r.k = BitCount(r.w), s, BitCount(r.w))
    [] r.e = "log2" -> Same(r, "r", BitLen(r.w), s)
    [] r.e = "idiv" -> IF r.a % r.b = 0 THEN Same(r, "r", r.a \div r.b, s) ELSE When(r.x # 0, s, "an error")
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
