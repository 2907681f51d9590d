------------------------------- MODULE BlasOps -------------------------------
(* The operations of the BLAS interface on raw storage: column-major with a leading
   dimension, triangles, packed and banded; vectors with a positive or negative step.
   An operation gives its output array as a whole: what it does not name stays.      *)
EXTENDS Cplx
\* --- storage ---------------------------------------------------------------------
VPlace(n, inc, k) == IF inc > 0 THEN 1 + (k - 1) * inc ELSE 1 + (k - n) * inc
Vec(n, inc, a) == [k \in 1 .. n |-> a[VPlace(n, inc, k)]]
PutVec(n, inc, a, v) == [p \in DOMAIN a |-> LET q == {k \in 1 .. n : VPlace(n, inc, k) = p} IN IF q = {} THEN a[p] ELSE v[CHOOSE k \in q : TRUE]]
Gen(m, n, ld, a) == Mat(m, n, LAMBDA i, j : CM(a, ld, i, j))
PutGen(m, n, ld, a, M, Keep(_, _)) ==
  [p \in DOMAIN a |-> LET i == ((p - 1) % ld) + 1  j == ((p - 1) \div ld) + 1 IN
                      IF i <= m /\ j <= n /\ Keep(i, j) THEN M.a[i][j] ELSE a[p]]
In(uplo, i, j) == IF uplo = "U" THEN i <= j ELSE i >= j
PackedPlace(uplo, n, i, j) == IF uplo = "U" THEN i + (j * (j - 1)) \div 2 ELSE i + ((2 * n - j) * (j - 1)) \div 2
PutPacked(uplo, n, a, M) ==
  [p \in DOMAIN a |-> LET q == {<<i, j>> \in (1 .. n) \X (1 .. n) : In(uplo, i, j) /\ PackedPlace(uplo, n, i, j) = p} IN
                      IF q = {} THEN a[p] ELSE LET x == CHOOSE y \in q : TRUE IN M.a[x[1]][x[2]]]
\* one element of the stored triangle: full, packed, banded
Elem(st, uplo, n, k, ld, a, i, j) ==
  CASE st = "full" -> CM(a, ld, i, j)
    [] st = "packed" -> a[PackedPlace(uplo, n, i, j)]
    [] st = "band" -> IF (IF i > j THEN i - j ELSE j - i) > k THEN Z
                      ELSE IF uplo = "U" THEN CM(a, ld, k + 1 + i - j, j) ELSE CM(a, ld, 1 + i - j, j)
Symm(st, herm, uplo, n, k, ld, a) ==
  Mat(n, n, LAMBDA i, j : IF In(uplo, i, j) THEN Elem(st, uplo, n, k, ld, a, i, j)
                          ELSE LET x == Elem(st, uplo, n, k, ld, a, j, i) IN IF herm THEN CConj(x) ELSE x)
Tri(st, uplo, diag, n, k, ld, a) ==
  Mat(n, n, LAMBDA i, j : IF i = j /\ diag = "U" THEN ONE ELSE IF In(uplo, i, j) THEN Elem(st, uplo, n, k, ld, a, i, j) ELSE Z)
GenBand(m, n, kl, ku, ld, a) == Mat(m, n, LAMBDA i, j : IF i - j > kl \/ j - i > ku THEN Z ELSE CM(a, ld, ku + 1 + i - j, j))
Op(t, M) == CASE t = "N" -> M [] t = "T" -> Trans(M) [] t = "C" -> Dag(M)
Col(v) == Mat(Len(v), 1, LAMBDA i, j : v[i])
Row(v) == Mat(1, Len(v), LAMBDA i, j : v[j])
ConjV(v) == [k \in DOMAIN v |-> CConj(v[k])]
AxPlusBy(al, M, be, C) == MAdd(MScale(al, M), MScale(be, C))
All(i, j) == TRUE
\* --- operations: r has f, side, uplo, trans, transb, diag, m, n, k, ku, lda, ldb, ldc, al, be, A, B, C
Herm(f) == f \in {"HEMV", "HBMV", "HPMV", "HEMM", "HER", "HPR", "HER2", "HPR2", "HERK", "HER2K"}
Storage(f) == IF f \in {"HPMV", "SPMV", "TPMV", "TPSV", "HPR", "HPR2", "SPR", "SPR2"} THEN "packed"
              ELSE IF f \in {"HBMV", "SBMV", "TBMV", "TBSV"} THEN "band" ELSE "full"
\* the triangle of A: of order n, or of the side it stands on
Order(r) == IF r.f \in {"SYMM", "HEMM", "TRMM", "TRSM"} /\ r.side = "L" THEN r.m ELSE r.n
SymA(r) == Symm(Storage(r.f), Herm(r.f), r.uplo, Order(r), r.k, r.lda, r.A)
TriA(r) == Tri(Storage(r.f), r.uplo, r.diag, Order(r), r.k, r.lda, r.A)
X(r, n) == Vec(n, r.ldb, r.B)
Y(r, n) == Vec(n, r.ldc, r.C)
NewY(r, n, M, nx) == PutVec(n, r.ldc, r.C, VAdd(VScale(r.al, MVec(M, X(r, nx))), VScale(r.be, Y(r, n))))
\* what is added to a symmetric matrix by vectors, or by matrices
One1(r) == LET x == X(r, r.n) IN MScale(r.al, MMul(Col(x), Row(IF Herm(r.f) THEN ConjV(x) ELSE x)))
Two2(r) == LET x == X(r, r.n)  y == Y(r, r.n) IN
           IF Herm(r.f) THEN MAdd(MScale(r.al, MMul(Col(x), Row(ConjV(y)))), MScale(CConj(r.al), MMul(Col(y), Row(ConjV(x)))))
           ELSE MAdd(MScale(r.al, MMul(Col(x), Row(y))), MScale(r.al, MMul(Col(y), Row(x))))
Side(r, ld, a) == IF r.trans = "N" THEN Gen(r.n, r.k, ld, a)
                  ELSE LET M == Gen(r.k, r.n, ld, a) IN IF Herm(r.f) THEN Dag(M) ELSE Trans(M)
Turned(r, M) == IF Herm(r.f) THEN Dag(M) ELSE Trans(M)
RankK(r) == LET M == Side(r, r.lda, r.A) IN MScale(r.al, MMul(M, Turned(r, M)))
Rank2K(r) == LET M == Side(r, r.lda, r.A)  N == Side(r, r.ldb, r.B) IN
             MAdd(MScale(r.al, MMul(M, Turned(r, N))), MScale(IF Herm(r.f) THEN CConj(r.al) ELSE r.al, MMul(N, Turned(r, M))))
UpdateC(r, M) == LET C == Symm("full", Herm(r.f), r.uplo, r.n, 0, r.ldc, r.C) IN
                 PutGen(r.n, r.n, r.ldc, r.C, TLCEval(MAdd(M, MScale(r.be, C))), LAMBDA i, j : In(r.uplo, i, j))
UpdateA(r, M) == LET A == SymA(r)  N == TLCEval(MAdd(M, A)) IN
                 IF Storage(r.f) = "packed" THEN PutPacked(r.uplo, r.n, r.A, N)
                 ELSE PutGen(r.n, r.n, r.lda, r.A, N, LAMBDA i, j : In(r.uplo, i, j))
Sided(r, M, N) == IF r.side = "L" THEN MMul(M, N) ELSE MMul(N, M)
\* the output array; the solutions of triangular systems are judged by what they solve
Result(r) ==
  CASE r.f = "AXPY" -> PutVec(r.n, r.ldc, r.C, VAdd(VScale(r.al, X(r, r.n)), Y(r, r.n)))
    [] r.f = "COPY" -> PutVec(r.n, r.ldc, r.C, X(r, r.n))
    [] r.f = "SCAL" -> PutVec(r.n, r.ldc, r.C, VScale(r.al, Y(r, r.n)))
    [] r.f = "DOT" -> <<FoldLeft(CAdd, Z, [k \in 1 .. r.n |-> CMul(X(r, r.n)[k], Y(r, r.n)[k])])>>
    [] r.f = "GEMV" -> LET M == Op(r.trans, Gen(r.m, r.n, r.lda, r.A)) IN NewY(r, M.r, M, M.c)
    [] r.f = "GBMV" -> LET M == Op(r.trans, GenBand(r.m, r.n, r.k, r.ku, r.lda, r.A)) IN NewY(r, M.r, M, M.c)
    [] r.f \in {"HEMV", "HBMV", "HPMV", "SYMV", "SBMV", "SPMV"} -> NewY(r, r.n, SymA(r), r.n)
    [] r.f \in {"TRMV", "TBMV", "TPMV"} -> PutVec(r.n, r.ldb, r.B, MVec(Op(r.trans, TriA(r)), X(r, r.n)))
    [] r.f \in {"GER", "GERU", "GERC"} ->
         LET y == Y(r, r.n) IN
         PutGen(r.m, r.n, r.lda, r.A, TLCEval(MAdd(Gen(r.m, r.n, r.lda, r.A), MScale(r.al, MMul(Col(X(r, r.m)), Row(IF r.f = "GERC" THEN ConjV(y) ELSE y))))), All)
    [] r.f \in {"HER", "HPR", "SYR", "SPR"} -> UpdateA(r, One1(r))
    [] r.f \in {"HER2", "HPR2", "SYR2", "SPR2"} -> UpdateA(r, Two2(r))
    [] r.f = "GEMM" ->
         LET M == MMul(Op(r.trans, IF r.trans = "N" THEN Gen(r.m, r.k, r.lda, r.A) ELSE Gen(r.k, r.m, r.lda, r.A)),
                       Op(r.transb, IF r.transb = "N" THEN Gen(r.k, r.n, r.ldb, r.B) ELSE Gen(r.n, r.k, r.ldb, r.B))) IN
         PutGen(r.m, r.n, r.ldc, r.C, TLCEval(AxPlusBy(r.al, M, r.be, Gen(r.m, r.n, r.ldc, r.C))), All)
    [] r.f \in {"SYMM", "HEMM"} ->
         PutGen(r.m, r.n, r.ldc, r.C, TLCEval(AxPlusBy(r.al, Sided(r, SymA(r), Gen(r.m, r.n, r.ldb, r.B)), r.be, Gen(r.m, r.n, r.ldc, r.C))), All)
    [] r.f \in {"SYRK", "HERK"} -> UpdateC(r, RankK(r))
    [] r.f \in {"SYR2K", "HER2K"} -> UpdateC(r, Rank2K(r))
    [] r.f = "TRMM" -> PutGen(r.m, r.n, r.ldb, r.B, TLCEval(MScale(r.al, Sided(r, Op(r.trans, TriA(r)), Gen(r.m, r.n, r.ldb, r.B)))), All)
Solves == {"TRSV", "TBSV", "TPSV", "TRSM"}
\* res is the array afterwards
Solved(r, res) ==
  IF r.f = "TRSM" THEN /\ Sided(r, Op(r.trans, TriA(r)), Gen(r.m, r.n, r.ldb, res)) = MScale(r.al, Gen(r.m, r.n, r.ldb, r.B))
                       /\ PutGen(r.m, r.n, r.ldb, res, Gen(r.m, r.n, r.ldb, r.B), All) = r.B
  ELSE /\ MVec(Op(r.trans, TriA(r)), X([r EXCEPT !.B = res], r.n)) = X(r, r.n)
       /\ PutVec(r.n, r.ldb, res, X(r, r.n)) = r.B
=============================================================================
