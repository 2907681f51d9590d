-------------------------------- MODULE Gemm --------------------------------
(* C := alpha op(A) op(B) + beta C on column-major storage with leading
   dimensions, and its tiled parallel design: every element of C belongs to
   exactly one tile, a tile is one task.                                       *)
EXTENDS Cplx
IsN(t) == t \in {78, 110}
IsT(t) == t \in {84, 116}
OpEl(t, flat, ld, i, k) == IF IsN(t) THEN CM(flat, ld, i, k)
                           ELSE IF IsT(t) THEN CM(flat, ld, k, i) ELSE CConj(CM(flat, ld, k, i))
ProdEl(g, i, j) == FoldLeft(LAMBDA acc, k : CAdd(acc, CMul(OpEl(g.ta, g.a, g.lda, i, k), OpEl(g.tb, g.b, g.ldb, k, j))),
                            Z, Idx(g.k, LAMBDA k : k))
NewEl(g, i, j) == CAdd(CMul(g.alpha, ProdEl(g, i, j)), CMul(g.beta, CM(g.c, g.ldc, i, j)))
\* the whole storage after the operation; what lies between the columns stays
Result(g) == [p \in DOMAIN g.c |->
                LET i == ((p - 1) % g.ldc) + 1  j == ((p - 1) \div g.ldc) + 1 IN
                IF i <= g.m /\ j <= g.n THEN NewEl(g, i, j) ELSE g.c[p]]
(* --- tiling -------------------------------------------------------------------- *)
CD(a, b) == (a + b - 1) \div b
Tiles(m, nb) == CD(m, nb)
TileSize(m, nb) == CD(m, Tiles(m, nb))
TileRange(m, nb, b) == LET s == b * TileSize(m, nb) + 1 IN s .. Min2(m, s + TileSize(m, nb) - 1)
Tile(m, n, nb, ij) == LET ib == ij % Tiles(m, nb)  jb == ij \div Tiles(m, nb) IN
                      {<<i, j>> : i \in TileRange(m, nb, ib), j \in TileRange(n, nb, jb)}
=============================================================================
