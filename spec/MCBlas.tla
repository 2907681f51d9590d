------------------------------- MODULE MCBlas -------------------------------
(* The reference way of computing column by column: y is scaled once, then each
   column is added to it in turn, or, for the other forms, each column gives one
   element.  For every small matrix, form and step the steps end at the definition;
   triangles held in full, packed or in bands are the same matrices.               *)
EXTENDS BlasOps
CONSTANTS Values, Wide
VARIABLES a, x, t, n, inc, j, y, uplo
vars == <<a, x, t, n, inc, j, y, uplo>>
Vals == {<<v, w>> : v \in Values, w \in Wide}
A == Mat(n, n, LAMBDA i, k : a[i + (k - 1) * n])
Init == /\ n \in {1, 2} /\ a \in [1 .. n * n -> Vals] /\ x \in [1 .. n -> Vals]
        /\ t \in {"N", "T", "C"} /\ inc \in {1, -1, 2} /\ uplo \in {"U", "L"}
        /\ j = 0 /\ y = [k \in 1 .. n |-> Z]
Place(k) == IF inc > 0 THEN k ELSE n + 1 - k
Step == /\ j < n /\ j' = j + 1 /\ UNCHANGED <<a, x, t, n, inc, uplo>>
        /\ y' = IF t = "N" THEN [k \in 1 .. n |-> CAdd(y[k], CMul(x[j + 1], A.a[k][j + 1]))]
                ELSE [y EXCEPT ![j + 1] = CSum([k \in 1 .. n |-> CMul(IF t = "C" THEN CConj(A.a[k][j + 1]) ELSE A.a[k][j + 1], x[k])])]
Next == Step
Spec == Init /\ [][Next]_vars
Ends == j = n => y = MVec(Op(t, A), x)
\* a step back and forth is the same vector the other way round
Steps == LET v == [p \in 1 .. n * (IF inc < 0 THEN -inc ELSE inc) |-> IF p <= n THEN x[p] ELSE Z] IN
         /\ (inc = 1 => Vec(n, 1, v) = x) /\ (inc = -1 => \A k \in 1 .. n : Vec(n, -1, v)[k] = x[Place(k)])
         /\ Vec(n, inc, PutVec(n, inc, v, x)) = x
Flat(M) == Idx(n * n, LAMBDA p : M.a[((p - 1) % n) + 1][((p - 1) \div n) + 1])
\* the same triangle in the three storages
Packed(M) == Idx((n * (n + 1)) \div 2, LAMBDA p : LET q == CHOOSE z \in (1 .. n) \X (1 .. n) : In(uplo, z[1], z[2]) /\ PackedPlace(uplo, n, z[1], z[2]) = p IN M.a[q[1]][q[2]])
Band(M) == Idx(n * n, LAMBDA p : LET row == ((p - 1) % n) + 1  c == ((p - 1) \div n) + 1
                                     i == IF uplo = "U" THEN row - n + c ELSE row - 1 + c IN
                                 IF i \in 1 .. n /\ In(uplo, i, c) THEN M.a[i][c] ELSE <<77, 7>>)
Storages == j = 0 =>
  \A h \in BOOLEAN :
    LET f == Symm("full", h, uplo, n, 0, n, Flat(A)) IN
    /\ Symm("packed", h, uplo, n, 0, 1, Packed(A)) = f
    /\ Symm("band", h, uplo, n, n - 1, n, Band(A)) = f
    /\ \A d \in {"U", "N"} : LET g == Tri("full", uplo, d, n, 0, n, Flat(A)) IN
         Tri("packed", uplo, d, n, 0, 1, Packed(A)) = g /\ Tri("band", uplo, d, n, n - 1, n, Band(A)) = g
=============================================================================
