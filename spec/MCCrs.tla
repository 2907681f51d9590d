-------------------------------- MODULE MCCrs --------------------------------
(* For every pair of small matrices: the algorithms on the representation give
   well-formed representations of what dense algebra prescribes, and the dense
   operations satisfy the laws of linear algebra that tie them together.        *)
EXTENDS Crs, TLC, Json
CONSTANTS MaxD, Vals, EmitEvery
VARIABLES a, b, done
vars == <<a, b, done>>
Entries == {CASE x = 0 -> Z [] x = 1 -> <<-1, 0>> [] x = 2 -> <<0, 1>> [] OTHER -> <<x, 0>> : x \in Vals}
Mats(r, c) == {[r |-> r, c |-> c, a |-> m] : m \in [1 .. r -> [1 .. c -> Entries]]}
All == UNION {Mats(r, c) : r \in 1 .. MaxD, c \in 1 .. MaxD}
Init == a \in All /\ b \in All /\ done = FALSE
Flat(m) == FoldLeft(LAMBDA x, y : x \o y, <<>>, m.a)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<a, b>>
        /\ IF a.r + a.c + b.r + b.c <= EmitEvery
           THEN PrintT("@@" \o ToJson([ar |-> a.r, ac |-> a.c, a |-> Flat(a), br |-> b.r, bc |-> b.c, b |-> Flat(b)]))
           ELSE TRUE
Spec == Init /\ [][Next]_vars
CA == FromDense(a)
CB == FromDense(b)
RoundTrip == WF(CA) /\ Dense(CA) = a
MulRight == a.c = b.r => WF(CrsMul(CA, CB)) /\ Dense(CrsMul(CA, CB)) = MMul(a, b)
DagRight == WF(CrsDag(CA)) /\ Dense(CrsDag(CA)) = Dag(a)
PlusRight == LET p == CrsPlus(CA, ONE, CB, <<-1, 0>>) IN WF(p) /\ Dense(p) = Plus(a, ONE, b, <<-1, 0>>)
Laws == /\ a.c = b.r => Dag(MMul(a, b)) = MMul(Dag(b), Dag(a))
        /\ Dag(Dag(a)) = a
        /\ IsHermitian(MMul(a, Dag(a)))
        /\ MNorm2(a) = FoldLeft(LAMBDA acc, i : acc + MMul(a, Dag(a)).a[i][i][1], 0, Idx(a.r, LAMBDA i : i))
        /\ Dag(Kron(a, b)) = Kron(Dag(a), Dag(b))
TensorLaws == (a.r = a.c /\ b.r = b.c) =>
  LET n == a.r * b.r   id == Idx(n, LAMBDA i : i - 1)   rv == Idx(n, LAMBDA i : n - i)
      one(k) == Const(k, 1) IN
  /\ External1(a, b.r, one(b.r), 0, id) = Kron(a, IdM(b.r))
  /\ External2(a, b, one(b.r), 0, id) = Kron(a, b)
  /\ External2(a, b, one(a.r), 1, id) = Kron(b, a)
  /\ MMul(External1(a, b.r, one(b.r), 0, rv), External1(b, a.r, one(a.r), 1, rv)) = External2(a, b, one(b.r), 0, rv)
  /\ Permuted(Permuted(Kron(a, b), rv), rv) = Kron(a, b)
=============================================================================
