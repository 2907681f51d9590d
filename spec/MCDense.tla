------------------------------- MODULE MCDense -------------------------------
EXTENDS DenseLA, TLC, Json
CONSTANTS MaxD, Vals, EmitUpTo
VARIABLES a, b, done
vars == <<a, b, done>>
Entries == {CASE x = 0 -> Z [] x = 1 -> <<-1, 0>> [] x = 2 -> <<0, 1>> [] OTHER -> <<x, 0>> : x \in Vals}
Mats(r, c) == {[r |-> r, c |-> c, a |-> m] : m \in [1 .. r -> [1 .. c -> Entries]]}
All == UNION {Mats(r, c) : r \in 1 .. MaxD, c \in 1 .. MaxD}
Init == a \in All /\ b \in All /\ done = FALSE
Flat(m) == FoldLeft(LAMBDA x, y : x \o y, <<>>, m.a)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<a, b>>
        /\ IF a.r + a.c + b.r + b.c <= EmitUpTo
           THEN PrintT("@@" \o ToJson([ar |-> a.r, ac |-> a.c, a |-> Flat(a), br |-> b.r, bc |-> b.c, b |-> Flat(b)]))
           ELSE TRUE
Spec == Init /\ [][Next]_vars
Storage == Load(Store(a)) = a
Elementwise == Shape(a) = Shape(b) => /\ Load(SMap2(Store(a), Store(b), CAdd)) = MAdd(a, b)
                                      /\ Load(SMap2(Store(a), Store(b), CSub)) = MSub(a, b)
Widen == \A c \in 1 .. MaxD + 1 : Load(SResize(Store(a), c, Z)) = Resize(a, a.r, c, Z)
Laws == /\ Trans(Trans(a)) = a /\ Dag(a) = ConjM(Trans(a))
        /\ a.c = b.r => Trans(MMul(a, b)) = MMul(Trans(b), Trans(a))
        /\ a.r = b.r => Dag(MMul(Dag(a), b)) = MMul(Dag(b), a)
        /\ Outer(a, b) = Kron(b, a)
        /\ a.r = 1 /\ b.r = 1 /\ a.c = b.c => /\ DotSecond(a.a[1], b.a[1]) = CConj(DotSecond(b.a[1], a.a[1]))
                                              /\ DotSecond(a.a[1], b.a[1]) = MMul(a, Dag(b)).a[1][1]
        /\ \A i \in 1 .. b.r : b.c = a.r => VecMat(b.a[i], a) = MMul(b, a).a[i]
=============================================================================
