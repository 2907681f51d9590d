------------------------------- MODULE MCGemm -------------------------------
(* The tiled design: workers take the tiles of their block one by one and update
   one element at a time, in any interleaving.  Every element is updated exactly
   once for every m, n, block size and number of threads in the bounds.         *)
EXTENDS Gemm, TLC
CONSTANTS MaxM, MaxN, MaxNb, MaxT
VARIABLES m, n, nb, t, todo, left, count
vars == <<m, n, nb, t, todo, left, count>>
NT == Tiles(m, nb) * Tiles(n, nb)
Block(th) == LET c == CD(NT, t) IN SelectSeq(Idx(c, LAMBDA p : th * c + p - 1), LAMBDA x : x < NT)
Init == /\ m \in 1 .. MaxM /\ n \in 1 .. MaxN /\ nb \in 1 .. MaxNb /\ t \in 1 .. MaxT
        /\ todo = [th \in Range0(t) |-> Block(th)]
        /\ left = [th \in Range0(t) |-> {}]
        /\ count = [e \in (1 .. m) \X (1 .. n) |-> 0]
Take(th) == /\ left[th] = {} /\ todo[th] # <<>>
            /\ left' = [left EXCEPT ![th] = Tile(m, n, nb, Head(todo[th]))]
            /\ todo' = [todo EXCEPT ![th] = Tail(@)]
            /\ UNCHANGED <<m, n, nb, t, count>>
Do(th) == /\ left[th] # {}
          /\ count' = [e \in DOMAIN count |-> IF e \in left[th] THEN count[e] + 1 ELSE count[e]]
          /\ left' = [left EXCEPT ![th] = {}]
          /\ UNCHANGED <<m, n, nb, t, todo>>
Next == \E th \in Range0(t) : Take(th) \/ Do(th)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AtMostOnce == \A e \in DOMAIN count : count[e] <= 1
Finished == \A th \in Range0(t) : todo[th] = <<>> /\ left[th] = {}
ExactlyOnce == Finished => \A e \in DOMAIN count : count[e] = 1
NoTwoTiles == \A a, b \in Range0(t) : a # b => left[a] \cap left[b] = {}
NoEmptyTile == \A ij \in Range0(NT) : Tile(m, n, nb, ij) # {}
Ends == <>Finished
=============================================================================
