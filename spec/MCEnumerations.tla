--------------------------- MODULE MCEnumerations ---------------------------
(* The stepping of an arrangement as a state machine, checked against the
   declarative statement: every distinct arrangement once, in increasing order.
   Every complete walk is also a script for the real Permutations object.      *)
EXTENDS Enumerations, TLC, Json
CONSTANTS MaxVal, MaxLen
VARIABLES orig, cur, seen, done
vars == <<orig, cur, seen, done>>
Init == /\ orig \in UNION {[1 .. n -> 0 .. MaxVal] : n \in 0 .. MaxLen}
        /\ cur = FirstArr(orig) /\ seen = <<cur>> /\ done = FALSE
Next == /\ ~done
        /\ IF HasNext(cur) THEN cur' = NextArr(cur) /\ seen' = Append(seen, cur') /\ UNCHANGED done
           ELSE done' = TRUE /\ UNCHANGED <<cur, seen>> /\ PrintT("@@" \o ToJson(<<orig, Len(seen)>>))
        /\ UNCHANGED orig
Spec == Init /\ [][Next]_vars
Arrangements == {p \in [DOMAIN orig -> Elems(orig)] : SameBag(p, orig)}
Ordered == \A i \in 1 .. Len(seen) - 1 : LexLess(seen[i], seen[i + 1])
Members == \A i \in DOMAIN seen : SameBag(seen[i], orig)
Everything == done => Elems(seen) = Arrangements
StepIsLeast == [][cur' # cur => ~ \E p \in Arrangements : LexLess(cur, p) /\ LexLess(p, cur')]_vars
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
ASSUME \A parts \in 1 .. 4, sum \in 0 .. 5 :
         LET d == Decomps(parts, sum) IN
         /\ Len(d) = Binom(sum + parts - 1, parts - 1)
         /\ \A i \in 1 .. Len(d) - 1 : LexLess(d[i], d[i + 1])
         /\ \A i \in DOMAIN d : Sum(d[i]) = sum /\ Len(d[i]) = parts
ASSUME \A w \in 0 .. 300 : BitCount(<<w>>) = Cardinality({b \in 0 .. 9 : (w \div (2^b)) % 2 = 1})
=============================================================================
