-------------------------------- MODULE Lists --------------------------------
(* Small library of sequence operators shared by the specifications.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions
Range0(n) == 0 .. (n - 1)
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
MaxOf(s) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, s[1], s)
MinOf(s) == FoldLeft(LAMBDA a, x : IF x < a THEN x ELSE a, s[1], s)
Elems(s) == {s[i] : i \in DOMAIN s}
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Idx(n, F(_)) == [i \in 1 .. n |-> F(i)]
Const(n, x) == [i \in 1 .. n |-> x]
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
NonDecreasing(s) == \A i \in 1 .. Len(s) - 1 : s[i] <= s[i + 1]
NonIncreasing(s) == \A i \in 1 .. Len(s) - 1 : s[i] >= s[i + 1]
Increasing(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
IsPerm0(p, n) == Len(p) = n /\ Elems(p) = Range0(n)
LexLess(a, b) == \E k \in 1 .. Len(b) :
                   /\ k <= Len(a) + 1
                   /\ \A i \in 1 .. k - 1 : a[i] = b[i]
                   /\ (k = Len(a) + 1 \/ a[k] < b[k])
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Sel(s, P(_)) == SelectSeq(s, P)
=============================================================================
