---------------------------- MODULE Enumerations ----------------------------
(* Sorting, stepping through arrangements, decomposing sums, packing indices,
   counting bits.                                                             *)
EXTENDS Lists
(* --- sorting ------------------------------------------------------------ *)
\* y and the positions p (0-based) are an answer to sorting the first n entries of x
IsSortOf(x, n, y, p) ==
  /\ Len(y) = Len(x)
  /\ NonDecreasing(SubSeq(y, 1, n))
  /\ IsPerm0(p, n)
  /\ \A i \in 1 .. n : y[i] = x[p[i] + 1]
  /\ \A i \in n + 1 .. Len(x) : y[i] = x[i]
(* --- arrangements --------------------------------------------------------- *)
\* position of the last ascent, 0 if none
Pivot(s) == LET A == {i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]} IN
            IF A = {} THEN 0 ELSE CHOOSE i \in A : \A j \in A : j <= i
HasNext(s) == Pivot(s) # 0
NextArr(s) == LET k == Pivot(s)
                  B == {i \in k + 1 .. Len(s) : s[i] > s[k]}
                  j == CHOOSE i \in B : \A m \in B : m <= i
                  t == [s EXCEPT ![k] = s[j], ![j] = s[k]]
              IN SubSeq(t, 1, k) \o Rev(SubSeq(t, k + 1, Len(t)))
FirstArr(s) == SortSeq(s, LAMBDA a, b : a < b)
(* --- sums ------------------------------------------------------------------ *)
RECURSIVE Decomps(_, _)
Decomps(parts, sum) ==
  IF parts = 0 THEN (IF sum = 0 THEN << <<>> >> ELSE <<>>)
  ELSE FoldLeft(LAMBDA acc, a : acc \o Map(Decomps(parts - 1, sum - a), LAMBDA d : <<a>> \o d),
                <<>>, Idx(sum + 1, LAMBDA i : i - 1))
(* --- words, as sequences of 16-bit digits ----------------------------------- *)
RECURSIVE Bits(_)
Bits(w) == IF w = 0 THEN 0 ELSE (w % 2) + Bits(w \div 2)
BitCount(ws) == Sum(Map(ws, Bits))
RECURSIVE BitLen(_)
BitLen(w) == IF w = 0 THEN 0 ELSE 1 + BitLen(w \div 2)
=============================================================================
