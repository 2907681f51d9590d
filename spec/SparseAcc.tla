------------------------------ MODULE SparseAcc ------------------------------
(* Accumulators of (index, value) pairs.  A row under construction is the
   sequence of pairs added; finalizing gives each index once, increasing, with
   the sum.  A sparse vector is its length, the pairs it holds and whether they
   are sorted; what it means is the dense vector of sums.                       *)
EXTENDS Cplx
IdxSet(ps) == {ps[k][1] : k \in DOMAIN ps}
SumAt(ps, i) == FoldLeft(LAMBDA a, p : IF p[1] = i THEN CAdd(a, p[2]) ELSE a, Z, ps)
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
\* the finalized row: zeros stay
Merged(ps) == Map(Sorted(IdxSet(ps)), LAMBDA i : <<i, SumAt(ps, i)>>)
\* the sorted vector: zeros go
Compressed(ps) == SelectSeq(Merged(ps), LAMBDA p : p[2] # Z)
\* the design: sort the pairs by index, then walk and merge equal neighbours
InsertBy(s, p) == LET k == Cardinality({q \in DOMAIN s : s[q][1] <= p[1]}) IN SubSeq(s, 1, k) \o <<p>> \o SubSeq(s, k + 1, Len(s))
SortPairs(ps) == FoldLeft(InsertBy, <<>>, ps)
Walk(ps) == FoldLeft(LAMBDA out, p : IF Len(out) > 0 /\ out[Len(out)][1] = p[1]
                                     THEN [out EXCEPT ![Len(out)] = <<p[1], CAdd(@[2], p[2])>>]
                                     ELSE Append(out, p), <<>>, SortPairs(ps))
DenseV(n, ps) == Idx(n, LAMBDA i : SumAt(ps, i - 1))
Pairs(ii, vv) == [k \in DOMAIN ii |-> <<ii[k], vv[k]>>]
\* inner product conjugating the second argument
DotC(u, v) == FoldLeft(LAMBDA a, k : CAdd(a, CMul(u[k], CConj(v[k]))), Z, Idx(Len(u), LAMBDA k : k))
FirstIdx(ps) == MinOf(Map(ps, LAMBDA p : p[1]))
LastIdx(ps) == MaxOf(Map(ps, LAMBDA p : p[1]))
\* parts: offsets, the last one the total.  0-based part holding index i
PartOf(parts, i) == CHOOSE k \in Range0(Len(parts) - 1) : parts[k + 1] <= i /\ i < parts[k + 2]
=============================================================================
