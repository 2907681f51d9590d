----------------------------- MODULE MCSparseAcc -----------------------------
EXTENDS SparseAcc, TLC, Json
CONSTANTS MaxLen, NIdx
VARIABLES ps, fin
vars == <<ps, fin>>
Vals == {<<1, 0>>, <<-1, 0>>, <<0, 2>>}
Init == ps = <<>> /\ fin = FALSE
Add == ~fin /\ Len(ps) < MaxLen /\ \E i \in Range0(NIdx), v \in Vals : ps' = Append(ps, <<i, v>>) /\ UNCHANGED fin
Fin == ~fin /\ fin' = TRUE /\ UNCHANGED ps /\ PrintT("@@" \o ToJson(ps))
Next == Add \/ Fin
Spec == Init /\ [][Next]_vars
WalkIsMerged == Walk(ps) = Merged(ps)
Once == Increasing(Map(Merged(ps), LAMBDA p : p[1]))
SameMeaning == DenseV(NIdx, ps) = DenseV(NIdx, Merged(ps)) /\ DenseV(NIdx, ps) = DenseV(NIdx, Compressed(ps))
NormIsReal == LET d == DenseV(NIdx, ps) IN DotC(d, d)[2] = 0 /\ DotC(d, d)[1] >= 0
=============================================================================
