----------------------------- MODULE MCLabelFile -----------------------------
(* All short files over a few words and all short histories of searches.         *)
EXTENDS LabelFile, TLC, Json
CONSTANTS MaxWords, MaxOps
VARIABLES f, hist
vars == <<f, hist>>
Txt(s) == CASE s = "x" -> <<120, 61>> [] s = "xy" -> <<120, 121, 61>> [] s = "V" -> <<86>>
Scalars == {Txt("x") \o <<49>>, Txt("x") \o <<50>>, Txt("xy") \o <<51>>}
Vectors == {<<Txt("V"), <<49>>, <<52>>>>, <<Txt("V"), <<48>>>>}
Chunks == {<<w>> : w \in Scalars} \cup Vectors
Init == f = [w |-> <<>>, p |-> 0] /\ hist = <<>>
Grow == hist = <<>> /\ Len(f.w) < MaxWords /\ \E c \in Chunks : f' = [f EXCEPT !.w = @ \o c] /\ UNCHANGED hist
Search == /\ Len(hist) < MaxOps
          /\ \/ \E s \in {"x", "xy"}, l \in -1 .. 2 :
                LET y == ReadScalar(f, Txt(s), l, "i") IN
                f' = y.f /\ hist' = Append(hist, [op |-> "rl", s |-> Txt(s), l |-> l])
             \/ \E l \in -1 .. 1 :
                LET y == ReadValue(f, Txt("V"), l, "v", "i") IN
                f' = y.f /\ hist' = Append(hist, [op |-> "rv", s |-> Txt("V"), l |-> l])
             \/ \E s \in {"x", "V"}, l \in -1 .. 1 :
                LET y == Advance(f, Txt(s), l) IN
                f' = y.f /\ hist' = Append(hist, [op |-> "adv", s |-> Txt(s), l |-> l])
             \/ f' = Back(f) /\ hist' = Append(hist, [op |-> "rewind", s |-> <<>>, l |-> 0])
Next == Grow \/ Search
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson([w |-> f.w, ops |-> hist]))
\* level k is the k-th of repeated next; Final is the last level there is; advance
\* with Final leaves exactly one occurrence ahead
RECURSIVE NextN(_, _, _)
NextN(g, s, n) == LET y == ReadScalar(g, s, 0, "i") IN IF n = 0 \/ ~y.ok THEN y ELSE NextN(y.f, s, n - 1)
Levels == \A l \in 0 .. 2 : LET a == ReadScalar(f, Txt("x"), l, "i")  b == NextN(f, Txt("x"), l) IN
          a.ok = b.ok /\ a.f = b.f /\ (a.ok => a.v = b.v)
Finals == LET n == Len(Occ(f.w, f.p, Txt("x")))  a == ReadScalar(f, Txt("x"), Final, "i") IN
          IF n = 0 THEN ~a.ok ELSE a.ok /\ a.v = ReadScalar(f, Txt("x"), n - 1, "i").v
OneAhead == LET a == Advance(f, Txt("V"), Final) IN a.ok => Len(Occ(f.w, a.f.p, Txt("V"))) = 1
RewindRestores == \A l \in -1 .. 1 : ReadScalar(Back(ReadScalar(Back(f), Txt("x"), 2, "i").f), Txt("x"), l, "i") = ReadScalar(Back(f), Txt("x"), l, "i")
Inside == f.p <= Len(f.w)
=============================================================================
