------------------------------ MODULE MCLanczos ------------------------------
(* The Lanczos recursion in exact arithmetic, one vector at a time, without
   normalisation (the vectors are kept primitive). *)
EXTENDS Resolvent, TLC, Json
CONSTANTS N, MaxD, Cx, EmitMod
VARIABLES v, d, x, u, end
vars == <<v, d, x, u, end>>
Ent == {<<-1, 0>>, Z, <<1, 0>>} \cup (IF Cx THEN {<<0, 1>>} ELSE {})
\* y without its part along w
Without(y, w) == Primitive(VSub(VScale(<<Size2(w), 0>>, y), VScale(VDot(w, y), w)))
Reduce(y, us) == FoldLeft(LAMBDA a, w : Without(a, w), Primitive(y), us)
Vecs == [1 .. N -> Ent]
Init == /\ v \in {w \in Vecs : Size2(w) > 0} /\ d \in [1 .. N -> 0 .. MaxD]
        /\ x \in {w \in Vecs : Size2(w) > 0}
        /\ u = <<Primitive(x)>> /\ end = FALSE
Last1(s) == s[Len(s)]
Next ==
  /\ ~end
  /\ LET y == Reduce(HTimes(v, d, Last1(u)), u) IN
     IF y = [i \in 1 .. N |-> Z]
     THEN end' = TRUE /\ u' = u
     ELSE end' = FALSE /\ u' = Append(u, y)
  /\ UNCHANGED <<v, d, x>>
  /\ IF end' /\ EmitMod THEN PrintT("@@" \o ToJson([v |-> v, d |-> d, x |-> x])) ELSE TRUE
Spec == Init /\ [][Next]_vars
Orthogonal == \A i, j \in DOMAIN u : i < j => VDot(u[i], u[j]) = Z
\* the projected matrix is tridiagonal: three terms are enough
ThreeTerms == \A i, j \in DOMAIN u : i + 1 < j => VDot(u[i], HTimes(v, d, u[j])) = Z
\* never more vectors than levels, and at the end as many
Steps == LET m == Cardinality(LevelSet(v, d, x)) IN Len(u) <= m /\ (end => Len(u) = m)
\* at the end the parts of the start vector lie in their span, and they are eigenvectors
Spans == end => \A l \in LevelSet(v, d, x) :
                  LET p == Part(v, d, x, l) IN
                  /\ Reduce(p, u) = [i \in 1 .. N |-> Z]
                  /\ HTimes(v, d, p) = VScale(<<l * Size2(v) * Size2(v), 0>>, p)
(* Moments of the resolvent's poles: <x| H^m |x> / <x|x> for m = 0, 1, 2 *)
Share == Fraction(v, d, x, 0, 1, 1)
Moments ==
  LET c == Share  s4 == Size2(v) * Size2(v)
      mom(m) == SumOf([q \in DOMAIN c.lv |-> c.share[q] * (IF m = 0 THEN 1 ELSE c.lv[q] ^ m)])
      hx == HTimes(v, d, x) IN
  /\ mom(0) = c.total
  /\ <<mom(1) * Size2(x) * s4, 0>> = CMul(<<c.total, 0>>, VDot(x, hx))
  /\ mom(2) * Size2(x) * s4 * s4 = c.total * Size2(hx)
=============================================================================
