--------------------------------- MODULE Labels ---------------------------------
(* Operator labels name?dof', labels with a site in brackets, and bra or ket
   specifications.                                                              *)
EXTENDS NumText, TLC
Bad == [ok |-> FALSE]
\* --- operator labels: name [? number] [']
OpLabel(s) ==
  LET tr == s # <<>> /\ s[Len(s)] = 39
      c == IF tr THEN Sub(s, 1, Len(s) - 1) ELSE s
      q == FirstAt(c, LAMBDA x : x = 63)  num == Sub(c, q + 1, Len(c)) IN
  IF q = 0 THEN [ok |-> TRUE, label |-> c, dof |-> 0, transpose |-> tr]
  ELSE IF AllDig(num) THEN [ok |-> TRUE, label |-> Sub(c, 1, q - 1), dof |-> NatOf(num, 0), transpose |-> tr]
  ELSE Bad
\* --- sites: b and e the brackets; the last pair counts
Depth(s, q, b, e) == Cardinality({u \in 1..q : s[u] = b}) - Cardinality({u \in 1..q : s[u] = e})
Paired(s, b, e) == (\A q \in 0..Len(s) : Depth(s, q, b, e) \in {0, 1}) /\ Depth(s, Len(s), b, e) = 0
LastAt(s, c) == LET z == {q \in DOMAIN s : s[q] = c} IN IF z = {} THEN 0 ELSE CHOOSE q \in z : \A u \in z : q >= u
Site(s, b, e) ==
  IF ~Paired(s, b, e) THEN Bad
  ELSE LET i == LastAt(s, b)  j == LastAt(s, e) IN
       IF i = 0 THEN [ok |-> TRUE, has |-> FALSE, root |-> s, site |-> <<>>]
       ELSE [ok |-> TRUE, has |-> TRUE, root |-> Sub(s, 1, i - 1) \o Sub(s, j + 1, Len(s)), site |-> Sub(s, i + 1, j - 1)]
Number(s) == IF AllDig(s) THEN [ok |-> TRUE, n |-> NatOf(s, 0)] ELSE Bad
\* --- bra or ket: | body > or < body | or body
Ket(s) == Len(s) > 2 /\ s[1] = 124 /\ s[Len(s)] = 62
Bra(s) == Len(s) > 2 /\ s[1] = 60 /\ s[Len(s)] = 124
Body(s) == IF Ket(s) \/ Bra(s) THEN Sub(s, 2, Len(s) - 1) ELSE s
Gs == <<103, 115>>
Time == <<116, 105, 109, 101>>
\* body: gs, time, R n, X n, or P n or Q n with X n behind
XAt(b) == FirstAt(b, LAMBDA c : c = 88)
Rest(b) == Sub(b, 2, Len(b))
Before(b) == IF XAt(b) = 0 THEN Rest(b) ELSE Sub(b, 2, XAt(b) - 1)
XNum(b) == IF XAt(b) = 0 THEN <<48>> ELSE Sub(b, XAt(b) + 1, Len(b))
Vec(k, i, j) == [ok |-> TRUE, kind |-> k, first |-> i, second |-> j]
BodyOf(b) ==
  IF b = Gs THEN Vec("E", 0, 0)
  ELSE IF b = Time THEN Vec("P", 0, 0)
  ELSE IF Len(b) < 2 THEN Bad
  ELSE IF b[1] = 82 THEN (IF AllDig(Rest(b)) THEN Vec("R", NatOf(Rest(b), 0), 0) ELSE Bad)
  ELSE IF b[1] = 88 THEN (IF AllDig(Rest(b)) THEN Vec("E", 0, NatOf(Rest(b), 0)) ELSE Bad)
  ELSE IF b[1] \in {80, 81} /\ AllDig(Before(b)) /\ AllDig(XNum(b)) THEN Vec(IF b[1] = 80 THEN "P" ELSE "E", NatOf(Before(b), 0), NatOf(XNum(b), 0))
  ELSE Bad
BraOrKet(s) == IF Len(s) < 2 \/ ~BodyOf(Body(s)).ok THEN Bad ELSE [ket |-> ~Bra(s), body |-> Body(s)] @@ BodyOf(Body(s))
=============================================================================
