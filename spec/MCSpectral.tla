----------------------------- MODULE MCSpectral -----------------------------
(* All small matrices, grown entry by entry; emitted when square or not. *)
EXTENDS Spectral, TLC, Json
CONSTANTS MaxR, MaxC, Cx, EmitMod
VARIABLES m, r, c, k
vars == <<m, r, c, k>>
Ent == {Z, ONE, <<2, 0>>, <<-1, 0>>} \cup (IF Cx THEN {<<0, 1>>, <<1, -1>>} ELSE {})
Init == r \in 1 .. MaxR /\ c \in 1 .. MaxC /\ k = 0 /\ m = ZeroM(r, c)
Next == /\ k < r * c
        /\ \E e \in Ent : m' = [m EXCEPT !.a[(k \div c) + 1][(k % c) + 1] = e]
        /\ k' = k + 1 /\ UNCHANGED <<r, c>>
        /\ IF k' = r * c /\ EmitMod THEN PrintT("@@" \o ToJson(m')) ELSE TRUE
Spec == Init /\ [][Next]_vars
Full == k = r * c
AdjIsInverse == Full /\ r = c => /\ MMul(m, Adj(m)) = MScale(Det(m), IdM(r)) /\ MMul(Adj(m), m) = MScale(Det(m), IdM(r))
Singular == Full /\ r = c /\ PlainlySingular(m) => Det(m) = Z
DetOfAdjoint == Full /\ r = c => Det(Dag(m)) = CConj(Det(m)) /\ Det(MMul(m, Dag(m))) = <<CNorm2(Det(m)), 0>>
\* functions of M D M, with its first column as v and the second as D
Functions ==
  Full /\ r = c /\ c >= 2 /\ Size2(Col(m, 1)) > 0 =>
  LET v == Col(m, 1)  d == [i \in 1 .. r |-> m.a[i][2][1]]  s == Size2(v)
      e(x, y) == Function(v, d, LAMBDA q : <<(2 ^ (x * (q + 1))) * y, 0>>) IN
  /\ IsHermitian(H(v, d))
  /\ Function(v, d, LAMBDA q : ONE) = MScale(<<s * s, 0>>, IdM(r))
  /\ MMul(H(v, d), H(v, d)) = MScale(<<s * s, 0>>, Function(v, d, LAMBDA q : <<q * q, 0>>))
  /\ MMul(e(1, 1), e(1, 1)) = MScale(<<s * s, 0>>, e(2, 1))
  /\ MMul(Function(v, d, ITo), Dag(Function(v, d, ITo))) = MScale(<<s * s * s * s, 0>>, IdM(r))
=============================================================================
