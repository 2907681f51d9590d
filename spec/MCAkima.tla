----------------------------- MODULE MCAkima -----------------------------
(* Points one after the other: the interpolation goes through all of them, is smooth
   where pieces meet, and reproduces straight lines, and parabolas on equal steps. *)
EXTENDS Bisect, TLC, Json
CONSTANTS MaxPts, MaxV, EmitMod
VARIABLES x, s
vars == <<x, s>>
Init == x = <<0>> /\ s \in {<<v>> : v \in 0 .. MaxV}
Next == /\ Len(x) < MaxPts
        /\ \E u \in {1, 2}, v \in (-MaxV) .. MaxV : x' = Append(x, x[Len(x)] + u) /\ s' = Append(s, v)
        /\ IF Len(x') >= 2 /\ EmitMod THEN PrintT("@@" \o ToJson([x |-> x', s |-> s'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
Ok == Len(x) >= 3
Through == Ok => \A i \in 1 .. Len(x) - 1 : Akima(x, s, i, 0) = Scale * s[i] /\ Akima(x, s, i, 4) = Scale * s[i + 1]
Line(p, q) == \A i \in DOMAIN x : s[i] = p * x[i] + q
Lines == Ok => \A p, q \in -3 .. 3 : Line(p, q) =>
   \A i \in 1 .. Len(x) - 1, j \in 0 .. 4 : Abs1(4 * Akima(x, s, i, j) - Scale * (4 * s[i] + p * j * (x[i + 1] - x[i]))) <= 16
Parabolas == Ok /\ (\A i \in 1 .. Len(x) - 1 : x[i + 1] = x[i] + 1) => \A p \in -1 .. 1, q, r \in -2 .. 2 :
   (\A i \in DOMAIN x : s[i] = p * x[i] * x[i] + q * x[i] + r) =>
   \A i \in 1 .. Len(x) - 1, j \in 0 .. 4 : LET y == 4 * x[i] + j IN Abs1(16 * Akima(x, s, i, j) - Scale * (p * y * y + 4 * q * y + 16 * r)) <= 64
=============================================================================
