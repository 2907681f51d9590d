------------------------------ MODULE MCBoolPack ------------------------------
EXTENDS BoolPack, TLC, Json
CONSTANTS MaxBits, MaxLen
VARIABLES s, n
Init == s = <<>> /\ n = 0
Next == \/ Len(s) < MaxBits /\ n = 0 /\ \E b \in {0, 1} : s' = Append(s, b) /\ n' = 0 /\ PrintT("@@" \o ToJson(s'))
        \/ s = <<>> /\ n < MaxLen /\ n' = n + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, n>>
Big == [q \in 1 .. n |-> IF (q * q) % 7 < 3 THEN 1 ELSE 0]
UnpacksBack == n = 0 => Unpack(Pack(s)) = s
InverseBig == n > 0 => Unpack(Pack(Big)) = Big
Lengths == UnLen(Len4(n * 257)) = n * 257
=============================================================================
