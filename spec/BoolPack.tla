------------------------------ MODULE BoolPack ------------------------------
(* Lists of booleans as bytes: four bytes with the length, least significant first,
   then eight to a byte, least significant bit first.  MCBoolPack shows that this is
   undone by the decoder for every list in the bounds and every length.            *)
EXTENDS Lists
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Len4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Bit(s, q) == IF q <= Len(s) /\ s[q] = 1 THEN Pow2[((q - 1) % 8) + 1] ELSE 0
Byte(s, j) == Bit(s, 8 * j + 1) + Bit(s, 8 * j + 2) + Bit(s, 8 * j + 3) + Bit(s, 8 * j + 4)
              + Bit(s, 8 * j + 5) + Bit(s, 8 * j + 6) + Bit(s, 8 * j + 7) + Bit(s, 8 * j + 8)
Pack(s) == Len4(Len(s)) \o (IF s = <<>> THEN <<>> ELSE [j \in 1 .. (Len(s) \div 8) + 1 |-> Byte(s, j - 1)])
UnLen(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
Unpack(b) == [q \in 1 .. UnLen(b) |-> (b[5 + ((q - 1) \div 8)] \div Pow2[((q - 1) % 8) + 1]) % 2]
=============================================================================
