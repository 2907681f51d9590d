--------------------------------- MODULE Base64 ---------------------------------
(* Base64 of a byte string, by bits.                                             *)
EXTENDS Lists
Alphabet == [q \in 0..63 |-> IF q < 26 THEN 65 + q ELSE IF q < 52 THEN 97 + q - 26 ELSE IF q < 62 THEN 48 + q - 52 ELSE IF q = 62 THEN 43 ELSE 47]
IsSymbol(c) == \E q \in 0..63 : Alphabet[q] = c
Value(c) == CHOOSE q \in 0..63 : Alphabet[q] = c
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
BitOf(v, width, q) == (v \div Pow2(width - q)) % 2          \* q = 1: the highest of width bits
BitsOf(vs, width) == [q \in 1..(Len(vs) * width) |-> BitOf(vs[1 + ((q - 1) \div width)], width, 1 + ((q - 1) % width))]
ValueOf(bits) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, bits)
Group(bits, width, g) == ValueOf([q \in 1..width |-> LET p == (g - 1) * width + q IN IF p > Len(bits) THEN 0 ELSE bits[p]])
CeilDiv(a, b) == (a + b - 1) \div b
Encode(bytes) ==
  LET bits == BitsOf(bytes, 8) IN
  [g \in 1..(4 * CeilDiv(Len(bytes), 3)) |-> IF g <= CeilDiv(Len(bits), 6) THEN Alphabet[Group(bits, 6, g)] ELSE 61]
Symbols(text) == LET e == {q \in DOMAIN text : ~IsSymbol(text[q])} IN
                 IF e = {} THEN text ELSE SubSeq(text, 1, (CHOOSE q \in e : \A u \in e : q <= u) - 1)
Decode(text) ==
  LET s == Symbols(text)  bits == BitsOf([q \in DOMAIN s |-> Value(s[q])], 6) IN
  [g \in 1..(Len(bits) \div 8) |-> Group(bits, 8, g)]
=============================================================================
