------------------------------ MODULE Twister ------------------------------
(* Random number generators and run identifiers.  Words of 32 bits are pairs of
   16-bit halves <<high, low>>.                                                   *)
EXTENDS Integers, Sequences, SequencesExt, Functions, Bitwise
B16 == 65536
Low16(x) == x % B16
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
\* k < 16
ShrW(a, k) == <<a[1] \div (2 ^ k), (a[2] \div (2 ^ k)) + ((a[1] % (2 ^ k)) * (2 ^ (16 - k)))>>
Shr18(a) == <<0, a[1] \div 4>>
ShlW(a, k) == <<((a[1] * (2 ^ k)) + (a[2] \div (2 ^ (16 - k)))) % B16, (a[2] * (2 ^ k)) % B16>>
AddW(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div B16)) % B16, l % B16>>
\* 16 bits by 16 bits, as a word
Mul16(a, b) ==
  LET p == a * (b % 256)  q == a * (b \div 256)   \* p + 256 q
  IN AddW(<<p \div B16, p % B16>>, <<(q \div 256) % B16, (q % 256) * 256>>)
MulW(a, b) ==
  LET l == Mul16(a[2], b[2])  m == Mul16(a[1], b[2])[2] + Mul16(a[2], b[1])[2] IN
  <<(l[1] + m) % B16, l[2]>>
W(x) == <<x \div B16, x % B16>>
(* --- Mersenne twister: 624 words, a new generation of them after every 624 draws ---- *)
N == 624
M == 397
Factor == <<27655, 35173>>      \* 1812433253
Matrix1 == <<39176, 45279>>     \* 2567483615
MaskB == <<40236, 22144>>       \* 2636928640
MaskC == <<61382, 0>>           \* 4022730752
Mix(x) == XorW(x, ShrW(x, 15))
\* x ^ (x >> 30)
Shr30(x) == <<0, x[1] \div 16384>>
Seeded(s) == FoldLeft(LAMBDA a, i : LET x == a[Len(a)] IN Append(a, MulW(Factor, AddW(XorW(x, Shr30(x)), <<0, i>>))),
                      <<s>>, [i \in 1 .. N - 1 |-> i])
\* x[k + N] = x[k + M] ^ twist(upper bit of x[k], the rest of x[k + 1])
Twist(x, y) ==
  LET z == <<(IF x[1] >= 32768 THEN 32768 ELSE 0) + (y[1] % 32768), y[2]>>
      h == ShrW(z, 1) IN IF (z[2] % 2) = 1 THEN XorW(h, Matrix1) ELSE h
Temper(y0) ==
  LET y1 == XorW(y0, ShrW(y0, 11))  y2 == XorW(y1, AndW(ShlW(y1, 7), MaskB))  y3 == XorW(y2, AndW(ShlW(y2, 15), MaskC))
  IN XorW(y3, Shr18(y3))
Generation(x) == SubSeq(FoldLeft(LAMBDA a, i : Append(a, XorW(a[i + M], Twist(a[i], a[i + 1]))), x, [i \in 1 .. N |-> i]), N + 1, 2 * N)
New(s) == [x |-> Seeded(s), k |-> 0]
\* g at the next draw
Ready(g) == IF g.k = 0 THEN [g EXCEPT !.x = Generation(@)] ELSE g
RECURSIVE Skip(_, _)
\* g after n draws
Skip(g, n) == IF n = 0 THEN g
              ELSE LET h == Ready(g) IN
                   IF h.k + n < N THEN [h EXCEPT !.k = @ + n] ELSE Skip([h EXCEPT !.k = 0], n - (N - h.k))
RECURSIVE Draws(_, _)
Draws(g, n) == IF n = 0 THEN <<>>
               ELSE LET h == Ready(g)  m == IF h.k + n < N THEN n ELSE N - h.k IN
                    [i \in 1 .. m |-> Temper(h.x[h.k + i])] \o Draws([h EXCEPT !.k = (h.k + m) % N], n - m)
\* one stream for every rank
Ranked(s, rank) == New(Draws(New(s), rank + 1)[rank + 1])
(* --- the 48-bit generator of the C library, shared by all its users ------------------ *)
A48 == <<5, 57068, 58989>>   \* 0x5DEECE66D
\* state <<high, middle, low>>, times A48, plus 11
Next48(x) ==
  LET l == AddW(Mul16(x[3], A48[3]), <<0, 11>>)
      m1 == Mul16(x[3], A48[2])  m2 == Mul16(x[2], A48[3])
      m == m1[2] + m2[2] + l[1]
      h == m1[1] + m2[1] + (m \div B16) + Mul16(x[3], A48[1])[2] + Mul16(x[2], A48[2])[2] + Mul16(x[1], A48[3])[2]
  IN <<h % B16, m % B16, l[2]>>
Seed48(s) == <<s[1], s[2], 13070>>
\* the whole part of 10000 x / 2^48
TenThousand(x) == ((10000 * x[1]) + (((10000 * x[2]) + ((10000 * x[3]) \div B16)) \div B16)) \div B16
RECURSIVE Run48(_, _)
Run48(x, n) == IF n = 0 THEN <<>> ELSE LET y == Next48(x) IN <<y>> \o Run48(y, n - 1)
Last48(x, n) == IF n = 0 THEN x ELSE Run48(x, n)[n]
Start48(s, rank, n) == LET r == Run48(Seed48(s), n) IN TenThousand(r[rank + 1])
(* --- the minimal standard generator ------------------------------------------------- *)
P31 == 2147483647
MinStd(x) ==
  LET y == 16807 * (x % 127773) - 2836 * (x \div 127773)
      z == IF y <= 0 THEN y + P31 ELSE y IN IF z >= P31 THEN 1 ELSE z
RECURSIVE MinStds(_, _)
MinStds(x, n) == IF n = 0 THEN <<>> ELSE LET y == MinStd(x) IN <<y>> \o MinStds(y, n - 1)
(* --- run identifiers: digits, of which the last two count the one bits of the others -- *)
Digit(c) == c - 48
Half(ds) == FoldLeft(LAMBDA a, d : LET v == 10 * a.r + d IN [q |-> Append(a.q, v \div 2), r |-> v % 2], [q |-> <<>>, r |-> 0], ds)
IsZero(ds) == \A i \in DOMAIN ds : ds[i] = 0
RECURSIVE Ones(_)
Ones(ds) == IF IsZero(ds) THEN 0 ELSE LET h == Half(ds) IN h.r + Ones(h.q)
Digits(cs) == [i \in DOMAIN cs |-> Digit(cs[i])]
IsRunId(cs) ==
  LET n == Len(cs)  ds == Digits(cs) IN
  /\ n >= 3 /\ \A i \in 1 .. n : cs[i] \in 48 .. 57
  /\ (n > 3 => cs[1] # 48)
  /\ 10 * ds[n - 1] + ds[n] = Ones(SubSeq(ds, 1, n - 2))
=============================================================================
