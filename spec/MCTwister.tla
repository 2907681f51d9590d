----------------------------- MODULE MCTwister -----------------------------
(* Words as pairs of halves against whole numbers where these fit; the generators step by
   step; and every interleaving of draws from two generators and of reseeding them. *)
EXTENDS Twister, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxOps
VARIABLES a, b, h
vars == <<a, b, h>>
\* generators of a small twister, of which only position and seed matter: draws are what
\* they give at their position
Init == a = [s |-> 1, k |-> 0] /\ b = [s |-> 1, k |-> 0] /\ h = <<>>
Draw(g) == [g EXCEPT !.k = @ + 1]
Ops == {"da", "db", "sa1", "sa2", "sb1", "copy"}
Do(o) == CASE o = "da" -> a' = Draw(a) /\ b' = b
           [] o = "db" -> b' = Draw(b) /\ a' = a
           [] o = "sa1" -> a' = [s |-> 1, k |-> 0] /\ b' = b
           [] o = "sa2" -> a' = [s |-> 2, k |-> 0] /\ b' = b
           [] o = "sb1" -> b' = [s |-> 1, k |-> 0] /\ a' = a
           [] OTHER -> b' = a /\ a' = a
Next == /\ Len(h) < MaxOps
        /\ \E o \in Ops : Do(o) /\ h' = Append(h, o)
        /\ IF Len(h') = MaxOps THEN PrintT("@@" \o ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_vars
RECURSIVE After(_, _, _)
\* where a generator is: since it was seeded, directly or in what it was copied from
After(ops, who, k) ==
  IF k = 0 THEN [s |-> 1, k |-> 0]
  ELSE LET o == ops[k]  p == After(ops, who, k - 1) IN
       CASE o = (IF who = "a" THEN "da" ELSE "db") -> Draw(p)
         [] o = "sa1" /\ who = "a" -> [s |-> 1, k |-> 0]
         [] o = "sa2" /\ who = "a" -> [s |-> 2, k |-> 0]
         [] o = "sb1" /\ who = "b" -> [s |-> 1, k |-> 0]
         [] o = "copy" /\ who = "b" -> After(ops, "a", k - 1)
         [] OTHER -> p
Independent == a = After(h, "a", Len(h)) /\ b = After(h, "b", Len(h))
\* arithmetic on words
V(w) == w[1] * B16 + w[2]
Smalls == {0, 1, 2, 255, 256, 65535, 4660, 32768, 40503}
Arith == h = <<>> => \A x, y \in Smalls :
   /\ (y = 0 \/ x <= 2000000000 \div y => Mul16(x, y) = W(x * y))
   /\ \A k \in 0 .. 15 : V(ShrW(W(x * 7), k)) = (x * 7) \div (2 ^ k)
   /\ \A k \in 0 .. 8 : ShlW(<<0, x>>, k) = W(x * (2 ^ k))
   /\ V(AddW(W(x * 3), W(y * 5))) = x * 3 + y * 5
   /\ (y = 0 \/ x <= 2000000000 \div y => MulW(<<0, x>>, <<0, y>>) = W(x * y))
   /\ AddW(<<65535, 65535>>, <<0, 1>>) = <<0, 0>> /\ MulW(<<65535, 65535>>, <<65535, 65535>>) = <<0, 1>>
   /\ XorW(XorW(<<x, y>>, <<y, x>>), <<y, x>>) = <<x, y>>
\* skipping is drawing; a generation is used up before the next
Streams == h = <<>> => LET g == New(<<0, 5489>>)  d == Draws(g, MaxLen) IN
   /\ Len(d) = MaxLen
   /\ \A k \in {0, 1, 5, 623, 624, 625, MaxLen - 1} : k < MaxLen => Draws(Skip(g, k), MaxLen - k) = SubSeq(d, k + 1, MaxLen)
   /\ Cardinality({d[i] : i \in DOMAIN d}) > (MaxLen * 9) \div 10
   /\ \A r1, r2 \in 0 .. 3 : r1 # r2 => Ranked(<<1, 7>>, r1).x # Ranked(<<1, 7>>, r2).x
\* Schrage's trick is multiplication
RECURSIVE MulMod(_, _)
AddMod(x, y) == IF x >= P31 - y THEN x - (P31 - y) ELSE x + y
MulMod(x, k) == IF k = 0 THEN 0 ELSE LET q == MulMod(x, k \div 2) IN
   LET dd == AddMod(q, q) IN IF (k % 2) = 1 THEN AddMod(dd, x) ELSE dd
Schrage == h = <<>> => \A x \in {1, 2, 16807, 127773, 127774, 2147483646, 99999999, 1043618065} : MinStd(x) = MulMod(x, 16807)
BitCount == h = <<>> => Ones(<<2, 5, 5>>) = 8 /\ Ones(<<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>) = 64 /\ Ones(<<0>>) = 0 /\ Ones(<<1, 0, 2, 4>>) = 1
=============================================================================
