------------------------------- MODULE Lattice -------------------------------
(* The lattices of src/Geometry and the couplings on them.  A lattice is given by
   the bonds one draws: for each direction, from each site (the tail) to the next
   site of that direction (the head).  Everything else -- which sites are
   neighbours, in which direction, under which number -- follows from the drawing.

   p is a record: kind, L (sites), leg, px, py (periodic along and across the legs,
   0 or 1; -1 where the input says nothing), d (distance), b (bath sites per site),
   ly, sgn (sign change), orb (orbitals), const (constant values), data (per
   direction the sequence of couplings, each a matrix as sequence of rows).       *)
EXTENDS Cplx, FiniteSets, TLC
Bond(a, h, dir, n) == [a |-> a, h |-> h, dir |-> dir, n |-> n]
Sites(p) == 0 .. p.L - 1
(* --- chain with hops of length d ---------------------------------------------- *)
ChainBonds(p) == { Bond(i, (i + p.d) % p.L, 0, i) : i \in {j \in Sites(p) : p.d < p.L /\ (p.px = 1 \/ j + p.d < p.L)} }
(* --- ladder: site = column * leg + row ----------------------------------------- *)
Per(p) == p.py = 1 /\ p.leg # 2
LadderBonds(p) ==
  LET lx == p.L \div p.leg
      At2(c, r) == (c % lx) * p.leg + (r % p.leg)
      CR == (0 .. lx - 1) \X (0 .. p.leg - 1)
  IN { Bond(At2(q[1], q[2]), At2(q[1] + 1, q[2]), 0, At2(q[1], q[2])) : q \in {w \in CR : lx > 1 /\ (p.px = 1 \/ w[1] + 1 < lx)} }
     \cup { Bond(At2(q[1], q[2]), At2(q[1], q[2] + 1), 1, IF Per(p) THEN At2(q[1], q[2]) ELSE q[1] * (p.leg - 1) + q[2])
            : q \in {w \in CR : p.leg > 1 /\ (Per(p) \/ w[2] + 1 < p.leg)} }
(* --- ladder with the two diagonals of each plaquette --------------------------- *)
DiagonalBonds(p) ==
  LET lx == p.L \div p.leg
      At2(c, r) == (c % lx) * p.leg + (r % p.leg)
      CR == (0 .. lx - 1) \X (0 .. p.leg - 1)
  IN { Bond(At2(q[1], q[2] + 1), At2(q[1] + 1, q[2]), 2, q[1]) : q \in {w \in CR : lx > 1 /\ p.leg > 1 /\ (p.px = 1 \/ w[1] + 1 < lx) /\ (Per(p) \/ w[2] + 1 < p.leg)} }
     \cup { Bond(At2(q[1], q[2]), At2(q[1] + 1, q[2] + 1), 3, q[1]) : q \in {w \in CR : lx > 1 /\ p.leg > 1 /\ (p.px = 1 \/ w[1] + 1 < lx) /\ (Per(p) \/ w[2] + 1 < p.leg)} }
(* --- ladder in the middle, its bath around it ----------------------------------- *)
Cluster(p) == p.L \div (1 + p.b)
FirstOf(p) == (Cluster(p) \div 2) * p.b
BathSite(p, k, m) == LET half == Cluster(p) \div 2 IN
  IF k < half THEN m * half + k ELSE FirstOf(p) + Cluster(p) + m * (Cluster(p) - half) + (k - half)
BathBonds(p) ==
  LET q == [p EXCEPT !.L = Cluster(p)] IN
  { [x EXCEPT !.a = @ + FirstOf(p), !.h = @ + FirstOf(p)] : x \in LadderBonds(q) }
  \cup { Bond(FirstOf(p) + w[1], BathSite(p, w[1], w[2]), 2, w[1] * p.b + w[2]) : w \in (0 .. Cluster(p) - 1) \X (0 .. p.b - 1) }
(* --- star around site 1 ----------------------------------------------------------- *)
StarBonds(p) == { Bond(1, i, 0, IF i = 0 THEN 0 ELSE i - 1) : i \in {j \in Sites(p) : p.L > 1 /\ j # 1} }
(* --- honeycomb: columns of ly sites, brick by brick; every site has one bond of each
       direction where the lattice does not end ------------------------------------- *)
HoneyBonds(p) ==
  LET lx == p.L \div p.ly
      At2(c, r) == (c % lx) * p.ly + (r % p.ly)
      CR == (0 .. lx - 1) \X (0 .. p.ly - 1)
      Up(w) == p.py = 1 \/ w[2] + 1 < p.ly          \* a site above in the column
      Right(w) == lx > 1 /\ (p.px = 1 \/ w[1] + 1 < lx)
  IN { Bond(At2(q[1], q[2]), At2(q[1], q[2] + 1), 2, 0) : q \in {w \in CR : w[2] % 2 = 1 /\ Up(w)} }
     \cup { Bond(At2(q[1], q[2]), At2(q[1], q[2] + 1), IF q[2] % 4 = 0 THEN 1 ELSE 0, 0) : q \in {w \in CR : w[2] % 2 = 0 /\ Up(w)} }
     \cup { Bond(At2(q[1], q[2]), At2(q[1] + 1, q[2] + 1), 0, 0) : q \in {w \in CR : w[2] % 4 = 0 /\ w[2] + 1 < p.ly /\ Right(w)} }
     \cup { Bond(At2(q[1], q[2]), At2(q[1] + 1, q[2] - 1), 1, 0) : q \in {w \in CR : w[2] % 4 = 3 /\ Right(w)} }
(* --- K2NiF4: cells of an x oxygen, two y oxygens... and a copper ------------------ *)
CellBonds(p) ==
  LET c(k) == 4 * k IN
  UNION { { Bond(c(k), c(k) + 1, 2, 0), Bond(c(k), c(k) + 2, 3, 0),            \* oxygen x to the oxygens y of its cell
            Bond(c(k) + 2, c(k) + 4, 2, 0), Bond(c(k) + 1, c(k) + 4, 3, 0),     \* and of the cell before
            Bond(c(k) + 3, c(k), 0, 0), Bond(c(k) + 3, c(k) + 4, 0, 0),         \* copper to oxygen x, left and right
            Bond(c(k) + 3, c(k) + 1, 1, 0), Bond(c(k) + 3, c(k) + 2, 1, 0) }    \* copper to oxygen y
          : k \in 0 .. p.L \div 4 }
NickelBonds(p) == { x \in CellBonds(p) : x.a < p.L /\ x.h < p.L }
(* --- every site with every other ---------------------------------------------------- *)
AllBonds(p) == { Bond(w[1], w[2], 0, 0) : w \in {v \in Sites(p) \X Sites(p) : v[1] < v[2]} }
Bonds(p) ==
  CASE p.kind \in {"chain", "longchain"} -> ChainBonds(p)
    [] p.kind = "ladder" -> LadderBonds(p)
    [] p.kind = "ladderx" -> LadderBonds(p) \cup DiagonalBonds(p)
    [] p.kind = "ladderbath" -> BathBonds(p)
    [] p.kind = "star" -> StarBonds(p)
    [] p.kind = "Honeycomb" -> HoneyBonds(p)
    [] p.kind = "ktwoniffour" -> NickelBonds(p)
    [] OTHER -> AllBonds(p)
Dirs(p) == CASE p.kind \in {"ladder"} -> 2 [] p.kind \in {"ladderx", "ktwoniffour"} -> 4 [] p.kind \in {"ladderbath", "Honeycomb"} -> 3 [] OTHER -> 1
(* Where two bonds join the same two sites (a ring of two), one of them counts:
   along a chain and across a plaquette the first, along a ladder the last.          *)
Of(B, i, j) == { x \in B : {x.a, x.h} = {i, j} /\ x.a # x.h }
Better(p, x, y) == IF x.dir # y.dir THEN (IF p.kind = "ladderx" THEN (IF x.n # y.n THEN x.n < y.n ELSE x.dir < y.dir) ELSE x.dir < y.dir)
                   ELSE IF p.kind \in {"ladder", "ladderx", "ladderbath"} THEN x.n > y.n ELSE x.n < y.n
TheBond(p, B, i, j) == LET S == Of(B, i, j) IN CHOOSE x \in S : \A y \in S : x = y \/ Better(p, x, y)
\* the lattice as tables: for each ordered pair the bond's direction and number, -1 where there is none
Tables(p) ==
  LET B == Bonds(p)
      near == [i \in Sites(p) |-> {x \in B : x.a = i \/ x.h = i}]
      pair == [i \in Sites(p) |-> [j \in Sites(p) |-> IF Of(near[i], i, j) = {} THEN <<>> ELSE <<TheBond(p, near[i], i, j)>>]]
  IN [pair |-> pair]
Has(T, i, j) == T.pair[i][j] # <<>>
Dir(T, i, j) == T.pair[i][j][1].dir
BNum(T, i, j) == T.pair[i][j][1].n
Flat(p, F(_, _)) == [k \in 1 .. p.L * p.L |-> F((k - 1) \div p.L, (k - 1) % p.L)]
ConnFlat(p, T) == Flat(p, LAMBDA i, j : IF Has(T, i, j) THEN 1 ELSE 0)
DirFlat(p, T) == Flat(p, LAMBDA i, j : IF Has(T, i, j) THEN Dir(T, i, j) ELSE -1)
NumFlat(p, T) == Flat(p, LAMBDA i, j : IF Has(T, i, j) THEN BNum(T, i, j) ELSE -1)
(* --- how many couplings a direction takes -------------------------------------------- *)
LadderSize(p, dir) == IF dir = 0 THEN (IF p.px = 1 THEN p.L ELSE p.L - p.leg) ELSE (IF Per(p) THEN p.L ELSE p.L - (p.L \div p.leg))
Size(p, dir) ==
  CASE p.const = 1 -> 1
    [] p.kind \in {"chain", "longchain"} -> IF p.px = 1 THEN p.L ELSE p.L - p.d
    [] p.kind = "ladder" -> LadderSize(p, dir)
    [] p.kind = "ladderx" -> IF dir < 2 THEN LadderSize(p, dir) ELSE p.L - p.leg
    [] p.kind = "ladderbath" -> IF dir = 2 THEN p.b * Cluster(p) ELSE LadderSize([p EXCEPT !.L = Cluster(p)], dir)
    [] p.kind = "star" -> p.L - 1
    [] OTHER -> 0
\* lattices whose couplings may differ from bond to bond
Numbered(p) == p.kind \in {"chain", "longchain", "ladder", "ladderbath", "star"} \/ (p.kind = "ladderx" /\ p.leg = 2)
Directed(p) == ~(p.kind = "ladderx" /\ p.leg # 2)
Whole(p) == p.kind \in {"LongRange", "General"}
(* --- moving the lattice --------------------------------------------------------------- *)
Lx(p) == p.L \div p.leg
Shift(p, i, dir, amount) ==
  IF p.kind = "ladder" THEN (IF dir = 0 THEN ((i \div p.leg + amount) % Lx(p)) * p.leg + (i % p.leg) ELSE (i \div p.leg) * p.leg + (((i % p.leg) + amount) % p.leg))
  ELSE (i + amount) % p.L
Mirror(p, i) == IF p.kind = "ladder" THEN (Lx(p) - 1 - (i \div p.leg)) * p.leg + (i % p.leg) ELSE p.L - 1 - i
Length(p, dir) == IF p.kind = "ladder" THEN (IF dir = 1 THEN p.leg ELSE Lx(p)) ELSE p.L
Movable(p) == p.kind \in {"chain", "longchain", "ladder"} \/ Whole(p)
(* --- orbitals and couplings ------------------------------------------------------------ *)
Copper(p, i) == p.kind = "ktwoniffour" /\ i % 4 = 3
Orbitals(p, i) == IF Copper(p, i) THEN 1 ELSE p.orb
\* sign of a copper-oxygen bond: minus for the two nearer oxygens y... and x, and the
\* given sign where an oxygen x of every second cell takes part
Sign(p, i, j) ==
  IF p.kind # "ktwoniffour" THEN 1
  ELSE LET mn == Min2(i, j)  mx == Max2(i, j)
           s == IF Copper(p, i) # Copper(p, j) /\ mx - mn < 2 THEN -1 ELSE 1
       IN IF i % 8 = 4 \/ j % 8 = 4 THEN s * p.sgn ELSE s
\* the coupling of orbital a of site i with orbital b of site j
Coupling(p, T, i, a, j, b) ==
  IF Whole(p) THEN p.data[1][1][i * p.orb + a + 1][j * p.orb + b + 1]
  ELSE IF ~Has(T, i, j) THEN Z
  ELSE LET m == p.data[Dir(T, i, j) + 1][IF p.const = 1 THEN 1 ELSE BNum(T, i, j) + 1]
           s == Sign(p, i, j)
       IN IF p.orb = 1 THEN m[1][1]
          ELSE IF i < j THEN CMul(<<s, 0>>, CConj(m[b + 1][a + 1])) ELSE CMul(<<s, 0>>, m[a + 1][b + 1])
\* all of them, site by site and orbital by orbital
States(p) == FlattenSeq(Idx(p.L, LAMBDA i : Idx(Orbitals(p, i - 1), LAMBDA a : <<i - 1, a - 1>>)))
AllCouplings(p, T) == LET s == States(p) IN
  FlattenSeq([x \in DOMAIN s |-> [y \in DOMAIN s |-> Coupling(p, T, s[x][1], s[x][2], s[y][1], s[y][2])]])
\* The printed table leaves out what is not between two sites.
Shown(p, T) == LET s == States(p) IN
  FlattenSeq([x \in DOMAIN s |-> [y \in DOMAIN s |-> IF s[x][1] = s[y][1] THEN Z ELSE Coupling(p, T, s[x][1], s[x][2], s[y][1], s[y][2])]])
\* While the lattice grows, the environment (sites from emin on) stands right after
\* the system (sites up to smax); the star's sites and those of a bath stay where they are.
InCluster(p, i) == FirstOf(p) <= i /\ i < FirstOf(p) + Cluster(p)
StandIn(p, smax, emin, i, j) ==
  IF p.kind = "star" \/ (p.kind = "ladderbath" /\ ~(InCluster(p, i) /\ InCluster(p, j))) THEN j ELSE smax + 1 + j - emin
Growing(p, T, smax, emin) ==
  FlattenSeq(FlattenSeq([i \in 1 .. smax + 1 |-> [j \in 1 .. p.L - emin |->
       FlattenSeq(Idx(Orbitals(p, i - 1), LAMBDA a : Idx(Orbitals(p, emin + j - 1),
         LAMBDA b : Coupling(p, T, i - 1, a - 1, StandIn(p, smax, emin, i - 1, emin + j - 1), b - 1))))]]))
(* --- system, environment and what lies between ------------------------------------------ *)
CeilDiv2(a, n) == (a + n - 1) \div n
Block(n, k) == Idx(n, LAMBDA q : k * n + q - 1)
Refuses(L, n) == n > 1 /\ (L % n # 0 \/ L \div n < 3)
SplitBlocks(L, n, all) ==
  LET total == L \div n
      half == CeilDiv2(CeilDiv2(L, 2), n)      \* blocks that start in the first half
      xs == Max2(half, 1)
      last == total - 1
  IN [S |-> Block(n, 0),
      X |-> Idx(IF all THEN Max2(last - 1, 0) ELSE Max2(Min2(xs, last) - 1, 0), LAMBDA k : Block(n, k)),
      Y |-> IF all THEN <<>> ELSE Idx(Max2(last - xs, 0), LAMBDA k : Block(n, last - k)),
      E |-> IF total > 1 THEN Block(n, last) ELSE <<>>]
Kind(smax, i, j) == IF i <= smax THEN (IF j <= smax THEN 0 ELSE 1) ELSE (IF j <= smax THEN 2 ELSE 3)
=============================================================================
