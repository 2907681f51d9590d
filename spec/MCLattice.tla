------------------------------ MODULE MCLattice ------------------------------
(* All lattices up to MaxL sites: the drawing of Lattice.tla against the index
   arithmetic of the code, and what every lattice must satisfy; and the splitting
   of a chain of sites into system, blocks and environment as the code walks it.   *)
EXTENDS Lattice, Json
CONSTANTS MaxL
VARIABLES p, phase, i, out
vars == <<p, phase, i, out>>
Base == [kind |-> "chain", L |-> 1, leg |-> 1, px |-> 0, py |-> 0, d |-> 1, b |-> 0, ly |-> 1, sgn |-> 1, orb |-> 1, const |-> 0, n |-> 1, all |-> FALSE]
Ns == 1 .. MaxL
LadderPs == { [Base EXCEPT !.kind = k, !.L = c * l, !.leg = l, !.px = x, !.py = y] : k \in {"ladder", "ladderx"}, c \in Ns, l \in 1 .. 6, x \in {0, 1}, y \in {0, 1} }
Lattices ==
  { [Base EXCEPT !.kind = "longchain", !.L = n, !.px = x, !.d = q] : n \in Ns, x \in {0, 1}, q \in Ns }
  \cup { q \in LadderPs : q.L <= MaxL }
  \cup { q \in { [Base EXCEPT !.kind = "ladderbath", !.L = c * l * (1 + b), !.leg = l, !.b = b, !.px = x, !.py = y] : c \in Ns, l \in 1 .. 4, b \in 0 .. 3, x \in {0, 1}, y \in {0, 1} } : q.L <= MaxL + 4 }
  \cup { [Base EXCEPT !.kind = "star", !.L = n] : n \in Ns }
  \cup { [Base EXCEPT !.kind = "ktwoniffour", !.L = n] : n \in Ns }
  \cup { q \in { [Base EXCEPT !.kind = "Honeycomb", !.L = c * l, !.ly = l, !.px = x, !.py = y] : c \in Ns, l \in {2, 4, 6, 8, 12}, x \in {0, 1}, y \in {0, 1} } : q.L <= 3 * MaxL }
Splits == { [Base EXCEPT !.L = n, !.n = q, !.all = a] : n \in Ns, q \in 1 .. 6, a \in BOOLEAN }
Init == /\ p \in Lattices \cup { [s EXCEPT !.kind = "split"] : s \in Splits }
        /\ phase = IF p.kind = "split" THEN "s" ELSE "done"
        /\ i = 0 /\ out = [S |-> <<>>, X |-> <<>>, Y |-> <<>>, E |-> <<>>, first |-> 0]
(* --- the walk of Geometry::split --------------------------------------------------- *)
Mid == (p.L + 1) \div 2
Seg(a) == Idx(p.n, LAMBDA q : a + q - 1)
SplitStep ==
  \/ phase = "s" /\ Refuses(p.L, p.n) /\ phase' = "refused" /\ UNCHANGED <<p, i, out>>
  \/ phase = "s" /\ ~Refuses(p.L, p.n) /\ out' = [out EXCEPT !.S = Seg(0)] /\ i' = p.n /\ phase' = "x" /\ UNCHANGED p
  \/ phase = "x" /\ (IF i < Mid THEN out' = [out EXCEPT !.X = Append(@, Seg(i))] /\ i' = i + p.n /\ UNCHANGED phase
                     ELSE phase' = "y" /\ out' = [out EXCEPT !.first = i] /\ UNCHANGED i) /\ UNCHANGED p
  \/ phase = "y" /\ (IF i < p.L - p.n
                     THEN /\ out' = IF p.all THEN [out EXCEPT !.X = Append(@, Seg(i))] ELSE [out EXCEPT !.Y = Append(@, Seg(p.L + out.first - i - 2 * p.n))]
                          /\ i' = i + p.n /\ UNCHANGED phase
                     ELSE phase' = "e" /\ UNCHANGED <<i, out>>) /\ UNCHANGED p
  \/ phase = "e" /\ (IF i < p.L THEN out' = [out EXCEPT !.E = Append(@, i)] /\ i' = i + 1 /\ UNCHANGED phase
                     ELSE phase' = "splitdone" /\ UNCHANGED <<i, out>>) /\ UNCHANGED p
Next == SplitStep
Spec == Init /\ [][Next]_vars
SplitAgrees == phase = "splitdone" => LET s == SplitBlocks(p.L, p.n, p.all) IN out.S = s.S /\ out.X = s.X /\ out.Y = s.Y /\ out.E = s.E
EverySiteOnce == phase = "splitdone" =>
  LET s == out.S \o FlattenSeq(out.X) \o FlattenSeq(out.Y) \o out.E IN Len(s) = p.L /\ Elems(s) = Sites(p)
(* --- the code's arithmetic ------------------------------------------------------------ *)
Neigh(a, c, per, period) == LET x == Max2(a, c) - Min2(a, c) IN x = 1 \/ (per /\ x = period)
LadConn(q, a, c) == a # c /\ (IF a \div q.leg = c \div q.leg THEN Neigh(a % q.leg, c % q.leg, Per(q), q.leg - 1)
                             ELSE a % q.leg = c % q.leg /\ Neigh(a \div q.leg, c \div q.leg, q.px = 1, q.L \div q.leg - 1))
DiagConn(q, a, c) == a \div q.leg # c \div q.leg /\ a % q.leg # c % q.leg /\ Neigh(a % q.leg, c % q.leg, Per(q), q.leg - 1) /\ Neigh(a \div q.leg, c \div q.leg, q.px = 1, q.L \div q.leg - 1)
LadNum(q, a, c) == LET mn == Min2(a, c)  mx == Max2(a, c) IN
  IF a \div q.leg # c \div q.leg THEN (IF q.px = 1 /\ mn < q.leg /\ mx = mn + q.L - q.leg THEN mx ELSE mn)
  ELSE IF ~Per(q) THEN mn - mn \div q.leg ELSE IF mn % q.leg = 0 /\ mx = mn + q.leg - 1 THEN mx ELSE mn
CodeConn(a, c) ==
  LET x == Max2(a, c) - Min2(a, c) IN
  CASE p.kind = "longchain" -> a # c /\ p.d < p.L /\ (x = p.d \/ (p.px = 1 /\ x = p.L - p.d))
    [] p.kind = "ladder" -> LadConn(p, a, c)
    [] p.kind = "ladderx" -> LadConn(p, a, c) \/ DiagConn(p, a, c)
    [] p.kind = "star" -> a # c /\ (a = 1 \/ c = 1)
    [] OTHER -> TRUE
CodeNum(a, c) ==
  CASE p.kind = "longchain" -> IF Max2(a, c) - Min2(a, c) = p.d THEN Min2(a, c) ELSE Max2(a, c)
    [] p.kind = "ladder" -> LadNum(p, a, c)
    [] p.kind = "star" -> Max2(a, c) - 1
    [] OTHER -> -1
IsLattice == phase = "done"
TT == Tables(p)
ArithmeticAgrees == IsLattice /\ p.kind \in {"longchain", "ladder", "ladderx", "star"} => LET T == TT IN
  \A a, c \in Sites(p) : /\ Has(T, a, c) = CodeConn(a, c)
                         /\ (Has(T, a, c) /\ p.kind # "ladderx") => BNum(T, a, c) = CodeNum(a, c)
(* --- what every lattice satisfies -------------------------------------------------------- *)
Graph == IsLattice => LET T == TT IN \A a, c \in Sites(p) : (Has(T, a, c) => a # c /\ Dir(T, a, c) \in 0 .. Dirs(p) - 1) /\ T.pair[a][c] = T.pair[c][a]
OwnNumber == IsLattice /\ Numbered(p) => LET T == TT IN
  LET B == {q \in Sites(p) \X Sites(p) : q[1] < q[2] /\ Has(T, q[1], q[2])} IN
  /\ \A q \in B : BNum(T, q[1], q[2]) \in 0 .. Size(p, Dir(T, q[1], q[2])) - 1
  /\ \A q, w \in B : q # w /\ Dir(T, q[1], q[2]) = Dir(T, w[1], w[2]) => BNum(T, q[1], q[2]) # BNum(T, w[1], w[2])
Degree(T, a) == Cardinality({c \in Sites(p) : Has(T, a, c)})
HoneycombDegree == IsLattice /\ p.kind = "Honeycomb" => LET T == TT IN
  \A a \in Sites(p) : /\ Degree(T, a) <= 3
                      /\ (p.px = 1 /\ p.py = 1 /\ p.ly % 4 = 0 /\ p.L > p.ly) => {Dir(T, a, c) : c \in {e \in Sites(p) : Has(T, a, e)}} = 0 .. 2
BathDegree == IsLattice /\ p.kind = "ladderbath" => LET T == TT IN
  /\ \A a \in Sites(p) : (a < FirstOf(p) \/ a >= FirstOf(p) + Cluster(p)) => Degree(T, a) = 1
  /\ \A a \in Sites(p) : (a >= FirstOf(p) /\ a < FirstOf(p) + Cluster(p)) => Cardinality({c \in Sites(p) : Has(T, a, c) /\ Dir(T, a, c) = 2}) = p.b
Symmetries == IsLattice /\ Movable(p) => LET T == TT IN
  /\ \A a \in Sites(p) : Mirror(p, Mirror(p, a)) = a
  /\ p.px = 0 \/ p.kind = "ladder" \/ p.kind = "longchain" => \A a, c \in Sites(p) : Has(T, a, c) = Has(T, Mirror(p, a), Mirror(p, c))
  /\ p.px = 1 => \A m \in 1 .. 3 : \A a, c \in Sites(p) : Has(T, a, c) = Has(T, Shift(p, a, 0, m), Shift(p, c, 0, m))
  /\ p.kind = "ladder" /\ Per(p) => \A m \in 1 .. 3 : \A a, c \in Sites(p) : Has(T, a, c) = Has(T, Shift(p, a, 1, m), Shift(p, c, 1, m))
Emit == phase \in {"done", "splitdone", "refused"} => PrintT("@@" \o ToJson([p EXCEPT !.all = IF p.all THEN 1 ELSE 0]))
=============================================================================
