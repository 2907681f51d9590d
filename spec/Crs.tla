--------------------------------- MODULE Crs ---------------------------------
(* Compressed-row sparse matrices: the representation (row pointers p, column
   indices j, values v, all zero-based), what it means (Dense), when it is well
   formed (WF), and the algorithms on the representation as designed: products
   row by row with an accumulator, counting transposition, merged sums.         *)
EXTENDS Cplx
Seg(m, i) == IF m.r = 0 THEN {} ELSE {k \in 1 .. Len(m.v) : m.p[i] < k /\ k <= m.p[i + 1]}
WF(m) ==
  /\ m.r > 0 => /\ Len(m.p) = m.r + 1
                /\ m.p[1] = 0
                /\ \A i \in 1 .. m.r : m.p[i] <= m.p[i + 1]
                /\ m.p[m.r + 1] = Len(m.v)
  /\ m.r = 0 => Len(m.v) = 0
  /\ Len(m.j) = Len(m.v)
  /\ \A k \in DOMAIN m.j : m.j[k] >= 0 /\ m.j[k] < m.c
  /\ \A i \in 1 .. m.r : \A k, l \in Seg(m, i) : k # l => m.j[k] # m.j[l]
Entry(m, i, j) == FoldLeft(LAMBDA acc, k : IF m.j[k] = j - 1 THEN CAdd(acc, m.v[k]) ELSE acc, Z,
                           Idx(m.p[i + 1] - m.p[i], LAMBDA k : m.p[i] + k))
Dense(m) == Mat(m.r, m.c, LAMBDA i, j : Entry(m, i, j))
(* --- the representation built from rows: each row a sequence of <<column, value>> --- *)
FromRows(r, c, rows) ==
  LET cat == FoldLeft(LAMBDA a, x : a \o x, <<>>, rows)
      p == Idx(r + 1, LAMBDA i : Sum(Idx(i - 1, LAMBDA q : Len(rows[q])))) IN
  [r |-> r, c |-> c, p |-> p, j |-> Map(cat, LAMBDA e : e[1]), v |-> Map(cat, LAMBDA e : e[2])]
RowOf(m, i) == Idx(m.p[i + 1] - m.p[i], LAMBDA k : <<m.j[m.p[i] + k], m.v[m.p[i] + k]>>)
FromDense(d) == FromRows(d.r, d.c, Idx(d.r, LAMBDA i :
                  SelectSeq(Idx(d.c, LAMBDA j : <<j - 1, d.a[i][j]>>), LAMBDA e : e[2] # Z)))
\* add <<column, value>> to a row: to the entry of that column if there is one, else a new one at the end
Acc(row, e) == IF \E k \in DOMAIN row : row[k][1] = e[1]
               THEN [k \in DOMAIN row |-> IF row[k][1] = e[1] THEN <<e[1], CAdd(row[k][2], e[2])>> ELSE row[k]]
               ELSE Append(row, e)
AccAll(row, es) == FoldLeft(Acc, row, es)
CrsMul(a, b) ==
  FromRows(a.r, b.c, Idx(a.r, LAMBDA i :
    FoldLeft(LAMBDA row, e : AccAll(row, Map(RowOf(b, e[1] + 1), LAMBDA f : <<f[1], CMul(e[2], f[2])>>)), <<>>, RowOf(a, i))))
CrsPlus(a, s, b, t) ==
  LET R == Max2(a.r, b.r) IN
  FromRows(R, Max2(a.c, b.c), Idx(R, LAMBDA i :
    SelectSeq(AccAll(IF i <= a.r THEN Map(RowOf(a, i), LAMBDA e : <<e[1], CMul(s, e[2])>>) ELSE <<>>,
                     IF i <= b.r THEN Map(RowOf(b, i), LAMBDA e : <<e[1], CMul(t, e[2])>>) ELSE <<>>),
              LAMBDA e : e[2] # Z)))
CrsDag(a) ==
  FromRows(a.c, a.r, Idx(a.c, LAMBDA j :
    FoldLeft(LAMBDA row, i : row \o Map(SelectSeq(RowOf(a, i), LAMBDA e : e[1] = j - 1), LAMBDA e : <<i - 1, CConj(e[2])>>),
             <<>>, Idx(a.r, LAMBDA i : i))))
(* --- dense meaning of the operations ------------------------------------------ *)
Embed(m, r, c) == Mat(r, c, LAMBDA i, j : IF i <= m.r /\ j <= m.c THEN m.a[i][j] ELSE Z)
\* sums of matrices of different sizes: the smaller one stands in the upper left corner
Plus(x, s, y, t) == LET r == Max2(x.r, y.r)  c == Max2(x.c, y.c) IN
                    MAdd(MScale(s, Embed(x, r, c)), MScale(t, Embed(y, r, c)))
Triplets(n, c, rr, cc, vv) == Mat(n, c, LAMBDA i, j :
   FoldLeft(LAMBDA acc, k : IF rr[k] = i - 1 /\ cc[k] = j - 1 THEN CAdd(acc, vv[k]) ELSE acc, Z, Idx(Len(rr), LAMBDA k : k)))
Block(full, b, off) == Mat(full.r, full.c, LAMBDA i, j :
   IF i > off /\ i <= off + b.r /\ j > off /\ j <= off + b.c THEN b.a[i - off][j - off] ELSE Z)
SignDiag(sg) == Mat(Len(sg), Len(sg), LAMBDA i, j : IF i = j THEN <<sg[i], 0>> ELSE Z)
\* entry (i,j) of x goes to (perm[i], perm[j])
Permuted(x, perm) == LET inv == [q \in 1 .. x.r |-> CHOOSE i \in 1 .. x.r : perm[i] = q - 1] IN
                     Mat(x.r, x.c, LAMBDA i, j : x.a[inv[i]][inv[j]])
\* order: the first matrix varies fastest.  Index of Kron(x, y): x slow, y fast.
External1(a, nout, sg, order, perm) ==
  Permuted(IF order = 1 THEN Kron(IdM(nout), a) ELSE Kron(a, SignDiag(Idx(nout, LAMBDA i : sg[i]))), perm)
External2(a, b, sg, order, perm) ==
  Permuted(IF order = 1 THEN Kron(b, MMul(SignDiag(sg), a)) ELSE Kron(a, MMul(SignDiag(sg), b)), perm)
MNorm2(x) == Sum(Idx(x.r, LAMBDA i : Sum(Idx(x.c, LAMBDA j : CNorm2(x.a[i][j])))))
(* --- the machine: four registers of dense matrices ------------------------------ *)
MatOf(r) == [r |-> r.rows, c |-> r.cols, a |-> Idx(r.rows, LAMBDA i : Idx(r.cols, LAMBDA j : r.a[(i - 1) * r.cols + j]))]
NoMat == [r |-> 0, c |-> 0, a |-> <<>>]
Step(r, s) ==
  LET A(k) == s[k + 1]  To(x) == [s EXCEPT ![r.d + 1] = x] IN
  CASE r.e \in {"dense", "fromfull"} -> To(MatOf(r))
    [] r.e = "trip" -> To(Triplets(r.n, r.n, r.rr, r.cc, r.vv))
    [] r.e = "build" -> To(Triplets(r.rows, r.cols, r.rr, r.cc, r.vv))
    [] r.e = "clear" -> To(NoMat)
    [] r.e = "empty" -> To(ZeroM(r.rows, r.cols))
    [] r.e = "diag" -> To(MScale(r.s, IdM(r.n)))
    [] r.e \in {"copy", "copyctor"} -> To(A(r.a))
    [] r.e = "swap" -> [s EXCEPT ![r.d + 1] = A(r.a), ![r.a + 1] = A(r.d)]
    [] r.e = "mul" -> To(MMul(A(r.a), A(r.b)))
    [] r.e = "dag" -> To(Dag(A(r.a)))
    [] r.e = "plus" -> To(Plus(A(r.a), r.s, A(r.b), r.t))
    [] r.e = "pluseq" -> To(Plus(A(r.d), ONE, A(r.a), ONE))
    [] r.e = "plusseq" -> To(Plus(A(r.d), ONE, A(r.a), r.s))
    [] r.e = "plussmul" -> To(Plus(A(r.d), ONE, MMul(A(r.a), A(r.b)), r.s))
    [] r.e = "scaled" -> To(MScale(r.s, A(r.a)))
    [] r.e = "sum" -> To(LET n == Len(r.w)
                             rr == MaxOf(Idx(n, LAMBDA k : A(r.w[k]).r))
                             cc == MaxOf(Idx(n, LAMBDA k : A(r.w[k]).c)) IN
                         FoldLeft(LAMBDA acc, k : Plus(acc, ONE, A(r.w[k]), r.f[k]), ZeroM(rr, cc), Idx(n, LAMBDA k : k)))
    [] r.e = "scale" -> To(MScale(r.s, A(r.d)))
    [] r.e = "conj" -> To(ConjM(A(r.d)))
    [] r.e = "block" -> To(Block(A(r.d), A(r.b), r.off))
    [] r.e = "ext1" -> To(External1(A(r.a), r.nout, r.sg, r.order, r.perm))
    [] r.e = "ext2" -> To(External2(A(r.a), A(r.b), r.sg, r.order, r.perm))
    [] r.e = "text" -> [k \in DOMAIN s |-> IF \E q \in DOMAIN r.to : r.to[q] = k - 1
                                           THEN A(r.from[MaxOf(SelectSeq(Idx(Len(r.to), LAMBDA q : q), LAMBDA q : r.to[q] = k - 1))])
                                           ELSE s[k]]
    [] OTHER -> s
=============================================================================
