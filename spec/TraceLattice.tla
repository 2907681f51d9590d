------------------------------ MODULE TraceLattice ------------------------------
EXTENDS Lattice, TraceBase, Bitwise
Reset(r) == [ok |-> FALSE, ps |-> <<>>, ts |-> <<>>, L |-> 0]
(* An input that does not fit its lattice. *)
BadLattice(p) ==
  \/ p.kind \in {"ladder", "ladderx"} /\ (p.leg = 0 \/ p.L % p.leg # 0 \/ (p.leg > 2 /\ p.py = -1))
  \/ p.kind = "ladderbath" /\ (p.L % (1 + p.b) # 0 \/ p.leg = 0 \/ Cluster(p) % p.leg # 0 \/ (p.leg > 2 /\ p.py = -1))
  \/ p.kind = "Honeycomb" /\ p.py = -1
  \/ p.orb = 0
  \/ p.kind \notin {"chain", "longchain", "ladder", "ladderx", "ladderbath", "star", "Honeycomb", "ktwoniffour", "LongRange", "General"}
IsMat(m, n) == Len(m) = n /\ \A k \in DOMAIN m : Len(m[k]) = n
BadData(p) ==
  IF p.junk = 1 THEN TRUE   \* a compact matrix that names a site or an orbital with something that is not a whole number
  ELSE IF Whole(p) THEN ~IsMat(p.data[1][1], p.L * p.orb)
  ELSE \/ Len(p.data) < Dirs(p)
       \/ \E k \in 1 .. Dirs(p) : \/ (p.orb = 1 \/ Size(p, k - 1) > 0) /\ Len(p.data[k]) # Size(p, k - 1)
                                  \/ \E m \in DOMAIN p.data[k] : ~IsMat(p.data[k][m], p.orb)
\* with everything in the system, the order inside the blocks of the second half is free
SameBlocks(x, y, half) == Len(x) = Len(y) /\ \A k \in DOMAIN y : x[k] = y[k] \/ (y[k][1] >= half /\ SameBag(x[k], y[k]))
Refused(ps) == \E t \in DOMAIN ps : (BadLattice(ps[t]) \/ BadData(ps[t]))
Re(s) == [k \in DOMAIN s |-> s[k][1]]
Im(s) == [k \in DOMAIN s |-> s[k][2]]
Union(s, k) == IF \E t \in DOMAIN s.ps : s.ts[t].conn[k] = 1 THEN 1 ELSE 0
Judge(r, s) ==
  CASE r.e = "mk" ->
         IF Refused(r.p) THEN When(r.x = 1, [s EXCEPT !.ok = FALSE], "refused")
         ELSE LET ts == [t \in DOMAIN r.p |-> LET t0 == Tables(r.p[t]) IN [pair |-> t0.pair, conn |-> ConnFlat(r.p[t], t0)]] IN
              When(r.x = 0 /\ r.sites = r.p[1].L /\ r.terms = Len(r.p) /\ r.prefix = <<>>, [ok |-> TRUE, ps |-> r.p, ts |-> ts, L |-> r.p[1].L], "built")
    [] ~s.ok -> When(r.x = 0 /\ "no" \in DOMAIN r, s, "no geometry")
    [] r.e = "graph" ->
         LET p == s.ps[r.t + 1]  T == s.ts[r.t + 1]
             c == [k \in 1 .. s.L * s.L |-> Union(s, k)]
             d == IF r.want > 0 THEN DirFlat(p, T) ELSE Const(s.L * s.L, -1)
             n == IF r.want > 1 THEN NumFlat(p, T) ELSE Const(s.L * s.L, -1)
         IN When(r.x = 0 /\ r.conn = c /\ r.dir = d /\ r.num = n /\ r.dirs = Dirs(p) /\ r.orb = Idx(s.L, LAMBDA i : Orbitals(p, i - 1)), s,
                 [conn |-> c, dir |-> d, num |-> n])
    [] r.e = "move" -> LET p == s.ps[r.t + 1] IN
         IF ~Movable(p) THEN When(r.x = 1, s, "refused") ELSE Same(r, "to", Idx(s.L, LAMBDA i : Shift(p, i - 1, r.dir, r.amount)), s)
    [] r.e = "refl" -> LET p == s.ps[r.t + 1] IN
         IF ~Movable(p) THEN When(r.x = 1, s, "refused") ELSE Same(r, "to", Idx(s.L, LAMBDA i : Mirror(p, i - 1)), s)
    [] r.e = "len" -> LET p == s.ps[r.t + 1] IN
         IF p.kind \in {"ladderx", "ladderbath", "Honeycomb", "ktwoniffour"} THEN When(r.x = 1, s, "refused") ELSE Same(r, "n", Length(p, r.d), s)
    [] r.e = "vals" -> LET v == AllCouplings(s.ps[r.t + 1], s.ts[r.t + 1]) IN When(r.x = 0 /\ r.re = Re(v) /\ r.im = Im(v), s, [re |-> Re(v), im |-> Im(v)])
    [] r.e = "show" -> LET v == Shown(s.ps[Len(s.ps)], s.ts[Len(s.ps)]) IN When(r.x = 0 /\ r.re = Re(v) /\ r.im = Im(v), s, [re |-> Re(v), im |-> Im(v)])
    [] r.e = "grow" ->
         LET p == s.ps[r.t + 1]  T == s.ts[r.t + 1]  v == Growing(p, T, r.smax, r.emin)
             w == s.L - r.emin
         IN When(/\ r.x = 0 /\ r.re = Re(v) /\ r.im = Im(v)
                 \* named the other way round: the same coupling, perhaps conjugated
                 /\ Whole(p) \/ (r.sre = Re(v) /\ Len(r.sim) = Len(v) /\ \A q \in DOMAIN v : r.sim[q] \in {v[q][2], -v[q][2]})
                 /\ \A i \in 0 .. r.smax : \A j \in 1 .. w : Has(T, i, StandIn(p, r.smax, r.emin, i, r.emin + j - 1)) => r.conn[i * w + j] = 1, s, [re |-> Re(v), im |-> Im(v)])
    [] r.e = "kind" -> Same(r, "k", Kind(r.smax, r.i, r.j), s)
    [] r.e = "split" ->
         IF Refuses(s.L, r.n) THEN When(r.x = 1, s, "refused")
         ELSE LET b == SplitBlocks(s.L, r.n, r.all = 1) IN When(r.x = 0 /\ r.S = <<b.S>> /\ SameBlocks(r.X, b.X, CeilDiv2(s.L, 2)) /\ r.Y = b.Y /\ r.E = <<b.E>>, s, b)
    [] r.e = "dca" ->
         IF r.orb = 4 /\ s.ps[1].kind = "star" THEN Same(r, "r", <<r.a ^^ r.b, r.a ^^ r.b>>, s) ELSE When(r.x = 1, s, "refused")
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
