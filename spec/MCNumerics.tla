----------------------------- MODULE MCNumerics -----------------------------
(* The classic fourth-order steps, one after the other, on every small system whose
   solution is a polynomial; sequences under linear prediction; thermal factors.       *)
EXTENDS Numerics, Json
CONSTANTS N, Top, Full
VARIABLES job, i, y
vars == <<job, i, y>>
V3 == [1 .. 3 -> {0, 1}]
Vec(f) == [k \in 1 .. 3 |-> R(f[k])]
Mats == {[r |-> 3, c |-> 3, a |-> <<<<Z, R(p), R(q)>>, <<Z, Z, R(s)>>, <<Z, Z, Z>>>>] : p, q, s \in (IF Full THEN -1 .. Top ELSE 0 .. Top)}
Polys == {<<>>} \cup {<<Vec(f)>> : f \in V3} \cup {<<Vec(f), Vec(g)>> : f, g \in {h \in V3 : h[1] = 1 \/ Full}}
         \cup {<<VZero(3), Vec(f), Vec(f)>> : f \in V3} \cup {<<Vec(f), VZero(3), VZero(3), Vec(f)>> : f \in V3}
Starts == {Vec(<<1, 1, 1>>), Vec(<<-1, 0, 3>>)} \cup (IF Full THEN {Vec(<<0, 2, 1>>)} ELSE {})
U == 384
Rk == {[e |-> "rk", m |-> m, c |-> c, y0 |-> v, t0 |-> t] : m \in Mats, c \in Polys, v \in Starts, t \in {-1, 2} \cup (IF Full THEN {0} ELSE {})}
RkJobs == {j \in Rk : Polynomial(j.m, j.c, j.y0, j.t0)}
\* g at t2/2 in units of 1/U
Gat(c, t2) == FoldLeft(VAdd, VZero(3), [q \in DOMAIN c |-> VScale(R(Pow(t2, q - 1) * (U \div Pow(2, q - 1))), c[q])])
Half(v) == [k \in DOMAIN v |-> <<v[k][1] \div 2, v[k][2] \div 2>>]
Slope(j, t2, v) == TLCEval(VAdd(TLCEval(MVec(j.m, v)), TLCEval(Gat(j.c, t2))))
Step(j, t, v) ==
  LET k1 == Slope(j, 2 * t, v)
      k2 == Slope(j, 2 * t + 1, TLCEval(VAdd(v, Half(k1))))
      k3 == Slope(j, 2 * t + 1, TLCEval(VAdd(v, Half(k2))))
      k4 == Slope(j, 2 * t + 2, TLCEval(VAdd(v, k3)))
      sum == TLCEval(VAdd(VAdd(k1, k4), VScale(R(2), VAdd(k2, k3)))) IN
  [k \in 1 .. 3 |-> <<v[k][1] + sum[k][1] \div 6, v[k][2]>>]
RECURSIVE Grow(_, _, _)
Grow(s, co, len) == IF Len(s) >= len THEN s
  ELSE Grow(Append(s, FoldLeft(LAMBDA a, q : a + co[q] * s[Len(s) + 1 - q], 0, Idx(Len(co), LAMBDA q : q))), co, len)
Lp1 == {[e |-> "lp", y |-> Grow(<<s>>, <<c>>, 2 * n), p |-> 1, co |-> <<c>>] : s \in 1 .. 3, c \in -2 .. 2, n \in 1 .. 3}
Lp2 == {[e |-> "lp", y |-> Grow(<<s, t>>, <<c, d>>, 2 * n), p |-> 2, co |-> <<c, d>>] : s, t \in -1 .. 2, c, d \in -1 .. 1, n \in 2 .. 3}
Init == \/ job \in RkJobs /\ i = 0 /\ y = VScale(R(U), job.y0)
        \/ job \in Lp1 \cup Lp2 /\ i = 0 /\ y = <<>>
        \/ job \in [e : {"fermi"}, k : -40 .. 40] /\ i = 0 /\ y = <<>>
Next == /\ job.e = "rk" /\ i < N
        /\ y' = Step(job, job.t0 + i, y) /\ i' = i + 1 /\ UNCHANGED job
Spec == Init /\ [][Next]_vars
Emit(v) == PrintT("@@" \o ToJson(v))
\* the method stays on the solution
OnSolution == job.e = "rk" => y = VScale(R(U \div 24), Exact(job.m, job.c, job.y0, job.t0, 1, i))
\* with no g the steps multiply by the factor
Factor == (job.e = "rk" /\ job.c = <<>> /\ i = 1) => Exact(job.m, job.c, job.y0, job.t0, 1, 1) = StepFactor(job.m, 1, job.y0)
\* what obeys a recurrence is given its coefficients
Recurrence == job.e = "lp" => LET d == LpD(job.y, Len(job.y) \div 2, job.p) IN
  /\ d[1] >= 0
  /\ d[1] # 0 => d[2] = [q \in 1 .. job.p |-> d[1] * job.co[q]]
\* of any sequence: no other combination fits better
Resid(s, n, den, co) == FoldLeft(LAMBDA a, k : LET e == den * s[k + 1] - FoldLeft(LAMBDA b, q : b + co[q] * s[k + 1 - q], 0, Idx(Len(co), LAMBDA q : q)) IN a + e * e,
                                 0, [k \in 1 .. n |-> n + k - 1])
Best == job.e = "lp" => LET s == [k \in DOMAIN job.y |-> IF k = Len(job.y) THEN job.y[k] + 1 ELSE job.y[k]]
                            n == Len(s) \div 2  d == LpD(s, n, job.p) IN
  d[1] \in 1 .. 40 => \A co \in [1 .. job.p -> -2 .. 2] : Resid(s, n, d[1], d[2]) <= d[1] * d[1] * Resid(s, n, 1, co)
Thermal == job.e = "fermi" =>
  /\ Fermi(job.k) + Fermi(-job.k) = One30 /\ Fermi(job.k) >= Fermi(job.k + 1)
  /\ Fermi(job.k) \in 0 .. One30 /\ MinusPrime(job.k) \in 0 .. 2 ^ 18
Emitted == i = 0 /\ job.e # "fermi" => Emit(job)
=============================================================================
