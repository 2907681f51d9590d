----------------------------- MODULE MCAnalysis -----------------------------
(* Every small polynomial cut at every point, every small bowl searched over a box,
   every small set of roots.                                                          *)
EXTENDS Analysis, Json
CONSTANTS Top, Box
VARIABLES job
Emit(v) == PrintT("@@" \o ToJson(v))
Co == -1 .. Top
Polys == UNION {[1 .. n -> Co] : n \in 1 .. 3}
Ends == -2 .. 2
Ints == {[e |-> "integ", c |-> c, a |-> a, m |-> m, b |-> b] : c \in Polys, a \in Ends, m \in Ends, b \in Ends}
Mats == {<<<<p, q>>, <<q, s>>>> : p, s \in 1 .. Top + 1, q \in -Top .. Top}
Posdef(a) == a[1][1] * a[2][2] > a[1][2] * a[2][1]
Bowls == {[e |-> "bowl", a |-> a, m |-> <<x, y>>, start |-> <<u, v>>] : a \in {z \in Mats : Posdef(z)}, x, y \in -1 .. 1, u, v \in {-Box, 0, Box}}
RootSets == {h \in UNION {[1 .. n -> {-4, -1, 1, 3, 4, 6}] : n \in 1 .. Top} : Cardinality({h[i] : i \in DOMAIN h}) = Len(h)}
Coefs == {-1, 1, 2}
\* a sum of powers of the roots, in units that make the later divisions exact
U0 == 6
RECURSIVE CPw(_, _)
CPw(q, k) == IF k = 0 THEN <<1, 0>> ELSE LET p == CPw(q, k - 1) IN <<q[1] * p[1] - q[2] * p[2], q[1] * p[2] + q[2] * p[1]>>
Powers(h, w, c, n) == [i \in 1 .. n |-> (Total([j \in DOMAIN h |-> w[j] * Pw(h[j], i - 1)])
                                        + Total([j \in DOMAIN c |-> LET p == CPw(c[j], i - 1) IN w[j] * p[1] + p[2]])) * Pw(2, U0 + n - i)]
PairSets == {<<<<a, b>>>> : a \in -1 .. 2, b \in 1 .. 3} \ {<<<<0, 2>>>>}
Lps == UNION {{[e |-> "lp2", h |-> h, c |-> <<>>, w |-> w, n |-> 2 * k] : w \in [1 .. Len(h) -> Coefs], k \in {Len(h), Len(h) + 1}} : h \in RootSets}
       \cup UNION {{[e |-> "lp2", h |-> h, c |-> c, w |-> <<v, 1>>, n |-> 2 * k] : v \in Coefs, c \in PairSets, k \in {Len(h) + 2, Len(h) + 3}} :
                   h \in {<<>>, <<1>>, <<-1>>, <<3>>}}
Gams == [e : {"gamma"}, n : 1 .. 20]
Init == job \in Ints \cup Bowls \cup Lps \cup Gams
Spec == Init /\ [][FALSE /\ UNCHANGED job]_job
Additive == job.e = "integ" => /\ Between(job.c, 60, job.a, job.m) + Between(job.c, 60, job.m, job.b) = Between(job.c, 60, job.a, job.b)
                               /\ Between(job.c, 60, job.a, job.b) = -Between(job.c, 60, job.b, job.a)
                               /\ job.a <= job.m /\ job.m <= job.b => Kinked(job.c, 60, job.m, job.a, job.b) = Between(job.c, 60, job.m, job.b) - Between(job.c, 60, job.a, job.m)
\* substituting 1/x turns the tail from 1 into the part from 0 to 1
Inverts == job.e = "integ" => Far(job.c, 60, 1) = Between(job.c, 60, 0, 1)
\* nothing in the box is lower, and only the minimum is as low
Lowest == job.e = "bowl" => \A x, y \in -Box .. Box : Bowl2(job.a, job.m, 5, <<x, y>>) > 10 \/ <<x, y>> = job.m
\* the sequence obeys the recurrence of its roots
Obeys == job.e = "lp2" => LET y == Powers(job.h, job.w, job.c, job.n + 1)  s == SubSeq(y, 1, job.n)  m == Poly(job.h, job.c) IN
           Whole(s, m, 1) => Follow(s, m, 1) = y
\* with every root within 1, taking out changes nothing
Stays == job.e = "lp2" => LET k == Kept(job.h)  c == KeptPairs(job.c)  m == Poly(k, c) IN (k = job.h /\ c = job.c) \/ m[Len(m)] = 0
Steps == job.e = "gamma" => IF job.n > 2 THEN GammaHalf(job.n) = (IF job.n % 2 = 0 THEN (job.n \div 2 - 1) ELSE job.n - 2) * GammaHalf(job.n - 2) ELSE GammaHalf(job.n) = 1
Emitted == CASE job.e = "integ" -> job.a < job.b /\ job.a <= job.m /\ job.m <= job.b => Emit(job)
             [] job.e = "bowl" -> Emit(job)
             [] job.e = "lp2" -> LET y == Powers(job.h, job.w, job.c, job.n)  p == Len(job.h) + 2 * Len(job.c) IN
                  Whole(y, Poly(Kept(job.h), KeptPairs(job.c)), p) => Emit([e |-> "lp2", u |-> U0 + job.n - 1, y |-> y, h |-> job.h, c |-> job.c])
             [] OTHER -> TRUE
=============================================================================
