----------------------------- MODULE MCBisect -----------------------------
(* Halving, for every small piecewise linear function and interval. *)
EXTENDS Bisect, TLC, Json
CONSTANTS Pts, MaxV, MaxN, Tol, EmitMod
VARIABLES f, a0, b0, a, b, n, st
vars == <<f, a0, b0, a, b, n, st>>
Init == /\ f \in [1 .. Pts -> (-MaxV) .. MaxV]
        /\ a0 \in 0 .. Pts - 1 /\ b0 \in 0 .. Pts - 1 /\ a0 # b0
        /\ a = a0 * U /\ b = b0 * U /\ n = 0
        /\ st = IF Bracket(f, a0, b0) THEN "search" ELSE "refused"
        /\ IF EmitMod THEN PrintT("@@" \o ToJson([f |-> f, a |-> a0, b |-> b0])) ELSE TRUE
C == Middle(a, b)
Next == /\ st = "search"
        /\ IF n = MaxN THEN st' = "out" /\ UNCHANGED <<a, b, n>>
           ELSE IF 1024 * Abs1(At1(f, C)) < Tol * U THEN st' = "found" /\ UNCHANGED <<a, b, n>>
           ELSE LET h == Halve(f, a, b) IN a' = h[1] /\ b' = h[2] /\ n' = n + 1 /\ st' = st
        /\ UNCHANGED <<f, a0, b0>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(st \in {"refused", "out", "found"})
Signs == st \in {"search", "out"} => Sgn(At1(f, a)) # Sgn(At1(f, b)) \/ At1(f, a) = 0 \/ At1(f, b) = 0
Halves == Abs1(b - a) * (2 ^ n) = Abs1(b0 - a0) * U
Inside == LET lo == IF a0 < b0 THEN a0 ELSE b0  hi == IF a0 < b0 THEN b0 ELSE a0 IN a >= lo * U /\ a <= hi * U /\ b >= lo * U /\ b <= hi * U
\* after n midpoints the last is within (b - a) / 2^n of a root
Promise == st = "out" => ~Enough(f, a0, b0, MaxN, Tol)
=============================================================================
