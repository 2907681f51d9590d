------------------------------ MODULE TraceS02 ------------------------------
(* Every record carries the arrays of all four registers; each must be well
   formed, and what is stored (text stream, file) must come back the same.      *)
EXTENDS Crs, TraceBase
\* reg: the arrays as last seen; file: name -> dense matrix stored under it
NoFile == [q \in {} |-> NoMat]
Reset(r) == [reg |-> Const(4, [r |-> 0, c |-> 0, p |-> <<>>, j |-> <<>>, v |-> <<>>]), file |-> NoFile]
Kept(m, s, but) == \A k \in DOMAIN m : k - 1 \in but \/ m[k] = s[k]
Judge(r, s) ==
  LET t == [s EXCEPT !.reg = r.m] IN
  IF r.x # 0 THEN When(FALSE, s, "no exception")
  ELSE IF ~ \A k \in DOMAIN r.m : WF(r.m[k]) THEN When(FALSE, s, "four well-formed matrices")
  ELSE IF r.e = "text"
  THEN LET A(k) == s.reg[k + 1]
           \* what is written are the registers before the operation
           want(k) == A(r.from[MaxOf(SelectSeq(Idx(Len(r.to), LAMBDA q : q), LAMBDA q : r.to[q] = k - 1))])
           hit(k) == \E q \in DOMAIN r.to : r.to[q] = k - 1 IN
       When(\A k \in DOMAIN r.m : IF hit(k) THEN Dense(r.m[k]) = Dense(want(k)) ELSE r.m[k] = s.reg[k], t, "the matrices written")
  ELSE IF r.e = "eq"                       \* the same storage is equal
  THEN LET a == s.reg[r.a + 1]  b == s.reg[r.b + 1] IN
       When(Kept(r.m, s.reg, {}) /\ r.eq \in {0, 1} /\ (a = b /\ a.r > 0 => r.eq = 1) /\ (Dense(a) # Dense(b) => r.eq = 0), t, a = b)
  ELSE IF r.e = "hw"
  THEN When(Kept(r.m, s.reg, {}), [t EXCEPT !.file = (r.name :> Dense(s.reg[r.a + 1])) @@ s.file], "no register changed")
  ELSE IF r.e = "hr"
  THEN When(Kept(r.m, s.reg, {r.d}) /\ Dense(r.m[r.d + 1]) = s.file[r.name], t, s.file[r.name])
  ELSE Ok(t)
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
