------------------------------- MODULE TraceM01 -------------------------------
(* r.o: what each process saw.  np = 0: built without MPI, one process.         *)
EXTENDS Processes, TraceBase
Name == [mpi |-> <<109, 112, 105>>, serial |-> <<115, 101, 114, 105, 97, 108>>]
P(s) == IF s.np = 0 THEN 1 ELSE s.np
Of(r, key) == [i \in DOMAIN r.o |-> r.o[i][key]]
Reset(r) == [np |-> r.np]
All(r, key, v) == \A i \in DOMAIN r.o : r.o[i][key] = v
\* nothing sent is left over
Clean(r) == r.x = 0 /\ All(r, "left", 0)
Judge(r, s) ==
  LET np == P(s) IN
  IF Len(r.o) # np THEN When(FALSE, s, "every process")
  ELSE CASE r.e = "id" ->
         LET w == Each(np, r.comm, LAMBDA m, k, i : <<Len(m), k, IF k = 0 THEN 1 ELSE 0, Len(m), k, IF s.np = 0 THEN 0 ELSE 1, 0>>)
             g == [i \in DOMAIN r.o |-> <<r.o[i].size, r.o[i].rank, r.o[i].root, r.o[i].nprocs, r.o[i].rank2, r.o[i].has, r.o[i].b>>] IN
         When(r.x = 0 /\ g = w, s, w)
    [] r.e = "bcast" -> LET w == Bcast(np, r.comm, r.root, r.data) IN When(Clean(r) /\ Of(r, "v") = w, s, w)
    [] r.e = "reduce" -> LET w == Reduce(np, r.comm, r.op, r.all = 1, r.root, r.data, r.fixed) IN When(Clean(r) /\ Of(r, "v") = w, s, w)
    [] r.e = "gather" -> LET w == Gather(np, r.comm, r.root, r.data) IN When(Clean(r) /\ Of(r, "v") = w, s, w)
    [] r.e = "p2p" -> LET w == Moved(np, r.comm, r.items, r.order) IN When(Clean(r) /\ Of(r, "v") = w, s, w)
    [] r.e = "file" -> LET w == FileLines(r.todo) IN When(Clean(r) /\ All(r, "lines", w), s, w)
    [] r.e = "progress" ->
         When(Clean(r) /\ \A i \in DOMAIN r.o : LET k == IF i = 1 THEN r.n ELSE 0 IN r.o[i].count = k /\ r.o[i].any = (IF k > 0 THEN 1 ELSE 0), s, "lines of the first process only")
    [] r.e = "loop" ->
         LET N == r.b - r.a
             sh(m) == [q \in DOMAIN m |-> [p \in DOMAIN r.o[m[q] + 1].did |-> r.o[m[q] + 1].did[p] - r.a]]
             ok(m, k, i) == /\ Partition(sh(m), N)
                            /\ (r.how = 2 \/ Blocks(sh(m), N)) /\ (r.how = 2 => Greedy(sh(m), r.w))
                            /\ r.o[i].as = [p \in DOMAIN r.o[i].did |-> k]
                            /\ r.o[i].seen = [p \in 1 .. N |-> r.a + p - 1]
                            /\ r.o[i].size = Len(m) IN
         When(/\ Clean(r) /\ \A i \in DOMAIN r.o : Each(np, r.comm, ok)[i]
              /\ All(r, "name", IF s.np = 0 THEN Name.serial ELSE Name.mpi), s,
              Each(np, r.comm, LAMBDA m, k, i : Share(r.a, r.b, Len(m), k)))
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
