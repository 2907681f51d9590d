------------------------------- MODULE TraceT02 -------------------------------
(* A project: its files with their times, what its sources include, and the build file
   last written.  A build is a sequence of events: c (an object), l (a program), strip,
   d (what the sources include is looked up), lib (the library of this package).      *)
EXTENDS BuildFile, TraceBase
Reset(r) == [t |-> <<>>, i |-> <<>>, c |-> 1, d |-> <<>>, lost |-> FALSE]
Put(t, f, c) == Stamp(t, {f}, c)
Incs(p) == <<"-I" \o p \o "../../PsimagLite", "-I" \o p \o "../../PsimagLite/src", "-I" \o p \o "Engine">>
\* the flags that every compilation, and every linking, gets
ForC(d) == IF d.kind = 2 THEN d.cf ELSE d.cf \o Incs(d.path) \o (IF d.kind = 0 THEN d.cadd ELSE <<>>)
ForL(d, link) == IF d.kind = 2 THEN <<"-L../../PsimagLite/lib">> \o d.lf
                 ELSE d.lf \o (IF d.kind = 0 THEN d.ladd ELSE <<>>) \o (IF link = "" THEN <<>> ELSE <<link>>) \o ForC(d)
Of(ev, k) == {q \in DOMAIN ev : ev[q].k = k}
ThisClean(d, f) == Ends(f, ".o") \/ Ends(f, ".a") \/ Ends(f, ".dep") \/ f = "core" \/ (Len(f) > 4 /\ SubSeq(f, 1, 4) = "core")
Here(t) == DOMAIN t \ {PSI, "Config.make"}
Events(d, ev, dep, lib, objs, progs) ==
  /\ Cardinality(Of(ev, "d")) = (IF dep THEN 1 ELSE 0)
  /\ \A q \in Of(ev, "d") : Elems(ev[q].src) = {Cpp(n) : n \in Sources(d)} /\ Len(ev[q].src) = Len(d.drv) /\ SameBag(ev[q].f, ForC(d))
  /\ Cardinality(Of(ev, "lib")) = (IF lib THEN 1 ELSE 0)
  \* every object once, from its source, with the flags
  /\ Cardinality(Of(ev, "c")) = Cardinality(objs)
  /\ \A o \in objs : \E q \in Of(ev, "c") : ev[q].src = <<Cpp(NameOf(d, o))>> /\ SameBag(ev[q].f, ForC(d)) /\ ev[q].obj = <<>>
  \* every program once, from its objects and after them, with the flags, and then stripped
  /\ Cardinality(Of(ev, "l")) = Cardinality(progs) /\ Cardinality(Of(ev, "strip")) = Cardinality(progs)
  /\ \A p \in progs : \E q \in Of(ev, "l") :
       /\ ev[q].out = p /\ SameBag(ev[q].obj, Drv(d, p).objs) /\ ev[q].src = <<>>
       /\ SameBag(ev[q].f, ForL(d, Drv(d, p).link))
       /\ \A u \in Of(ev, "c") : Obj(NameOf(d, SubSeq(ev[u].src[1], 1, Len(ev[u].src[1]) - 4) \o ".o")) \in Elems(Drv(d, p).objs) => u < q
       /\ \A u \in Of(ev, "lib") : Drv(d, p).lib = PSI => u < q
       /\ \E u \in Of(ev, "strip") : u > q /\ ev[u].src = <<p>>
  /\ \A u \in Of(ev, "lib"), q \in Of(ev, "c") : d.kind = 2 => u < q
Judge(r, s) ==
  CASE s.lost -> Ok(s)
    [] r.e = "file" -> When(r.x = 0, [s EXCEPT !.t = Put(@, r.n, s.c), !.c = @ + 1, !.i = (r.n :> Elems(r.i)) @@ @], "a file")
    [] r.e = "touch" -> When(r.x = 0, [s EXCEPT !.t = Put(@, r.n, s.c), !.c = @ + 1], "a newer file")
    [] r.e = "rm" -> When(r.x = 0, [s EXCEPT !.t = [f \in DOMAIN @ \ {r.n} |-> @[f]]], "a file less")
    [] r.e = "write" -> When(r.x = 0, [s EXCEPT !.d = r.d, !.t = Stamp(Put(@, "Config.make", s.c), {"Makefile"}, s.c + 1), !.c = @ + 2], "written")
    [] r.e = "make" ->
         LET d == s.d  t == s.t  g == r.n IN
         IF Lacks(d, t, s.i, IF g = "clean" THEN "" ELSE g) THEN When(r.rc = 1, [s EXCEPT !.lost = TRUE], "a build that fails")
         ELSE IF g = "clean"
         THEN LET t1 == Cleaned(d, t, {f \in Here(t) \cup {DEP} : ThisClean(d, f)}) IN
              When(r.x = 0 /\ r.rc = 0 /\ Elems(r.files) = Here(t1) /\ Events(d, r.ev, MakesDep(d, t), FALSE, {}, {}), [s EXCEPT !.t = t1, !.c = @ + 4], Here(t1))
         ELSE LET t1 == Built(d, t, s.i, g, s.c)
                  objs == MakesObjs(d, t, s.i, g)  progs == MakesProgs(d, t, s.i, g)  dep == MakesDep(d, t)  lib == MakesLib(d, t, g) IN
              When(r.x = 0 /\ r.rc = 0 /\ Elems(r.files) = Here(t1) /\ Events(d, r.ev, dep, lib, objs, progs), [s EXCEPT !.t = t1, !.c = @ + 4],
                   [objs |-> objs, progs |-> progs, dep |-> dep, lib |-> lib, files |-> Here(t1), c |-> ForC(d)])
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
