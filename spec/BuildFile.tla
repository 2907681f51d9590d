------------------------------- MODULE BuildFile -------------------------------
(* What a written build file does.  d describes the programs asked for:
     kind   0, 1, 2: which of the three writers
     drv    <<[name, aux, objs, lib]>>   objs: the objects a program is linked from;
            aux: only an object; lib: "" or the library it is linked with
     extra  files every object depends on;  more: further files that `all' stands for
     gone   further files that cleaning removes
     inc, cf, lf, dflags: flags (see TraceT02)
   The files are a function t from names to times: a file is made again when it is
   missing or older than something it is made from.  i gives what a source includes. *)
EXTENDS Lists, TLC
PSI == "@libpsimaglite.a"
Sources(d) == {d.drv[k].name : k \in DOMAIN d.drv}
Drv(d, n) == d.drv[CHOOSE k \in DOMAIN d.drv : d.drv[k].name = n]
Programs(d) == {n \in Sources(d) : Drv(d, n).aux = 0}
Cpp(n) == n \o ".cpp"
Obj(n) == n \o ".o"
DEP == "Makefile.dep"
\* what each file is made from
DepFrom(d) == {Cpp(n) : n \in Sources(d)} \cup Elems(d.extra)
LibOfObjects(d) == IF d.kind = 2 /\ d.psi = 1 THEN {PSI} ELSE {}
ObjFrom(d, i, n) == {Cpp(n), "Makefile"} \cup Elems(d.extra) \cup i[Cpp(n)] \cup LibOfObjects(d) \cup (IF d.kind = 1 THEN {"Config.make"} ELSE {})
ProgFrom(d, n) == Elems(Drv(d, n).objs) \cup (IF Drv(d, n).lib = "" THEN {} ELSE {Drv(d, n).lib})
Has(t, f) == f \in DOMAIN t
Old(t, f, from) == ~Has(t, f) \/ \E x \in from : Has(t, x) /\ t[x] > t[f]
\* what a target stands for
Wanted(d, target) == IF target = "all" THEN Programs(d) ELSE IF target \in Programs(d) THEN {target} ELSE {}
ObjectsFor(d, target) ==
  IF \E n \in Sources(d) : target = Obj(n) THEN {target} ELSE UNION {Elems(Drv(d, p).objs) : p \in Wanted(d, target)}
NameOf(d, o) == CHOOSE n \in Sources(d) : Obj(n) = o
Known(d, o) == \E n \in Sources(d) : Obj(n) = o
LibsFor(d, target) == (IF ObjectsFor(d, target) = {} THEN {} ELSE LibOfObjects(d)) \cup ({Drv(d, p).lib : p \in Wanted(d, target)} \ {""})
\* a build cannot be completed when something is missing that nothing makes
Lacks(d, t, i, target) ==
  \/ \E x \in DepFrom(d) : ~Has(t, x)
  \/ \E o \in ObjectsFor(d, target) : IF Known(d, o) THEN \E x \in ObjFrom(d, i, NameOf(d, o)) \ {PSI} : ~Has(t, x) ELSE ~Has(t, o)
  \/ \E x \in LibsFor(d, target) \ {PSI} : ~Has(t, x)
  \/ target = "all" /\ \E x \in Elems(d.more) : ~Has(t, x)
\* what a build makes
MakesDep(d, t) == Old(t, DEP, DepFrom(d))
MakesLib(d, t, target) == PSI \in LibsFor(d, target) /\ ~Has(t, PSI)
MakesObjs(d, t, i, target) ==
  {o \in ObjectsFor(d, target) : Known(d, o) /\ (Old(t, o, ObjFrom(d, i, NameOf(d, o))) \/ (LibOfObjects(d) # {} /\ MakesLib(d, t, target)))}
MakesProgs(d, t, i, target) ==
  {p \in Wanted(d, target) : \/ Old(t, p, ProgFrom(d, p))
                             \/ Elems(Drv(d, p).objs) \cap MakesObjs(d, t, i, target) # {}
                             \/ Drv(d, p).lib = PSI /\ MakesLib(d, t, target)}
Stamp(t, fs, c) == [f \in DOMAIN t \cup fs |-> IF f \in fs THEN c ELSE t[f]]
Built(d, t, i, target, c) ==
  Stamp(Stamp(Stamp(Stamp(t, IF MakesDep(d, t) THEN {DEP} ELSE {}, c),
                    IF MakesLib(d, t, target) THEN {PSI} ELSE {}, c + 1),
              MakesObjs(d, t, i, target), c + 2),
        MakesProgs(d, t, i, target), c + 3)
\* cleaning removes the programs and what is made on the way to them, here
Ends(f, e) == \E n \in Len(f) .. Len(f) : Len(e) < n /\ SubSeq(f, n - Len(e) + 1, n) = e
Cleaned(d, t, named) == [f \in DOMAIN t \ (Programs(d) \cup named \cup Elems(d.gone)) |-> t[f]]
================================================================================
