------------------------------ MODULE MCBuildFile ------------------------------
(* Histories of a small project: files are changed and removed, and builds are asked for.
   Two programs share an object that is none; sources include headers.                *)
EXTENDS BuildFile, Json
CONSTANTS MaxSteps, EmitMod, Kind
VARIABLES t, c, h, made
vars == <<t, c, h, made>>
d == [kind |-> Kind, psi |-> 1, extra |-> <<"x.h">>, more |-> <<>>, gone |-> <<"tmp1">>,
      drv |-> IF Kind = 2 THEN <<[name |-> "a", aux |-> 0, objs |-> <<"a.o">>, lib |-> "", link |-> ""],
                                 [name |-> "b", aux |-> 0, objs |-> <<"b.o">>, lib |-> "", link |-> ""]>>
              ELSE <<[name |-> "a", aux |-> 0, objs |-> <<"a.o", "u.o">>, lib |-> "libz.a", link |-> "-lz"],
                     [name |-> "u", aux |-> 1, objs |-> <<"u.o">>, lib |-> "", link |-> ""],
                     [name |-> "b", aux |-> 0, objs |-> <<"b.o">>, lib |-> "", link |-> ""]>>]
i == [f \in {Cpp(n) : n \in Sources(d)} |-> IF f = "a.cpp" THEN {"p.h"} ELSE IF f = "b.cpp" THEN {"p.h", "q.h"} ELSE {}]
Given == {Cpp(n) : n \in Sources(d)} \cup {"p.h", "q.h", "x.h", "Makefile", "Config.make", "libz.a", "tmp1"}
Changeable == {"a.cpp", "p.h", "x.h", "Makefile", "libz.a"} \cup (IF Kind = 2 THEN {} ELSE {"u.cpp"})
Removable == {"a.o", "b", DEP, PSI}
Targets == {"all", "a", "b.o"}
Init == t = [f \in Given |-> 0] /\ c = 1 /\ h = <<>> /\ made = {}
Say(a, f) == h' = Append(h, <<a, f>>) /\ c' = c + 4
Touch(f) == Has(t, f) /\ t' = Stamp(t, {f}, c) /\ made' = {} /\ Say("touch", f)
Rm(f) == Has(t, f) /\ t' = [x \in DOMAIN t \ {f} |-> t[x]] /\ made' = {} /\ Say("rm", f)
Put(f) == ~Has(t, f) /\ t' = Stamp(t, {f}, c) /\ made' = {} /\ Say("put", f)
Make(g) == /\ ~Lacks(d, t, i, g)
           /\ t' = Built(d, t, i, g, c)
           /\ made' = MakesObjs(d, t, i, g) \cup MakesProgs(d, t, i, g) \cup (IF MakesDep(d, t) THEN {DEP} ELSE {}) \cup (IF MakesLib(d, t, g) THEN {PSI} ELSE {})
           /\ Say("make", g)
Clean == t' = Cleaned(d, t, {"a.o", "b.o", "u.o", "libz.a", DEP}) /\ made' = {} /\ Say("clean", "")
Next == Len(h) < MaxSteps /\ (\/ \E f \in Changeable : Touch(f)
                              \/ \E f \in Removable : Rm(f)
                              \/ \E g \in Targets : Make(g)
                              \/ Put("libz.a")
                              \/ Clean)
Spec == Init /\ [][Next]_vars
LastStep == h[Len(h)]
JustMade(g) == h # <<>> /\ LastStep = <<"make", g>>
\* everything a program comes from, however far
From(f) == IF \E n \in Sources(d) : f = Obj(n) THEN ObjFrom(d, i, NameOf(d, f)) ELSE IF f \in Programs(d) THEN ProgFrom(d, f) ELSE {}
AllFrom(f) == From(f) \cup UNION {From(x) : x \in From(f)}
\* after a build, what was asked for is there and newer than all it comes from
Fresh == JustMade("all") => \A p \in Programs(d) : Has(t, p) /\ \A x \in AllFrom(p) : Has(t, x) /\ (x = PSI \/ t[x] < t[p])
\* another build has nothing to do
Twice == \A g \in Targets : JustMade(g) => /\ MakesObjs(d, t, i, g) = {} /\ MakesProgs(d, t, i, g) = {}
                                           /\ ~MakesDep(d, t) /\ ~MakesLib(d, t, g)
\* building everything leaves nothing for a single program
Whole == JustMade("all") => \A p \in Programs(d) : MakesProgs(d, t, i, p) = {} /\ MakesObjs(d, t, i, p) = {}
\* a build makes only what comes from something that changed since, or was not there
Needed == [][\A g \in Targets : (h' # h /\ h'[Len(h')] = <<"make", g>>) =>
               \A f \in made' \ {DEP} : ~Has(t, f) \/ \E x \in AllFrom(f) : ~Has(t, x) \/ t[x] > t[f]]_vars
Gone == (h # <<>> /\ LastStep[1] = "clean") => \A f \in DOMAIN t : f \in (Given \ {"tmp1", "libz.a"}) \cup {PSI}
Hash == Len(h) + 3 * Cardinality(DOMAIN t) + 7 * Cardinality({k \in DOMAIN h : h[k][1] = "make"}) + 11 * Cardinality({k \in DOMAIN h : h[k][1] = "touch"})
        + 5 * Cardinality({f \in DOMAIN t : t[f] > 4})
Emit == (Len(h) = MaxSteps /\ LastStep[1] = "make" /\ Hash % EmitMod = 0) => PrintT("@@" \o ToJson([d |-> d, h |-> h]))
================================================================================
