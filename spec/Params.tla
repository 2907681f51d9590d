-------------------------------- MODULE Params --------------------------------
(* The parameters of a solver, as an input file sets them.  Several solvers (numbered
   from 0) share a prefix; a setting is found under
       prefix number name      for that solver and the ones after it, until another
                               number sets the same name
       prefix name             for all those left, and for a solver without a number
   and has its default when none of these is in the file.
   A file is a sequence of entries [l |-> label, v |-> value]; values are whole numbers (or
   texts), in a unit of their own each.                                          *)
EXTENDS Lists
Names == <<"Steps", "MinSteps", "Eps", "StepsForEnergyConvergence", "EigsForStop", "Options", "OneOverA", "B", "Energy", "NoSaveLanczosVectors">>
\* the defaults; texts are sequences of character codes
NONE == <<110, 111, 110, 101>>
Default == [n \in {Names[q] : q \in DOMAIN Names} |->
  CASE n = "Steps" -> 200 [] n = "MinSteps" -> 4 [] n = "Eps" -> 1 [] n = "StepsForEnergyConvergence" -> 1000000
    [] n = "EigsForStop" -> 1 [] n = "Options" -> NONE [] OTHER -> 0]
\* an entry's label is [p |-> prefix, i |-> number or -1, n |-> name]
Has(file, p, i, n) == \E q \in DOMAIN file : file[q].p = p /\ file[q].i = i /\ file[q].n = n
Of(file, p, i, n) == file[CHOOSE q \in DOMAIN file : file[q].p = p /\ file[q].i = i /\ file[q].n = n].v
Setting(file, p, ind, n) ==
  LET below == {i \in 0 .. ind : Has(file, p, i, n)} IN
  IF below # {} THEN Of(file, p, CHOOSE i \in below : \A j \in below : j <= i, n)
  ELSE IF Has(file, p, -1, n) THEN Of(file, p, -1, n)
  ELSE Default[n]
Parameters(file, p, ind) == [q \in DOMAIN Names |-> Setting(file, p, ind, Names[q])]
=============================================================================
