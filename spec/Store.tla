-------------------------------- MODULE Store --------------------------------
(* The binary store: files that map names to values, and at most one handle on one
   of them.  A name is a path (a sequence of words); a value is [k |-> kind,
   a |-> the bytes of its elements].  Kinds differ in how they lie in the file:
     Plain     one dataset, replaced as a whole
     Vecs      one dataset, and nothing at all for an empty vector
     Grouped   a group with members, can be overwritten
     Once      never overwritten (the others of the library)
   A file is
     none   it does not exist                    [st |-> "none"]
     ok     it was closed or flushed             [st |-> "ok", m |-> map]
     torn   its writer died after it was flushed [st |-> "torn", m |-> map at the
            flush, dirty |-> names written since]
     bad    its writer died before that          [st |-> "bad"]                   *)
EXTENDS Lists
Plain == {"int", "size", "dbl", "flt", "chr", "uch", "sht", "ush", "uin", "lng", "bool", "enum", "enumc", "vb"}
Vecs == {"vi", "vd", "vf", "vz", "vzf", "vc", "vs", "vuc", "vl"}
Grouped == {"pair", "psb", "vv", "vvz", "vvi", "vvb", "vm", "m", "mz", "mf"}
Once == {"str", "vp", "pm", "st", "ve", "vpm"}
IsPrefix1(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Related(p, q) == IsPrefix1(p, q) \/ IsPrefix1(q, p)
Has(m, p) == p \in DOMAIN m
Parent(p) == SubSeq(p, 1, Len(p) - 1)
ParentOk(m, p) == Len(p) = 1 \/ (Has(m, Parent(p)) /\ m[Parent(p)].k = "group")
Set(m, p, v) == [q \in DOMAIN m \cup {p} |-> IF q = p THEN v ELSE m[q]]
Drop(m, p) == [q \in {q \in DOMAIN m : ~IsPrefix1(p, q)} |-> m[q]]
Grouplike(v) == v.k = "group" \/ v.k \in Grouped \/ v.k \in Once \ {"str"} \/ v.k = "ent"
\* writing v under p: mode 0 never replaces, mode 1 replaces what is there
Put(m, p, v, mode) ==
  IF ~ParentOk(m, p) THEN m
  ELSE IF mode = 0 THEN
    IF Has(m, p) \/ (v.k \in Vecs /\ v.a = <<>>) THEN m ELSE Set(m, p, v)
  ELSE CASE v.k \in Plain -> Set(Drop(m, p), p, v)
         [] v.k \in Vecs -> IF v.a = <<>> THEN Drop(m, p) ELSE Set(Drop(m, p), p, v)
         [] v.k \in Grouped -> IF Has(m, p) /\ ~Grouplike(m[p]) THEN m ELSE Set(m, p, v)
         [] OTHER -> m
\* overwrite(), which expects the name to be there
Over(m, p, v) == IF Has(m, p) THEN Set(m, p, v) ELSE m
Group(m, p) == IF ~ParentOk(m, p) \/ Has(m, p) THEN m ELSE Set(m, p, [k |-> "group", a |-> <<>>])
\* the n-th entry (from 0) of a growing list of values
Entry(m, p, v, n) ==
  IF n = 0 THEN IF ~ParentOk(m, p) \/ Has(m, p) THEN m ELSE Set(m, p, [k |-> "ent", a |-> <<v>>])
  ELSE IF Has(m, p) /\ m[p].k = "ent" /\ n = Len(m[p].a) THEN Set(m, p, [m[p] EXCEPT !.a = Append(@, v)]) ELSE m
\* --- reading -----------------------------------------------------------------
RealOf == [vz |-> "vd", vzf |-> "vf"]
\* the sort of the numbers in a vector; only reals may be read as complex numbers
Sort(k) == IF k \in {"vd", "vf"} THEN "real" ELSE IF k \in {"vz", "vzf"} THEN "complex"
           ELSE IF k \in {"vi", "vc", "vs", "vuc", "vl", "str"} THEN "whole" ELSE ""
\* and several numbers, or packed booleans, are not one number
Clash(v, want) ==
  LET a == Sort(v.k)  b == Sort(want) IN
  \/ a # "" /\ b # "" /\ a # b /\ ~(a = "real" /\ b = "complex")
  \/ want \in Plain \ {"vb"} /\ (v.k = "vb" \/ ((v.k \in Vecs \/ v.k = "str") /\ Len(v.a) > 1))
Bytes(n) == [i \in 1 .. n |-> 0]
\* an empty string, and an empty vector inside another, are not stored: reading
\* them fails
Readable(v, k) ==
  /\ v.k = k \/ (k \in DOMAIN RealOf /\ v.k = RealOf[k])
  /\ v.k = "str" => v.a # <<>>
  /\ v.k \in {"vv", "vvz", "vvi"} => \A q \in DOMAIN v.a : v.a[q] # <<>>
ReadAs(v, k) == IF v.k = k THEN v.a ELSE [q \in DOMAIN v.a |-> v.a[q] \o Bytes(Len(v.a[q]))]
\* --- files and the handle ------------------------------------------------------
None == [st |-> "none"]
NoHandle == [f |-> "", w |-> FALSE, m |-> <<>>, synced |-> FALSE, base |-> <<>>, dirty |-> {}]
Handle(f, w, m, synced, base) == [f |-> f, w |-> w, m |-> m, synced |-> synced, base |-> base, dirty |-> {}]
EmptyMap == [p \in {} |-> 0]
Opens(file, mode) ==
  CASE mode = "trunc" -> TRUE
    [] mode = "excl" -> file.st = "none"
    [] mode = "rdw" -> file.st = "ok"
    [] mode = "read" -> file.st \in {"ok", "torn"}
OpenH(f, file, mode) ==
  IF mode \in {"trunc", "excl"} THEN Handle(f, TRUE, EmptyMap, FALSE, EmptyMap)
  ELSE Handle(f, mode # "read", file.m, TRUE, file.m)
Closed(file, h) == IF h.w THEN [st |-> "ok", m |-> h.m] ELSE file
Flushed(h) == [h EXCEPT !.synced = TRUE, !.base = h.m, !.dirty = {}]
Crashed(file, h) ==
  IF ~h.w THEN file
  ELSE IF ~h.synced THEN [st |-> "bad"]
  ELSE IF h.dirty = {} THEN [st |-> "ok", m |-> h.base]
  ELSE [st |-> "torn", m |-> h.base, dirty |-> h.dirty]
Sure(file, p) == file.st = "ok" \/ \A q \in file.dirty : ~Related(p, q)
=============================================================================
