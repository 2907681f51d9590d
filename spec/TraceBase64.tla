------------------------------- MODULE TraceBase64 -------------------------------
EXTENDS Base64, TraceBase
Reset(r) == <<>>
Judge(r, s) ==
  CASE r.e = "enc" -> When(r.x = 0 /\ r.got = Encode(r.s) /\ r.got2 = r.got /\ r.back = r.s, s, Encode(r.s))
    [] r.e = "dec" -> When(r.x = 0 /\ r.got = Decode(r.s), s, Decode(r.s))
    [] OTHER -> When(FALSE, s, "unknown record")
Spec == TInit /\ [][TNext(Reset, Judge)]_tvars
=============================================================================
