----------------------------- MODULE TraceImage -----------------------------
(* Judges recorded images: every event is one image written by the code.                      *)
EXTENDS CFBImage, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Why(e) == LET a == IF e.kind = "alloc" THEN AllocWhy(e.a) ELSE DirWhy(e.a) IN a
Init == t \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET w == Why(Traces[t].ev[l])
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED t
        ELSE l' = l + 1 /\ UNCHANGED t /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
=============================================================================
