---------------------------- MODULE TraceSession ----------------------------
(* e.r outcome; e.disk what is on the path after the operation (-9: not looked at because it is being written);
   e.kept: 1 iff its bytes (and modification of the file) are those before the operation; e.seen: handle -> content or -1 *)
EXTENDS Session, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
Why(e, a) ==
  CASE a.r # "any" /\ e.r # a.r -> "outcome of " \o e.o \o ": code " \o e.r \o ", specified " \o a.r
    [] a.st.disk # -3 /\ e.disk # a.st.disk -> "content of the path after " \o e.o
    [] a.st.disk # -3 /\ st.disk = a.st.disk /\ e.o # "put" /\ e.kept = 0 -> "bytes of the path changed by " \o e.o
    [] \E h \in DOMAIN e.seen : IsOpen(a.st.h[h]) /\ e.seen[h] # a.st.h[h].v -> "content seen after " \o e.o
    [] OTHER -> ""
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = Empty({"a", "b"})
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]  a == Apply(st, e)  w == IF May(st, e) THEN Why(e, a) ELSE "harness: not allowed"
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<t, st>>
        ELSE /\ l' = l + 1 /\ st' = a.st /\ UNCHANGED t
             /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
