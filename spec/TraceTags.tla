------------------------------ MODULE TraceTags ------------------------------
EXTENDS Tags, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
Empty == [x \in {} |-> 0]
\* an empty JSON object is read as an empty sequence
Map(o) == IF o = <<>> THEN Empty ELSE o
Why(e, a) ==
  IF e.r # a.r THEN "outcome of " \o e.o \o ": code " \o e.r \o ", specified " \o a.r
  ELSE CASE e.o \in {"look", "reopen"} ->
              IF Map(e.obs) # a.st.h THEN "tags seen after " \o e.o ELSE IF Map(e.det) # a.st.d THEN "detached tags" ELSE ""
         [] e.o \in {"idx", "get", "has", "items"} -> IF e.r = "ok" /\ e.v # a.v THEN "answer of " \o e.o ELSE ""
         [] OTHER -> ""
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [h |-> Empty, d |-> Empty]
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         a == Apply(st, e)
         w == Why(e, a)
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<t, st>>
        ELSE /\ l' = l + 1 /\ st' = a.st /\ UNCHANGED t
             /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
