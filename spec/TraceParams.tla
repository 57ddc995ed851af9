----------------------------- MODULE TraceParams -----------------------------
EXTENDS Params, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
Empty == [x \in {} |-> 0]
\* an empty JSON object is read as an empty sequence
Map(o) == IF o = <<>> THEN Empty ELSE o
Why(e, a) ==
  IF e.r # a.r THEN "outcome of " \o e.o \o ": code " \o e.r \o ", specified " \o a.r
  ELSE IF e.r # "ok" THEN ""
  ELSE CASE e.o \in {"look", "reopen"} -> IF Map(e.obs) # a.st THEN "parameters seen after " \o e.o ELSE ""
         [] e.o \in {"idx", "cat"} -> IF e.v # a.v THEN "answer of " \o e.o ELSE ""
         [] e.o = "at" -> IF ValueAt(st[e.x], e.t, e.v) THEN "" ELSE "value at a time"
         [] e.o = "map" -> IF MapOk(st[e.x], e.start, e.end, e.v) THEN "" ELSE "offset map"
         [] OTHER -> ""
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = Empty
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         a == Apply(st, e)
         w == Why(e, a)
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<t, st>>
        ELSE /\ l' = l + 1 /\ st' = a.st /\ UNCHANGED t
             /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
