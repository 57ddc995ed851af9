------------------------------ MODULE TraceIds ------------------------------
EXTENDS Ids, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
Why(e, a) ==
  IF e.r # a.r THEN "outcome of " \o e.o \o ": code " \o e.r \o ", specified " \o a.r
  ELSE IF e.r = "ok" /\ e.o \in {"forms", "mforms", "cmp", "sort", "file"} /\ e.v # a.v
       THEN LET D == {k \in DOMAIN a.v : k \notin DOMAIN e.v \/ e.v[k] # a.v[k]} IN "answer of " \o e.o \o (IF D = {} THEN "" ELSE " in " \o (CHOOSE k \in D : TRUE))
  ELSE ""
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [a |-> [x \in {} |-> 0], m |-> [x \in {} |-> 0]]
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         a == Apply(st, e)
         w == Why(e, a)
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<t, st>>
        ELSE /\ l' = l + 1 /\ st' = a.st /\ UNCHANGED t
             /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
