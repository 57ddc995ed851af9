----------------------------- MODULE TraceMedia -----------------------------
EXTENDS Media, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
\* locators of a recorded description are a sequence
RECURSIVE SeenDesc(_)
SeenDesc(d) == [k |-> d.k, a |-> d.a, fd |-> [i \in 1..Len(d.fd) |-> SeenDesc(d.fd[i])], loc |-> Range(d.loc), g |-> Range(d.g)]
Mobs(o) == [x \in DOMAIN o \ {""} |-> [o[x] EXCEPT !.d = SeenDesc(o[x].d)]]
Part(S, W) == IF S.k # W.k THEN "kind" ELSE IF S.n # W.n THEN "name"
              ELSE IF S.s # W.s THEN (IF Len(S.s) # Len(W.s) THEN "number of slots" ELSE "slot " \o ToString(CHOOSE i \in 1..Len(S.s) : S.s[i] # W.s[i]))
              ELSE IF S.c # W.c THEN "comments" ELSE IF S.t # W.t THEN "times" ELSE IF S.m # W.m THEN "attributes" ELSE IF S.u # W.u THEN "codes" ELSE "description"
Why(e, a) ==
  IF e.r # a.r THEN "outcome of " \o e.o \o ": code " \o e.r \o ", specified " \o a.r
  ELSE IF e.r # "ok" THEN ""
  ELSE CASE e.o \in {"look", "reopen"} ->
              LET s == Mobs(e.obs)
                  D == {x \in DOMAIN s \cup DOMAIN a.st : x \notin DOMAIN s \/ x \notin DOMAIN a.st \/ s[x] # a.st[x]}
                  x == CHOOSE x \in D : TRUE
              IN IF e.n # Cardinality(DOMAIN a.st) THEN "number of mobs after " \o e.o
                 ELSE IF D = {} THEN "" ELSE IF x \in DOMAIN s \cap DOMAIN a.st THEN Part(s[x], a.st[x]) \o " of mob " \o x \o " after " \o e.o ELSE "mob " \o x \o " after " \o e.o
         [] e.o \in {"mxf", "media", "pattern"} -> IF e.v # a.v THEN "what is given by " \o e.o ELSE ""
         [] OTHER -> ""
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [x \in {} |-> 0]
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         a == Apply(st, e)
         w == Why(e, a)
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<t, st>>
        ELSE /\ l' = l + 1 /\ st' = a.st /\ UNCHANGED t
             /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
