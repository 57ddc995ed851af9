---------------------------- MODULE TraceEssence ----------------------------
EXTENDS Essence, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
\* an empty JSON object is read as an empty sequence; slots come as a sequence of <<id, slot>>
Map(o) == IF o = <<>> THEN [x \in {} |-> 0] ELSE o
Slots(s) == [i \in {s[j][1] : j \in 1..Len(s)} |-> s[CHOOSE j \in 1..Len(s) : s[j][1] = i][2]]
Mob(m) == [k |-> m.k, d |-> m.d, s |-> Slots(m.s)]
Seen(o) == [f \in DOMAIN o |-> [m |-> LET x == Map(o[f].m) IN [k \in DOMAIN x |-> Mob(x[k])], e |-> Map(o[f].e)]]
Why(e, a) ==
  IF e.r # a.r THEN "outcome of " \o e.o \o ": code " \o e.r \o ", specified " \o a.r
  ELSE IF e.r # "ok" THEN ""
  ELSE CASE e.o \in {"look", "reopen"} ->
              LET s == Seen(e.obs) IN
              IF \E f \in DOMAIN s : s[f].e # a.st[f].e THEN "essence seen after " \o e.o
              ELSE LET D == {y \in {"A", "B"} \X UNION {DOMAIN s[f].m \cup DOMAIN a.st[f].m : f \in {"A", "B"}} :
                              LET S == s[y[1]].m  W == a.st[y[1]].m IN (y[2] \in DOMAIN S) # (y[2] \in DOMAIN W) \/ (y[2] \in DOMAIN S /\ S[y[2]] # W[y[2]])}
                       y == CHOOSE y \in D : TRUE
                   IN IF D # {} THEN "mob " \o y[2] \o " of " \o y[1] \o " after " \o e.o ELSE ""
         [] e.o \in {"export", "read"} -> IF e.v # a.v THEN "bytes of " \o e.o ELSE ""
         [] OTHER -> ""
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [f \in {"A", "B"} |-> [m |-> [x \in {} |-> 0], e |-> [x \in {} |-> 0]]]
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         a == Apply(st, e)
         w == Why(e, a)
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<t, st>>
        ELSE /\ l' = l + 1 /\ st' = a.st /\ UNCHANGED t
             /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
