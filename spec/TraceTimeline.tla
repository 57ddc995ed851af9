---------------------------- MODULE TraceTimeline ----------------------------
EXTENDS Timeline, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
\* an empty JSON object is read as an empty sequence
Mobs(o) == IF o = <<>> THEN [x \in {} |-> 0] ELSE o
\* no claim about sequences AAF does not allow
RECURSIVE LegalIn(_)
LegalIn(g) == (g.k = "seq" => Legal(g.kids)) /\ \A i \in 1..Len(g.kids) : LegalIn(g.kids[i])
AllLegal(s) == \A k \in DOMAIN s : \A i \in 1..Len(s[k].slots) : LegalIn(s[k].slots[i].seg)
NoClaim(e) == e.o \in {"at", "walk"} /\ (~AllLegal(st) \/ (e.o = "walk" /\ ~Ends(st, At(st, e), {})))
Why(e, a) ==
  IF NoClaim(e) THEN ""
  ELSE IF e.r # a.r THEN "outcome of " \o e.o \o ": code " \o e.r \o ", specified " \o a.r
  ELSE CASE e.o = "deps" -> IF GoodOrder(st, e.m, e.v) THEN "" ELSE "mobs a mob depends on"
         [] e.o = "list" -> IF Rng(e.v) = a.v /\ Len(e.v) = Cardinality(a.v) THEN "" ELSE "mobs listed (" \o e.what \o ")"
         [] e.o \in {"look", "reopen"} -> IF e.r = "ok" /\ Mobs(e.obs) # a.st THEN "timelines seen after " \o e.o ELSE ""
         [] e.o \in {"at", "positions", "length", "slotat", "target", "walk", "clipfrom"} ->
              IF (e.r = "ok" \/ e.o = "walk") /\ e.v # a.v THEN "answer of " \o e.o ELSE ""
         [] OTHER -> ""
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = Mobs(Traces[t].init)
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         n == NoClaim(e)
         a == IF n THEN [st |-> st, r |-> "ok", v |-> ""] ELSE Apply(st, e)
         w == IF n THEN "" ELSE Why(e, a)
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ PrintT(<<"AT", t, a.r, a.v>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<t, st>>
        ELSE /\ l' = l + 1 /\ st' = a.st /\ UNCHANGED t
             /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
