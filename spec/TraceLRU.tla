------------------------------ MODULE TraceLRU ------------------------------
EXTENDS LRU, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
Why(e, a) ==
  CASE e.r # a.r -> "outcome of " \o e.o
    [] e.r = "ok" /\ e.v # a.v /\ e.o # "set" /\ e.o # "del" -> "value returned by " \o e.o
    [] e.keys # <<-1>> /\ {e.keys[i] : i \in 1..Len(e.keys)} # DOMAIN a.st.m -> "keys held after " \o e.o
    [] OTHER -> ""
Op(e) == IF e.o = "set" THEN [o |-> e.o, k |-> e.k, v |-> e.w] ELSE [o |-> e.o, k |-> e.k]
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = EmptyLRU(Traces[t].init)
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]  a == Apply(st, Op(e))  w == Why(e, a)
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<t, st>>
        ELSE /\ l' = l + 1 /\ st' = a.st /\ UNCHANGED t
             /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
