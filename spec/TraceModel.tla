----------------------------- MODULE TraceModel -----------------------------
(* Every writable file declares the AAF object model (harness/model.json, texts of definitions by identifier), with the
   pids the standard gives; the others are the library's choice, different and from the dynamic range.  A file may declare more. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Rng(s) == {s[i] : i \in 1..Len(s)}
Has(m, o, k) == {x \in DOMAIN m[k] : ~(x \in DOMAIN o[k]) \/ o[k][x] # m[k][x]}
Pids(m, o) == {x \in DOMAIN m.pid : x \in DOMAIN o.pid /\ IF m.pid[x] # 0 THEN o.pid[x] # m.pid[x] ELSE o.pid[x] \notin 32768..65535}
Twice(o) == {x \in DOMAIN o.pid : o.pid[x] > 32767 /\ \E y \in DOMAIN o.pid : y # x /\ o.pid[y] = o.pid[x]}
Names(m, o) == {x \in DOMAIN m.e : ~(x \in DOMAIN o.e) \/ ~(Rng(m.e[x]) \subseteq Rng(o.e[x]))}
Why(m, o) == CASE Has(m, o, "c") # {} -> "class"
               [] Has(m, o, "t") # {} -> "type"
               [] Has(m, o, "p") # {} -> "property"
               [] Pids(m, o) # {} -> "pid of a property"
               [] Twice(o) # {} -> "pid used twice"
               [] Names(m, o) # {} -> "names of an enumeration"
               [] o.odd # <<>> -> "a definition is not found under its own identifiers"
               [] OTHER -> ""
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l]  w == Why(Traces[t].init.m, e)
           IN IF w # "" THEN PrintT(<<"BAD", t, l, "the object model is not declared: " \o w \o " (" \o e.o \o ")">>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED t
              ELSE l' = l + 1 /\ UNCHANGED t /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
