----------------------------- MODULE TraceMeta -----------------------------
(* Histories of two files.  Every event but new and set carries the declarations read afterwards (e.st), through the API,
   or by an independent reader from the closed file (disk).  Definitions are compared as texts, u.cls[c].d and so on. *)
EXTENDS Meta, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, fs, obj
U == Traces[t].init.u
\* an empty JSON object is read as an empty sequence
Keys(f) == IF f = <<>> THEN {} ELSE DOMAIN f
\* enumerations of the built-in model
T0 == {x \in DOMAIN U.typ : U.typ[x].d = ""}
Of(o) == [c |-> Keys(o.c), t |-> Keys(o.t) \cup T0, p |-> [x \in Keys(o.pid) |-> o.pid[x]], e |-> [x \in Keys(o.e) |-> Rng(o.e[x])]]
Faithful(o) ==
  CASE o.odd # <<>> -> "a definition is not found under its own identifiers"
    [] ~(Keys(o.c) \subseteq Keys(U.cls)) \/ ~(Keys(o.t) \subseteq Keys(U.typ)) \/ ~(Keys(o.p) \subseteq Keys(U.prop)) -> "definitions from nowhere"
    [] \E x \in Keys(o.c) : o.c[x] # U.cls[x].d -> "definition of a class"
    [] \E x \in Keys(o.t) : o.t[x] # U.typ[x].d -> "definition of a type"
    [] \E x \in Keys(o.p) : o.p[x] # U.prop[x].d -> "definition of a property"
    [] \E x \in Keys(o.e) : Len(o.e[x]) # Cardinality(Rng(o.e[x])) -> "enumeration lists a name twice"
    [] OTHER -> ""
RECURSIVE Same(_, _), Stored(_, _)
Same(a, b) == a.cls = b.cls /\ Keys(a.vals) = Keys(b.vals)
              /\ \A p \in Keys(a.vals) : LET v == a.vals[p]  w == b.vals[p] IN
                   v.k = w.k /\ IF v.k = "os" THEN Len(v.s) = Len(w.s) /\ \A i \in 1..Len(v.s) : Same(v.s[i], w.s[i]) ELSE v.n = w.n
Stored(o, w) == o.cls = w.cls /\ Keys(o.vals) = Rng(w.vals) /\ Len(w.vals) = Cardinality(Rng(w.vals))
                /\ {p \in Keys(o.vals) : o.vals[p].k = "os"} = {w.kids[i][1] : i \in 1..Len(w.kids)}
                /\ \A i \in 1..Len(w.kids) : LET s == o.vals[w.kids[i][1]].s IN
                     Len(s) = Len(w.kids[i][2]) /\ \A j \in 1..Len(s) : Stored(s[j], w.kids[i][2][j])
Why(e, g, nobj) ==
  IF e.r # Outcome(U, fs, e) THEN "outcome of " \o e.o \o ": code " \o e.r \o ", specified " \o Outcome(U, fs, e)
  ELSE LET w == IF e.o \in {"new", "set"} THEN "" ELSE Faithful(e.st) IN
  IF w # "" THEN w \o " (" \o e.o \o ")"
  ELSE IF ~Change(U, fs, obj, e, g) THEN "declarations after " \o e.o
  ELSE IF ~(Rng(U.std) \subseteq DOMAIN g.p) THEN "part of the built-in model is missing after " \o e.o
  ELSE IF ~FileOk(U, g) THEN "declarations do not hold together after " \o e.o
  ELSE IF e.o \in {"look", "disk"} /\ Keys(e.obs) # DOMAIN obj[e.f] THEN "objects seen (" \o e.o \o ")"
  ELSE IF e.o = "look" /\ \E x \in DOMAIN obj[e.f] : ~Same(obj[e.f][x], e.obs[x]) THEN "an object differs from what was stored"
  ELSE IF e.o = "disk" /\ \E x \in DOMAIN obj[e.f] : ~Stored(obj[e.f][x], e.obs[x]) THEN "an object differs on disk from what was stored"
  ELSE IF \E x \in DOMAIN nobj[e.f] : ~ObjOk(U, g, nobj[e.f][x]) THEN "an object holds a property its class does not have"
  ELSE ""
At(e, g) == IF e.o \in {"new", "set"} THEN {} ELSE
  [c |-> {x \in Keys(e.st.c) : x \in Keys(U.cls) /\ e.st.c[x] # U.cls[x].d} \cup (fs[e.f].c \ g.c), t |-> {<<x, e.st.t[x]>> : x \in {y \in Keys(e.st.t) : y \in Keys(U.typ) /\ e.st.t[y] # U.typ[y].d}} \cup (fs[e.f].t \ g.t),
   newc |-> g.c \ fs[e.f].c, newt |-> g.t \ fs[e.f].t, newp |-> {<<x, g.p[x]>> : x \in (DOMAIN g.p) \ DOMAIN fs[e.f].p},
   pids |-> {x \in DOMAIN fs[e.f].p : x \in DOMAIN g.p => g.p[x] # fs[e.f].p[x]},
   el |-> {<<x, g.e[x]>> : x \in {y \in DOMAIN g.e : y \in DOMAIN fs[e.f].e => fs[e.f].e[y] # g.e[y]}}, gone |-> DOMAIN fs[e.f].e \ DOMAIN g.e,
   obs |-> IF e.o = "look" THEN {<<x, obj[e.f][x], e.obs[x]>> : x \in {y \in DOMAIN obj[e.f] : y \in Keys(e.obs) /\ ~Same(obj[e.f][y], e.obs[y])}} ELSE {}]
Init == t \in 1..Len(Traces) /\ l = 1 /\ fs = [x \in {"A", "B"} |-> Of(Traces[t].init.f[x])] /\ obj = [x \in {"A", "B"} |-> None]
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         g == IF e.o \in {"new", "set"} THEN fs[e.f] ELSE Of(e.st)
         nobj == IF e.r = "ok" THEN Objs(obj, e) ELSE obj
         w == Why(e, g, nobj)
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ PrintT(<<"AT", t, At(e, g)>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<t, fs, obj>>
        ELSE /\ l' = l + 1 /\ fs' = [fs EXCEPT ![e.f] = g] /\ obj' = nobj /\ UNCHANGED t
             /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
