----------------------------- MODULE TraceValues -----------------------------
(* look: e.obs, object -> property -> value as the API reads it; disk: object -> property -> bytes stored, and absent
   properties are not listed.  Types of the properties: Traces[t].init.ty, "class.property" -> type; Traces[t].init.cls *)
EXTENDS Values, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
I == Traces[t].init
Ty(x, p) == I.types[I.cls[x][p] + 1]
\* an empty JSON object is read as an empty sequence
Props(f) == IF f = <<>> THEN {} ELSE DOMAIN f
Looks(s, e) ==
  IF Props(e.obs) # DOMAIN s THEN "objects seen"
  ELSE IF \E x \in DOMAIN s : Props(e.obs[x]) # DOMAIN s[x] THEN "properties present"
  ELSE IF \E x \in DOMAIN s : \E p \in DOMAIN s[x] : ~Same(s[x][p], e.obs[x][p]) THEN "value of a property"
  ELSE ""
Stored(s, x, p, b) ==
  LET ty == Ty(x, p)  v == s[x][p] IN
  CASE ty.k = "set" -> Len(b) = Cardinality({v.s[i] : i \in 1..Len(v.s)}) * Size(ty.e) /\ Same(Dec(ty, b), v)
    [] OTHER -> Enc(ty, v) = b
\* properties put raw may be stored in another form of the same value
Disk(s, e) ==
  IF \E x \in Props(e.obs) : ~(x \in DOMAIN s) THEN "objects stored"
  ELSE IF \E x \in Props(e.obs) : Props(e.obs[x]) # DOMAIN s[x] THEN "properties stored"
  ELSE IF \E x \in Props(e.obs) : \E p \in DOMAIN s[x] : ~Stored(s, x, p, e.obs[x][p]) THEN "stored bytes of a property"
  ELSE ""
Type(e) == IF e.o = "raw" /\ Ty(e.x, e.p).k = "ind" THEN [k |-> "ind", ty |-> e.ity]
           ELSE IF "p" \in DOMAIN e THEN Ty(e.x, e.p) ELSE [k |-> "none"]
Why(e, a) ==
  CASE e.r # a.r -> "outcome of " \o e.o \o ": code " \o e.r \o ", specified " \o a.r
    [] e.o = "look" -> LET w == Looks(a.st, e) IN IF w = "" THEN "" ELSE w \o " differs from the history"
    [] e.o = "disk" -> LET w == Disk(a.st, e) IN IF w = "" THEN "" ELSE w \o " differs from the history"
    [] OTHER -> ""
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [x \in {} |-> 0]
At(e) == IF e.o = "look" THEN {<<x, p>> \in (DOMAIN st) \X UNION {DOMAIN st[y] : y \in DOMAIN st} : p \in DOMAIN st[x] /\ x \in Props(e.obs) /\ p \in Props(e.obs[x]) /\ ~Same(st[x][p], e.obs[x][p])}
         ELSE IF e.o = "disk" THEN {<<x, p>> \in Props(e.obs) \X UNION {DOMAIN st[y] : y \in DOMAIN st} : p \in DOMAIN st[x] /\ p \in Props(e.obs[x]) /\ ~Stored(st, x, p, e.obs[x][p])}
         ELSE {}
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]  a == Apply(st, e, Type(e))  w == Why(e, a)
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ PrintT(<<"AT", t, At(e)>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<t, st>>
        ELSE /\ l' = l + 1 /\ st' = a.st /\ UNCHANGED t
             /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
