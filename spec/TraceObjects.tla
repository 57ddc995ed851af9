---------------------------- MODULE TraceObjects ----------------------------
(* Replays recorded histories of open AAF files through Objects!Apply. A "look" event carries *)
(* everything a reader sees: the attached graph of one file and the detached trees held.      *)
EXTENDS Objects, AAFImage, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st

IsRoot(n) == n.cls \in {"cs", "dict"}
\* a root's empty set and an absent one are the same thing
Trim(n, kids) == IF IsRoot(n) THEN [p \in {p \in DOMAIN kids : kids[p] # {}} |-> kids[p]] ELSE kids
SameNode(st2, o) ==
  LET x == o.id  n == st2[x]  v == View1(st2, x)
  IN CASE o.cls # n.cls -> "class"
       [] o.val # n.val -> "value"
       [] o.key # n.key -> "unique key"
       [] DOMAIN o.str # DOMAIN n.str -> "streams present"
       [] \E p \in DOMAIN n.str : o.str[p] # n.str[p] -> "stream contents"
       [] DOMAIN o.kids # DOMAIN Trim(n, v.kids) -> "strong references present"
       [] \E p \in DOMAIN o.kids : Strong(n.cls, p).k = "set" /\ (Range(o.kids[p]) # v.kids[p] \/ ~NoDup(o.kids[p])) -> "members of a set"
       [] \E p \in DOMAIN o.kids : Strong(n.cls, p).k # "set" /\ o.kids[p] # v.kids[p] -> "members of a vector or reference"
       [] DOMAIN o.weak # DOMAIN v.weak -> "weak references present"
       [] \E p \in DOMAIN o.weak : Weak(n.cls, p).k # "wset" /\ o.weak[p] # v.weak[p] -> "target of a weak reference"
       [] \E p \in DOMAIN o.weak : Weak(n.cls, p).k = "wset" /\ (Range(o.weak[p]) # Range(v.weak[p]) \/ ~NoDup(o.weak[p])) -> "members of a weak reference set"
       [] OTHER -> ""
Look(st2, e) ==
  LET ids == {e.obs[i].id : i \in 1..Len(e.obs)}
      want == Reach(st2, RootIds(e.file) \cup Range(e.held))
      bad == {i \in 1..Len(e.obs) : SameNode(st2, e.obs[i]) # ""}
  IN CASE ~(ids \subseteq want) -> "an object appears that should not be there"
       [] ~(want \subseteq ids) -> "an object is missing"
       [] Cardinality(ids) # Len(e.obs) -> "an object appears twice"
       [] bad # {} -> SameNode(st2, e.obs[CHOOSE i \in bad : TRUE])
       [] OTHER -> ""
\* weak references of the attached graph that resolve to nothing (their definition was removed)
Lost(st2, f) == {<<x, p, i>> \in UNION {UNION {{<<x, p, i>> : i \in 1..Len(st2[x].weak[p])} : p \in DOMAIN st2[x].weak} : x \in Attached(st2, f)} :
                   Resolve(st2, f, WeakCls(st2[x].cls, p), st2[x].weak[p][i]) = "?"}
\* what an independent reader finds in the bytes of the closed file
Disk(st2, e) ==
  LET w == FactsWhy(e.facts) IN
  CASE w # "" -> "saved file: " \o w
    [] Unresolved(e.facts) # Cardinality(Lost(st2, e.file)) -> "saved file: weak references without target"
    [] OTHER -> LET v == Look(st2, e) IN IF v = "" THEN "" ELSE "saved file: " \o v \o " differs from the history"
Why(e, a) ==
  CASE e.r # a.r -> "outcome of " \o e.o \o ": code " \o e.r \o ", specified " \o a.r
    [] e.r = "ok" /\ e.o \in {"pop", "popkey", "getitem", "getkey", "mobof", "essof"} /\ e.v # a.v -> "object returned by " \o e.o
    [] e.o = "reopen" /\ e.r = "ok" /\ "same" \in DOMAIN e /\ e.same = 0 /\ ReadOnly(st, e.file) -> "bytes of a file opened for reading changed"
    [] e.o = "reopen" /\ e.r = "ok" /\ "after" \in DOMAIN e /\ e.after # "" -> "after close: " \o e.after
    [] e.o = "disk" -> Disk(a.st, e)
    [] e.o = "look" -> LET w == Look(a.st, e) IN IF w = "" THEN (IF StOk(a.st) THEN "" ELSE "specification state invalid") ELSE w \o " differs from the history"
    [] OTHER -> ""
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = Traces[t].init
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]  a == Apply(st, e)  w == Why(e, a)
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<t, st>>
        ELSE /\ l' = l + 1 /\ st' = a.st /\ UNCHANGED t
             /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
