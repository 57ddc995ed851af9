-------------------------------- MODULE Meta --------------------------------
(* The meta dictionary of a file: the classes, properties and types it declares beyond the built-in model.
   Definitions are identified by AUID and never change; a file declares some of them.

   u  the definitions in play
      u.cls   class id -> [parent, ...]                 u.line  class id -> the class and its ancestors
      u.prop  property id -> [cls, typ, pid, ...]       pid = 0: allocated by the library
      u.typ   type id -> [refs |-> seq of type ids, crefs |-> seq of class ids, els |-> seq of names, ...]
      u.ext   [c, t, p |-> seqs] the optional extension model
   f  one file: [c |-> class ids, t |-> type ids, p |-> property id -> local pid, e |-> enumeration id -> names]
   Built-in definitions are not listed anywhere.
   Values [k |-> "v", n] | [k |-> "os", s |-> seq of objects]; objects [cls, vals |-> property id -> value]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Dyn == 32768..65535
None == [q \in {} |-> 0]
EmptyFile == [c |-> {}, t |-> {}, p |-> None, e |-> None]

\* ---------------------------------------------------------------- closure
Refs(u, ts) == UNION {Rng(u.typ[t].refs) : t \in ts \cap DOMAIN u.typ} \cap DOMAIN u.typ
CRefs(u, ts) == UNION {Rng(u.typ[t].crefs) : t \in ts \cap DOMAIN u.typ}
Lines(u, cs) == UNION {IF c \in DOMAIN u.line THEN Rng(u.line[c]) ELSE {c} : c \in cs}
TypesOf(u, ps) == {u.prop[p].typ : p \in ps} \cap DOMAIN u.typ
\* everything classes cs and types ts rest on, with those properties in ps that belong to the classes met
RECURSIVE Close(_, _, _, _)
Close(u, ps, cs, ts) ==
  LET c2 == Lines(u, cs) \cup Lines(u, CRefs(u, ts))
      p2 == {p \in ps : u.prop[p].cls \in c2}
      t2 == ts \cup Refs(u, ts) \cup TypesOf(u, p2)
  IN IF c2 = cs /\ t2 = ts THEN [c |-> cs \cap DOMAIN u.cls, t |-> ts, p |-> p2] ELSE Close(u, ps, c2, t2)

\* an object with everything in it
RECURSIVE Classes(_), Props(_)
Kids(o) == UNION {IF o.vals[p].k = "os" THEN Rng(o.vals[p].s) ELSE {} : p \in DOMAIN o.vals}
Classes(o) == {o.cls} \cup UNION {Classes(k) : k \in Kids(o)}
Props(o) == DOMAIN o.vals \cup UNION {Props(k) : k \in Kids(o)}
\* what a copy of o must bring, and what it may bring, from file f
Needed(u, f, o) == Close(u, Props(o) \cap DOMAIN f.p, Classes(o), TypesOf(u, Props(o) \cap DOMAIN f.p))
Brings(u, f, o) == Close(u, DOMAIN f.p, Classes(o), {})

\* --------------------------------------------------------------- invariants
\* two properties an object can have together have different pids; those the library gives are unique in a file
Related(u, p, q) == u.prop[p].cls \in Lines(u, {u.prop[q].cls}) \/ u.prop[q].cls \in Lines(u, {u.prop[p].cls})
PidsOk(u, f) == Cardinality({f.p[p] : p \in DOMAIN f.p}) = Cardinality(DOMAIN f.p) \/ \A p, q \in DOMAIN f.p : p # q /\ f.p[p] = f.p[q] => f.p[p] \notin Dyn /\ ~Related(u, p, q)
Closed(u, f) ==
  /\ \A c \in f.c : Lines(u, {c}) \cap DOMAIN u.cls \subseteq f.c
  /\ \A p \in DOMAIN f.p : u.prop[p].cls \in f.c \cup (DOMAIN u.line \ DOMAIN u.cls) /\ u.prop[p].typ \in f.t \cup {"builtin"}
  /\ \A t \in f.t : Refs(u, {t}) \subseteq f.t /\ CRefs(u, {t}) \cap DOMAIN u.cls \subseteq f.c
  /\ DOMAIN f.e = {t \in f.t : u.typ[t].els # <<>>}
  /\ \A t \in DOMAIN f.e : Rng(u.typ[t].els) \subseteq f.e[t]
FileOk(u, f) == Closed(u, f) /\ PidsOk(u, f)
\* every value an object of the file holds is one of a property its class has there
RECURSIVE ObjOk(_, _, _)
ObjOk(u, f, o) ==
  /\ o.cls \in f.c \cup (DOMAIN u.line \ DOMAIN u.cls)
  /\ \A p \in DOMAIN o.vals : p \in DOMAIN f.p /\ u.prop[p].cls \in Lines(u, {o.cls})
  /\ \A k \in Kids(o) : ObjOk(u, f, k)

\* ------------------------------------------------------------------- changes
\* f grows into g and keeps what it had
Grows(f, g) == f.c \subseteq g.c /\ f.t \subseteq g.t /\ DOMAIN f.p \subseteq DOMAIN g.p /\ (\A p \in DOMAIN f.p : g.p[p] = f.p[p])
               /\ DOMAIN f.e \subseteq DOMAIN g.e /\ \A t \in DOMAIN f.e : f.e[t] \subseteq g.e[t]
\* a new property gets the pid it asks for, or one the library chooses
PidGiven(u, g, p, move) == IF u.prop[p].pid = 0 THEN g.p[p] \in Dyn
                           ELSE g.p[p] = u.prop[p].pid \/ (move /\ u.prop[p].pid \in Dyn /\ g.p[p] \in Dyn)
Adds(u, f, g, cs, ts, ps, move) ==
  /\ Grows(f, g)
  /\ g.c = f.c \cup cs /\ g.t = f.t \cup ts /\ DOMAIN g.p = DOMAIN f.p \cup ps
  /\ \A p \in ps \ DOMAIN f.p : PidGiven(u, g, p, move)
  /\ DOMAIN g.e = DOMAIN f.e \cup {t \in ts : u.typ[t].els # <<>>}
  /\ PidsOk(u, g)
Plain(u, g, f) == \A t \in DOMAIN g.e : g.e[t] = IF t \in DOMAIN f.e THEN f.e[t] ELSE Rng(u.typ[t].els)
\* the extension model adds its names to enumerations that are there already
Extended(u, f, g) ==
  /\ Adds(u, f, g, Rng(u.ext.c), Rng(u.ext.t), Rng(u.ext.p), FALSE)
  /\ \A t \in DOMAIN g.e : g.e[t] = (IF t \in DOMAIN f.e THEN f.e[t] ELSE {}) \cup (IF t \in DOMAIN u.ext.e THEN Rng(u.ext.e[t]) ELSE {})
\* the pid p asks for is taken
Taken(u, f, p) == u.prop[p].pid \in Dyn /\ p \notin DOMAIN f.p /\ \E q \in DOMAIN f.p : f.p[q] = u.prop[p].pid

(* the outcome and the next declarations of the file an operation changes: Step(u, fs, op, g) says g may follow.
   fs: file name -> file; obj: file -> object name -> object *)
Change(u, fs, obj, op, g) ==
  LET f == fs[op.f] IN
  CASE op.o = "regt" -> Adds(u, f, g, {}, {op.t}, {}, FALSE) /\ Plain(u, g, f)
    [] op.o = "regc" -> Adds(u, f, g, {op.c} \cap DOMAIN u.cls, {}, Rng(op.ps), FALSE) /\ Plain(u, g, f)
    [] op.o = "regp" -> IF Taken(u, f, op.p) THEN g = f ELSE Adds(u, f, g, {}, {}, {op.p}, FALSE) /\ Plain(u, g, f)
    [] op.o = "rege" -> g = [f EXCEPT !.e[op.t] = @ \cup Rng(op.els)]
    [] op.o = "ext" -> Extended(u, f, g)
    [] op.o = "copy" ->
         LET s == fs[op.from]  o == obj[op.from][op.x]  need == Needed(u, s, o)  may == Brings(u, s, o)
             ts == g.t \ f.t  ps == DOMAIN g.p \ DOMAIN f.p
         IN /\ need.c \subseteq g.c /\ need.t \subseteq g.t /\ need.p \subseteq DOMAIN g.p
            /\ g.c \ f.c \subseteq may.c /\ ts \subseteq may.t /\ ps \subseteq may.p
            /\ Adds(u, f, g, g.c, g.t, DOMAIN g.p, TRUE)
            \* enumerations of the object's own types have the names the source has
            /\ \A t \in DOMAIN g.e : g.e[t] \subseteq (IF t \in DOMAIN f.e THEN f.e[t] ELSE {}) \cup (IF t \in DOMAIN s.e THEN s.e[t] ELSE {})
            /\ \A t \in need.t \cap DOMAIN s.e : s.e[t] \subseteq g.e[t]
            /\ Closed(u, g)
    [] OTHER -> g = f
Outcome(u, fs, op) == IF op.o = "regp" /\ Taken(u, fs[op.f], op.p) THEN "err" ELSE "ok"
Put(obj, f, x, o) == [obj EXCEPT ![f] = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN o ELSE @[y]]]
Objs(obj, op) ==
  CASE op.o = "new" -> Put(obj, op.f, op.x, [cls |-> op.c, vals |-> None])
    [] op.o = "set" -> Put(obj, op.f, op.x, [obj[op.f][op.x] EXCEPT !.vals = [p \in DOMAIN @ \cup {op.p} |-> IF p = op.p THEN op.v ELSE @[p]]])
    [] op.o = "copy" -> Put(obj, op.f, op.y, obj[op.from][op.x])
    [] OTHER -> obj
=============================================================================
