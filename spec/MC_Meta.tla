------------------------------ MODULE MC_Meta ------------------------------
(* Two files, two classes that hold each other, an enumeration and a record on it. *)
EXTENDS Meta
CONSTANTS Names
U == [cls |-> [c1 |-> [parent |-> "base"], c2 |-> [parent |-> "c1"]],
      line |-> [c1 |-> <<"c1", "base">>, c2 |-> <<"c2", "c1", "base">>, base |-> <<"base">>],
      prop |-> [p1 |-> [cls |-> "c1", typ |-> "s2", pid |-> 0], p2 |-> [cls |-> "c2", typ |-> "r", pid |-> 32769]],
      typ |-> [e |-> [refs |-> <<>>, crefs |-> <<>>, els |-> <<"a">>], r |-> [refs |-> <<"e">>, crefs |-> <<>>, els |-> <<>>],
               s2 |-> [refs |-> <<>>, crefs |-> <<"c2">>, els |-> <<>>]],
      ext |-> [c |-> <<>>, t |-> <<"e">>, p |-> <<>>, e |-> [e |-> <<"a">>]]]
VARIABLES fs, obj
F == {"A", "B"}
Pids == {32768, 32769}
\* the declarations that can follow
Grown(f) ==
  LET ps == {s \in SUBSET DOMAIN U.prop : DOMAIN f.p \subseteq s}
      maps(s) == {[p \in s |-> IF p \in DOMAIN f.p THEN f.p[p] ELSE n[p]] : n \in [s \ DOMAIN f.p -> Pids]}
  IN {[c |-> f.c \cup c, t |-> f.t \cup t, p |-> p, e |-> e] :
               c \in SUBSET (DOMAIN U.cls \ f.c), t \in SUBSET (DOMAIN U.typ \ f.t), p \in UNION {maps(s) : s \in ps},
               e \in {None} \cup {[x \in {"e"} |-> s] : s \in SUBSET Names}}
Have(f, ts) == ts \cap DOMAIN U.typ \subseteq fs[f].t
Ops == {[o |-> "regt", f |-> f, t |-> t] : f \in F, t \in DOMAIN U.typ}
       \cup {[o |-> "regc", f |-> f, c |-> c, ps |-> <<>>] : f \in F, c \in DOMAIN U.cls}
       \cup {[o |-> "regp", f |-> f, p |-> p] : f \in F, p \in DOMAIN U.prop}
       \cup {[o |-> "rege", f |-> f, t |-> "e", els |-> <<n>>] : f \in F, n \in Names}
       \cup {[o |-> "ext", f |-> f] : f \in F}
       \cup {[o |-> "new", f |-> f, x |-> "x", c |-> c] : f \in {"A"}, c \in DOMAIN U.cls}
       \cup {[o |-> "set", f |-> f, x |-> "x", p |-> p, v |-> v] : f \in {"A"}, p \in DOMAIN U.prop,
                v \in {[k |-> "v", n |-> 1], [k |-> "os", s |-> <<[cls |-> "c2", vals |-> [q \in {"p2"} |-> [k |-> "v", n |-> 1]]]>>]}}
       \cup {[o |-> "copy", from |-> f, f |-> g, x |-> "x", y |-> "y"] : f \in {"A"}, g \in {"B"}}
\* what a program may ask for
Can(op) ==
  LET f == fs[op.f] IN
  CASE op.o = "regt" -> Have(op.f, Refs(U, {op.t})) /\ CRefs(U, {op.t}) \subseteq f.c
    [] op.o = "regc" -> (Lines(U, {op.c}) \cap DOMAIN U.cls) \ {op.c} \subseteq f.c
    [] op.o = "regp" -> U.prop[op.p].typ \in f.t /\ U.prop[op.p].cls \in f.c \cup {"base"}
    [] op.o = "rege" -> op.t \in f.t
    [] op.o = "new" -> op.c \in f.c /\ DOMAIN obj[op.f] = {}
    [] op.o = "set" -> /\ op.x \in DOMAIN obj[op.f] /\ op.p \in DOMAIN f.p /\ U.prop[op.p].cls \in Lines(U, {obj[op.f][op.x].cls})
                       /\ (op.v.k = "os") = (op.p = "p1")
                       /\ op.v.k = "os" => "p2" \in DOMAIN f.p
    [] op.o = "copy" -> op.from # op.f /\ op.x \in DOMAIN obj[op.from] /\ DOMAIN obj[op.f] = {}
    [] OTHER -> TRUE
Init == fs = [f \in F |-> EmptyFile] /\ obj = [f \in F |-> None]
Next == \E op \in Ops : /\ Can(op)
                        /\ \E g \in IF op.o \in {"new", "set"} THEN {fs[op.f]} ELSE {h \in Grown(fs[op.f]) : Change(U, fs, obj, op, h)} :
                             fs' = [fs EXCEPT ![op.f] = g]
                        /\ obj' = Objs(obj, op)
Inv == \A f \in F : FileOk(U, fs[f]) /\ \A x \in DOMAIN obj[f] : ObjOk(U, fs[f], obj[f][x])
\* a refused or accepted change never leaves a program without an answer
Answers == \A op \in Ops : Can(op) /\ op.o \notin {"new", "set"} => \E g \in Grown(fs[op.f]) : Change(U, fs, obj, op, g)
=============================================================================
