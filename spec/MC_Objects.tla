----------------------------- MODULE MC_Objects -----------------------------
(* Exhaustive exploration of Objects inside one small universe per Scope; prints every        *)
(* transition. Each universe starts from the state its Prefix operations build, so that the   *)
(* conformance driver can build the same one.                                                 *)
EXTENDS Objects, Json
CONSTANTS Scope, MaxXs, IdxN, Toks, Fills, OpSet
VARIABLES st, op
vars == <<st, op>>

Idx == (-IdxN)..(IdxN - 1)
NoFn == [x \in {} |-> ""]
New(id, f, c, k, w) == [o |-> "new", p |-> id, file |-> f, cls |-> c, key |-> k, val |-> 0, kids |-> NoFn, weak |-> w]
WD == [DataDefinition |-> <<"K1">>]
Fill(id, f) == New(id, f, "fill", "", WD)
\* a saveable file with one sequence below the content storage
Frame0(f, n) == <<New(f \o ToString(n), f, "cmob", "K" \o ToString(n), NoFn), New(f \o ToString(n + 1), f, "slot", "", NoFn),
               New(f \o ToString(n + 2), f, "seq", "", WD),
               [o |-> "assign", p |-> f \o ToString(n + 2), prop |-> "Components", xs |-> <<>>],
               [o |-> "set1", p |-> f \o ToString(n + 1), prop |-> "Segment", x |-> f \o ToString(n + 2)],
               [o |-> "append", p |-> f \o ToString(n), prop |-> "Slots", x |-> f \o ToString(n + 1)],
               [o |-> "append", p |-> f \o "cs", prop |-> "Mobs", x |-> f \o ToString(n)]>>
Files == IF Scope \in {"copy", "defs"} THEN {"A", "B"} ELSE {"A"}
Prefix ==
  CASE Scope = "vec" -> Frame0("A", 101) \o <<New("A104", "A", "seq", "", WD), [o |-> "assign", p |-> "A104", prop |-> "Components", xs |-> <<>>]>>
                        \o [i \in 1..Fills |-> Fill("A" \o ToString(104 + i), "A")]
    [] Scope = "set" -> <<New("A101", "A", "cmob", "K3", NoFn), New("A102", "A", "mmob", "K4", NoFn), New("A103", "A", "cmob", "K3", NoFn)>>
                        \o [i \in 1..3 |-> [o |-> "assign", p |-> "A" \o ToString(100 + i), prop |-> "Slots", xs |-> <<>>]]
                        \o <<[o |-> "append", p |-> "Acs", prop |-> "Mobs", x |-> "A101"]>>
    [] Scope = "param" -> Frame0("A", 101) \o <<New("A110", "A", "opdef", "K8", WD), New("A111", "A", "pardef", "K3", NoFn),
                          [o |-> "append", p |-> "Adict", prop |-> "OperationDefinitions", x |-> "A110"],
                          [o |-> "append", p |-> "Adict", prop |-> "ParameterDefinitions", x |-> "A111"],
                          New("A104", "A", "opg", "", [DataDefinition |-> <<"K1">>, Operation |-> <<"K8">>]),
                          New("A105", "A", "param", "K3", NoFn), New("A106", "A", "param", "K3", NoFn), New("A107", "A", "param", "K4", NoFn)>>
    [] Scope = "one" -> Frame0("A", 101) \o <<Fill("A104", "A"), New("A105", "A", "sel", "", WD), Fill("A106", "A"),
                        [o |-> "set1", p |-> "A105", prop |-> "Selected", x |-> "A106"]>>
    [] Scope = "str" -> <<New("A101", "A", "ess", "K3", NoFn), New("A102", "A", "ess", "K4", NoFn)>>
    [] Scope = "weak" -> <<New("A101", "A", "opdef", "K3", WD), New("A102", "A", "opdef", "K4", WD), New("A103", "A", "pardef", "K5", NoFn),
                           New("A104", "A", "pardef", "K6", NoFn),
                           [o |-> "append", p |-> "Adict", prop |-> "OperationDefinitions", x |-> "A101"],
                           [o |-> "append", p |-> "Adict", prop |-> "ParameterDefinitions", x |-> "A103"]>>
    [] Scope = "copy" -> Frame0("A", 101) \o Frame0("B", 101) \o
                         <<New("A104", "A", "seq", "", WD), New("A105", "A", "tag", "", NoFn), Fill("A106", "A"),
                           [o |-> "assign", p |-> "A104", prop |-> "Components", xs |-> <<"A106">>],
                           [o |-> "assign", p |-> "A106", prop |-> "UserComments", xs |-> <<"A105">>],
                           [o |-> "swrite", p |-> "A105", prop |-> "TaggedValue_Stream", d |-> "70:1"]>>
    [] Scope = "defs" -> Frame0("A", 101) \o Frame0("B", 101) \o
                         <<New("A110", "A", "opdef", "K3", WD), New("A111", "A", "opdef", "K4", WD), New("A112", "A", "pardef", "K5", NoFn),
                           [o |-> "extend", p |-> "Adict", prop |-> "OperationDefinitions", xs |-> <<"A110", "A111">>],
                           [o |-> "append", p |-> "Adict", prop |-> "ParameterDefinitions", x |-> "A112"],
                           New("A104", "A", "opg", "", [DataDefinition |-> <<"K1">>, Operation |-> <<"K3">>]),
                           New("A105", "A", "param", "K5", NoFn),
                           [o |-> "append", p |-> "A104", prop |-> "Parameters", x |-> "A105"]>>

Root0(f, c) == [file |-> f, cls |-> c, key |-> "", val |-> 0, weak |-> NoFn, str |-> NoFn, kids |-> NoFn]
Dat(f, k) == [Root0(f, "datdef") EXCEPT !.key = k]
St0 == [x \in UNION {{f \o "cs", f \o "dict", f \o "1", f \o "2"} : f \in Files} |->
          LET f == CHOOSE f \in Files : x \in {f \o "cs", f \o "dict", f \o "1", f \o "2"}
          IN CASE x = f \o "cs" -> [Root0(f, "cs") EXCEPT !.kids = [Mobs |-> <<>>]]
               [] x = f \o "dict" -> [Root0(f, "dict") EXCEPT !.kids = [DataDefinitions |-> <<f \o "1", f \o "2">>]]
               [] x = f \o "1" -> Dat(f, "K1")
               [] OTHER -> Dat(f, "K2")]
RECURSIVE Run(_, _)
Run(s, ops) == IF ops = <<>> THEN s ELSE LET a == Apply(s, Head(ops)) IN
  IF a.r # "ok" THEN Assert(FALSE, <<"prefix refused", Head(ops)>>) ELSE Run(a.st, Tail(ops))

\* ---------------------------------------------------------------- alphabet
\* strong-reference slots the operations work on, and the nodes they are given
FillIds == {"A" \o ToString(104 + i) : i \in 1..Fills}
Slots ==
  CASE Scope = "vec" -> {<<"A103", "Components">>, <<"A104", "Components">>}
    [] Scope = "set" -> {<<"Acs", "Mobs">>}
    [] Scope = "param" -> {<<"A104", "Parameters">>, <<"A103", "Components">>}
    [] Scope = "one" -> {<<"A102", "Segment">>, <<"A105", "Selected">>}
    [] Scope = "str" -> {<<"Acs", "EssenceData">>}
    [] Scope = "weak" -> {<<"Adict", "OperationDefinitions">>, <<"Adict", "ParameterDefinitions">>}
    [] Scope = "copy" -> {<<"A103", "Components">>, <<"B103", "Components">>}
    [] Scope = "defs" -> {<<"A103", "Components">>, <<"B103", "Components">>}
Nodes ==
  CASE Scope = "vec" -> FillIds \cup {"A104"}
    [] Scope = "set" -> {"A101", "A102", "A103"}
    [] Scope = "param" -> {"A104", "A105", "A106", "A107"}
    [] Scope = "one" -> {"A103", "A104", "A105", "A106"}
    [] Scope = "str" -> {"A101", "A102"}
    [] Scope = "weak" -> {"A101", "A102", "A103", "A104"}
    [] Scope = "copy" -> {"A104", "A204", "B204"}
    [] Scope = "defs" -> {"A104", "B204"}
Keys == CASE Scope \in {"set", "str"} -> {"K3", "K4", "K5"} [] Scope = "param" -> {"K3", "K4", "K5"} [] OTHER -> {}
Streams == CASE Scope = "str" -> {<<"A101", "Data">>, <<"A102", "Data">>} [] Scope = "copy" -> {<<"A105", "TaggedValue_Stream">>, <<"A205", "TaggedValue_Stream">>, <<"B205", "TaggedValue_Stream">>} [] OTHER -> {}
WSlots == CASE Scope = "weak" -> {<<"A102", "DegradeTo">>, <<"A102", "ParametersDefined">>}
            [] Scope = "defs" -> {<<"A110", "DegradeTo">>, <<"A111", "DegradeTo">>, <<"A110", "ParametersDefined">>} [] OTHER -> {}
WNodes == CASE Scope = "weak" -> {"A101", "A102", "A103", "A104"} [] Scope = "defs" -> {"A110", "A111", "A112"} [] OTHER -> {}
Copies == CASE Scope = "copy" -> {<<"A104", "A">>, <<"A104", "B">>} [] Scope = "defs" -> {<<"A104", "B">>} [] OTHER -> {}
Vals == CASE Scope = "copy" -> {"A106", "A206", "B206"} [] Scope = "one" -> {"A106"} [] OTHER -> {}

Seqs(X, n) == UNION {[1..k -> X] : k \in 0..n}
Perms(X, n) == {s \in Seqs(X, n) : NoDup(s)}
Num(x, f) == CHOOSE i \in 101..299 : x = f \o ToString(i)
MapOf(s, x, to) ==
  LET f == s[x].file
      tree == Reach(s, {x})
      all == IF f = to THEN tree ELSE Brought(s, f, to, tree)
  IN [y \in all |-> to \o ToString(Num(y, f) + 100)]
Dangling(s, f, to, X) == \E x \in X : \E n \in WeakOf(s, x) : Resolve(s, f, n[1], n[2]) = "?" /\ Resolve(s, to, n[1], n[2]) = "?"

Top(s, x) == \A p \in DOMAIN s : \A q \in DOMAIN s[p].kids : x \notin Range(s[p].kids[q])
\* the program may hand over anything but an object that sits in a detached object already (the
\* code has no way to see that) and one that contains the target (a cycle)
Usable(s, p, x) == x \in DOMAIN s /\ p \notin Reach(s, {x}) /\ (Top(s, x) \/ IsAttached(s, x))

Ops(s) ==
  LET here == {sl \in Slots : sl[1] \in DOMAIN s}
      give(sl) == {x \in Nodes : Usable(s, sl[1], x)}
      k(sl) == Strong(s[sl[1]].cls, sl[2]).k
      own(sl) == Range(List(s, sl[1], sl[2]))
  IN UNION {
       UNION {{[o |-> "append", p |-> sl[1], prop |-> sl[2], x |-> x] : x \in give(sl)} : sl \in {sl \in here : k(sl) # "one"}},
       UNION {{[o |-> "extend", p |-> sl[1], prop |-> sl[2], xs |-> xs] : xs \in Seqs(give(sl), MaxXs)} : sl \in {sl \in here : k(sl) # "one"}},
       UNION {{[o |-> "assign", p |-> sl[1], prop |-> sl[2], xs |-> xs] :
                 xs \in Seqs({x \in Nodes : x \in DOMAIN s /\ (x \in own(sl) \/ Usable(s, sl[1], x))}, MaxXs)} : sl \in {sl \in here : k(sl) # "one"}},
       UNION {{[o |-> "insert", p |-> sl[1], prop |-> sl[2], x |-> x, i |-> i] : x \in give(sl), i \in Idx} : sl \in {sl \in here : k(sl) = "vec"}},
       UNION {{[o |-> "setitem", p |-> sl[1], prop |-> sl[2], x |-> x, i |-> i] : x \in give(sl), i \in Idx} : sl \in {sl \in here : k(sl) = "vec"}},
       UNION {{[o |-> o, p |-> sl[1], prop |-> sl[2], i |-> i] : o \in {"pop", "getitem"}, i \in Idx} : sl \in {sl \in here : k(sl) = "vec"}},
       UNION {{[o |-> o, p |-> sl[1], prop |-> sl[2], key |-> q] : o \in {"popkey", "getkey"}, q \in Keys} : sl \in {sl \in here : k(sl) = "set"}},
       UNION {{[o |-> "set1", p |-> sl[1], prop |-> sl[2], x |-> x] : x \in give(sl)} : sl \in {sl \in here : k(sl) = "one"}},
       UNION {{[o |-> o, p |-> sl[1], prop |-> sl[2]] : o \in (IF k(sl) = "one" THEN {"none", "del"} ELSE {"none", "del", "clear"})} :
                 sl \in {sl \in here : ~(s[sl[1]].cls \in {"cs", "dict"})}},
       {[o |-> "swrite", p |-> sl[1], prop |-> sl[2], d |-> d] : sl \in {sl \in Streams : sl[1] \in DOMAIN s}, d \in Toks},
       {[o |-> "del", p |-> sl[1], prop |-> sl[2]] : sl \in {sl \in Streams : sl[1] \in DOMAIN s}},
       {[o |-> "setkey", p |-> x, key |-> q] : x \in {x \in Nodes : x \in DOMAIN s /\ s[x].cls \in MobCls \cup {"ess"}}, q \in Keys},
       {[o |-> IF Scope = "str" THEN "essof" ELSE "mobof", file |-> "A", key |-> q] : q \in Keys},
       UNION {{[o |-> o, p |-> sl[1], prop |-> sl[2], xs |-> xs] : o \in {"wextend", "wassign"},
                 xs \in Seqs({x \in WNodes : x \in DOMAIN s /\ s[x].cls \in Weak(s[sl[1]].cls, sl[2]).t}, MaxXs)} : sl \in {sl \in WSlots : sl[1] \in DOMAIN s}},
       {[o |-> "wclear", p |-> sl[1], prop |-> sl[2], xs |-> <<>>] : sl \in {sl \in WSlots : sl[1] \in DOMAIN s}},
       {[o |-> "none", p |-> sl[1], prop |-> sl[2]] : sl \in {sl \in WSlots : sl[1] \in DOMAIN s}},
       {[o |-> "setval", p |-> x, nv |-> 1] : x \in {x \in Vals : x \in DOMAIN s}},
       {[o |-> "copy", x |-> cp[1], to |-> cp[2], map |-> MapOf(s, cp[1], cp[2])] :
          cp \in {cp \in Copies : cp[1] \in DOMAIN s /\ (s[cp[1]].file = cp[2] \/ ~Dangling(s, s[cp[1]].file, cp[2], Brought(s, s[cp[1]].file, cp[2], Reach(s, {cp[1]}))))
                   /\ LET m == MapOf(s, cp[1], cp[2]) IN {m[y] : y \in DOMAIN m} \cap DOMAIN s = {}}},
       {[o |-> o, file |-> f] : o \in {"save", "reopen"}, f \in Files},
       {[o |-> "gc", keep |-> <<>>]} }

\* one printed form per state (equal functions may be represented differently)
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}
Canon(s) == {<<x, s[x].cls, s[x].key, s[x].val, Pairs(s[x].kids), Pairs(s[x].weak), Pairs(s[x].str)>> : x \in DOMAIN s}
Init == st = Run(St0, Prefix) /\ op = [o |-> "none"]
        /\ PrintT(<<"PREFIX", ToJson(Prefix)>>) /\ PrintT(<<"INIT", ToString(Canon(st))>>)
\* weak vectors and repeated lists are kept short
Small(s) == \A x \in DOMAIN s : \A q \in DOMAIN s[x].weak : Len(s[x].weak[q]) <= (IF Scope = "defs" THEN 1 ELSE 2)
Next == \E o \in Ops(st) : o.o \in OpSet /\ op' = o /\ st' = Apply(st, o).st
Bound == Small(st)
Edge == Small(st') => PrintT(<<"EDGE", ToString(Canon(st)), ToJson(op'), ToString(Canon(st'))>>)
View == st
Inv == StOk(st)
\* refused operations change nothing, and accepted ones change only the nodes they name
Touched(o) == CASE o.o \in {"copy"} -> IF o.to = "A" THEN {} ELSE {"Bdict"} [] o.o \in {"reopen", "save", "gc", "mobof", "essof"} -> {} [] OTHER -> {o.p}
FrameProp == [][ LET a == Apply(st, op') IN
                 /\ (a.r # "ok" => st' = st)
                 /\ \A x \in (DOMAIN st \cap DOMAIN st') \ Touched(op') : st'[x] = st[x] ]_vars
=============================================================================
