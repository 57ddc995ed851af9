------------------------------- MODULE Objects -------------------------------
(* The object graph of one or two open AAF files, at the level of the public API.            *)
(*                                                                                            *)
(* A node is an object. A file owns the nodes reachable from its two roots (content storage   *)
(* and dictionary); every other node is detached: it lives only as long as the program holds  *)
(* it and the file stays open. Strong references own (at most one owner per node); weak       *)
(* references name a definition by its unique key and resolve through the dictionary.         *)
(* st : node id -> [file, cls, key, val, kids, weak, str]                                     *)
(*   kids : property -> Seq(node)   present strong references (one: <=1, vec: list, set)      *)
(*   weak : property -> Seq(key)    present weak references                                   *)
(*   str  : property -> token       present streams (token names the bytes)                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SetToSeq(_)
SetToSeq(X) == IF X = {} THEN << >> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SetToSeq(X \ {x})
Range(s) == {s[i] : i \in 1..Len(s)}
Empty == << >>
MobCls == {"cmob", "mmob", "smob"}
SegCls == {"seq", "fill", "sel", "nest", "opg", "clip", "egrp"}
CompCls == SegCls \cup {"trans"}
DefCls == {"opdef", "pardef", "datdef"}
AllCls == MobCls \cup CompCls \cup DefCls \cup {"slot", "tag", "param", "ess", "desc", "loc", "cs", "dict"}

\* ---------------------------------------------------------------- schema
S(k, t) == [k |-> k, t |-> t]
NoS == S("none", {})
CompProps == {"UserComments", "Attributes"}
Strong(c, p) ==
  CASE c = "cs"   -> (CASE p = "Mobs" -> S("set", MobCls) [] p = "EssenceData" -> S("set", {"ess"}) [] p = "VfMobs" -> S("set", {"cmob"}) [] OTHER -> NoS)
    [] c = "dict" -> (CASE p = "OperationDefinitions" -> S("set", {"opdef"})
                        [] p = "ParameterDefinitions" -> S("set", {"pardef"})
                        [] p = "DataDefinitions" -> S("set", {"datdef"}) [] OTHER -> NoS)
    [] c \in MobCls -> (CASE p = "Slots" -> S("vec", {"slot"})
                          [] p \in {"UserComments", "Attributes"} -> S("vec", {"tag"})
                          [] p = "EssenceDescription" /\ c = "smob" -> S("one", {"desc"}) [] OTHER -> NoS)
    [] c = "desc" -> (IF p = "Locator" THEN S("vec", {"loc"}) ELSE NoS)
    [] c = "slot" -> (CASE p = "Segment" -> S("one", SegCls) [] p = "TimelineMobAttributeList" -> S("vec", {"tag"}) [] OTHER -> NoS)
    [] c = "tag" -> (IF p = "TaggedValueAttributeList" THEN S("vec", {"tag"}) ELSE NoS)
    [] c \in CompCls /\ p \in CompProps -> S("vec", {"tag"})
    [] c = "seq" /\ p = "Components" -> S("vec", CompCls)
    [] c = "sel" /\ p = "Selected" -> S("one", SegCls)
    [] c = "sel" /\ p = "Alternates" -> S("vec", SegCls)
    [] c = "nest" /\ p = "Slots" -> S("vec", SegCls)
    [] c = "opg" /\ p = "InputSegments" -> S("vec", SegCls)
    [] c = "opg" /\ p \in {"Parameters", "VfConsts"} -> S("set", {"param"})
    [] c = "opg" /\ p = "Rendering" -> S("one", {"clip"})
    [] c = "trans" /\ p = "OperationGroup" -> S("one", {"opg"})
    [] c = "egrp" /\ p = "Choices" -> S("vec", {"clip"})
    [] c = "egrp" /\ p = "StillFrame" -> S("one", {"clip"})
    [] OTHER -> NoS
Weak(c, p) ==
  CASE c \in CompCls /\ p = "DataDefinition" -> S("wone", {"datdef"})
    [] c = "opg" /\ p = "Operation" -> S("wone", {"opdef"})
    [] c = "opdef" /\ p = "DataDefinition" -> S("wone", {"datdef"})
    [] c = "opdef" /\ p = "DegradeTo" -> S("wvec", {"opdef"})
    [] c = "opdef" /\ p = "ParametersDefined" -> S("wset", {"pardef"})
    [] OTHER -> NoS
HasStream(c, p) == <<c, p>> \in {<<"ess", "Data">>, <<"ess", "SampleIndex">>, <<"opg", "OpGroupAVXParamStream">>, <<"tag", "TaggedValue_Stream">>}
Required(c) ==
  CASE c = "smob" -> {"Slots", "EssenceDescription"} [] c \in MobCls -> {"Slots"} [] c = "slot" -> {"Segment"} [] c = "seq" -> {"Components"}
    [] c = "sel" -> {"Selected"} [] c = "nest" -> {"Slots"} [] c = "trans" -> {"OperationGroup"}
    [] c = "egrp" -> {"Choices"} [] c = "ess" -> {"Data"} [] OTHER -> {}
RequiredWeak(c) ==
  CASE c = "opg" -> {"DataDefinition", "Operation"} [] c \in CompCls -> {"DataDefinition"} [] c = "opdef" -> {"DataDefinition"} [] OTHER -> {}
Keyed(c) == c \in MobCls \cup DefCls \cup {"ess", "param"}

\* ----------------------------------------------------------------- graph
Kids(st, x) == UNION {Range(st[x].kids[p]) : p \in DOMAIN st[x].kids}
RECURSIVE Reach(_, _)
Reach(st, X) == LET N == X \cup UNION {Kids(st, x) : x \in X} IN IF N = X THEN X ELSE Reach(st, N)
RootIds(f) == {f \o "cs", f \o "dict"}
Attached(st, f) == Reach(st, RootIds(f) \cap DOMAIN st)
IsAttached(st, x) == x \in Attached(st, st[x].file)
DefProp(c) == CASE c = "opdef" -> "OperationDefinitions" [] c = "pardef" -> "ParameterDefinitions" [] OTHER -> "DataDefinitions"
\* the definition of class c registered under key k in file f, or "?"
Resolve(st, f, c, k) ==
  LET d == st[f \o "dict"].kids
      s == IF DefProp(c) \in DOMAIN d THEN Range(d[DefProp(c)]) ELSE {}
      m == {x \in s : st[x].key = k}
  IN IF m = {} THEN "?" ELSE CHOOSE x \in m : TRUE
WeakCls(c, p) == CHOOSE t \in Weak(c, p).t : TRUE

\* --------------------------------------------------------------- helpers
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
List(st, p, prop) == IF prop \in DOMAIN st[p].kids THEN st[p].kids[prop] ELSE <<>>
WList(st, p, prop) == IF prop \in DOMAIN st[p].weak THEN st[p].weak[prop] ELSE <<>>
SetList(st, p, prop, l) == [st EXCEPT ![p].kids = Put(@, prop, l)]
NoDup(s) == Cardinality(Range(s)) = Len(s)
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))     \* i is 1-based
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
\* python index -> 1-based position, or 0
At(s, i) == IF i >= 0 THEN (IF i < Len(s) THEN i + 1 ELSE 0) ELSE (IF -i <= Len(s) THEN Len(s) + i + 1 ELSE 0)
InsAt(s, i) == IF i >= 0 THEN (IF i <= Len(s) THEN i + 1 ELSE Len(s) + 1) ELSE (IF -i <= Len(s) THEN Len(s) + i + 1 ELSE 1)

Ok(st) == [r |-> "ok", v |-> "", st |-> st]
OkV(st, v) == [r |-> "ok", v |-> v, st |-> st]
Err(st) == [r |-> "err", v |-> "", st |-> st]

\* may x be put below property prop of p
Fits(st, p, prop, x) == st[x].file = st[p].file /\ st[x].cls \in Strong(st[p].cls, prop).t
\* add x to a keyed set: a member with the same key is displaced
AddSet(st, l, x) ==
  LET same == {i \in 1..Len(l) : st[l[i]].key = st[x].key /\ l[i] # x}
  IN IF x \in Range(l) THEN l
     ELSE IF same = {} THEN Append(l, x)
     ELSE LET i == CHOOSE i \in same : TRUE IN [l EXCEPT ![i] = x]
RECURSIVE AddAll(_, _, _)
AddAll(st, l, xs) == IF xs = <<>> THEN l ELSE AddAll(st, AddSet(st, l, Head(xs)), Tail(xs))
FindKey(st, l, k) == {i \in 1..Len(l) : st[l[i]].key = k}

Complete(st, x) ==
  /\ \A p \in Required(st[x].cls) : p \in DOMAIN st[x].kids \cup DOMAIN st[x].str
  /\ RequiredWeak(st[x].cls) \subseteq DOMAIN st[x].weak
Saveable(st, f) == \A x \in Attached(st, f) : Complete(st, x)

\* ------------------------------------------------------------- operations
Node(o) == [file |-> o.file, cls |-> o.cls, key |-> o.key, val |-> o.val, kids |-> o.kids, weak |-> o.weak, str |-> Empty]

AttachMany(st, op, xs, base, mine) ==   \* common acceptance test of list and set additions
  /\ \A i \in 1..Len(xs) : Fits(st, op.p, op.prop, xs[i])
  /\ \A i \in 1..Len(xs) : xs[i] \in mine \/ ~IsAttached(st, xs[i])
  /\ NoDup(xs)

DoVec(st, op) ==
  LET l == List(st, op.p, op.prop)
  IN CASE op.o = "append" -> IF AttachMany(st, op, <<op.x>>, l, {}) THEN Ok(SetList(st, op.p, op.prop, Append(l, op.x))) ELSE Err(st)
       [] op.o = "extend" -> IF AttachMany(st, op, op.xs, l, {}) THEN Ok(SetList(st, op.p, op.prop, l \o op.xs)) ELSE Err(st)
       [] op.o = "insert" -> IF AttachMany(st, op, <<op.x>>, l, {}) THEN Ok(SetList(st, op.p, op.prop, Ins(l, InsAt(l, op.i), op.x))) ELSE Err(st)
       [] op.o = "setitem" -> IF At(l, op.i) # 0 /\ AttachMany(st, op, <<op.x>>, l, {})
                              THEN Ok(SetList(st, op.p, op.prop, [l EXCEPT ![At(l, op.i)] = op.x])) ELSE Err(st)
       [] op.o = "pop" -> IF At(l, op.i) # 0 THEN OkV(SetList(st, op.p, op.prop, Cut(l, At(l, op.i))), l[At(l, op.i)]) ELSE Err(st)
       [] op.o = "clear" -> Ok(IF op.prop \in DOMAIN st[op.p].kids THEN SetList(st, op.p, op.prop, <<>>) ELSE st)
       [] op.o = "assign" -> IF AttachMany(st, op, op.xs, <<>>, Range(l)) THEN Ok(SetList(st, op.p, op.prop, op.xs)) ELSE Err(st)
       [] op.o = "getitem" -> IF At(l, op.i) # 0 THEN OkV(st, l[At(l, op.i)]) ELSE Err(st)
DoSet(st, op) ==
  LET l == List(st, op.p, op.prop)
  IN CASE op.o = "append" -> IF AttachMany(st, op, <<op.x>>, l, {}) THEN Ok(SetList(st, op.p, op.prop, AddSet(st, l, op.x))) ELSE Err(st)
       [] op.o = "extend" -> IF AttachMany(st, op, op.xs, l, {}) THEN Ok(SetList(st, op.p, op.prop, AddAll(st, l, op.xs))) ELSE Err(st)
       [] op.o = "assign" -> IF AttachMany(st, op, op.xs, <<>>, Range(l)) THEN Ok(SetList(st, op.p, op.prop, AddAll(st, <<>>, op.xs))) ELSE Err(st)
       [] op.o = "clear" -> Ok(IF op.prop \in DOMAIN st[op.p].kids THEN SetList(st, op.p, op.prop, <<>>) ELSE st)
       [] op.o = "popkey" -> LET m == FindKey(st, l, op.key) IN
                             IF m = {} THEN Err(st) ELSE LET i == CHOOSE i \in m : TRUE IN OkV(SetList(st, op.p, op.prop, Cut(l, i)), l[i])
       [] op.o = "getkey" -> LET m == FindKey(st, l, op.key) IN
                             IF m = {} THEN Err(st) ELSE OkV(st, l[CHOOSE i \in m : TRUE])
DoOne(st, op) ==
  CASE op.o = "set1" -> LET l == List(st, op.p, op.prop) IN
         IF Fits(st, op.p, op.prop, op.x) /\ (op.x \in Range(l) \/ ~IsAttached(st, op.x))
         THEN Ok(SetList(st, op.p, op.prop, <<op.x>>)) ELSE Err(st)
Present(st, p, prop) == prop \in DOMAIN st[p].kids \cup DOMAIN st[p].weak \cup DOMAIN st[p].str
Absent(st, p, prop) == [st EXCEPT ![p].kids = Drop(@, prop), ![p].weak = Drop(@, prop), ![p].str = Drop(@, prop)]

DoWeak(st, op) ==
  LET w == Weak(st[op.p].cls, op.prop)  l == WList(st, op.p, op.prop)
      fit(x) == st[x].cls \in w.t /\ st[x].file = st[op.p].file
      put(s) == [st EXCEPT ![op.p].weak = Put(@, op.prop, s)]
      keys == [i \in 1..Len(op.xs) |-> st[op.xs[i]].key]
      addk(s, k) == IF w.k = "wset" /\ k \in Range(s) THEN s ELSE Append(s, k)
      RECURSIVE adds(_, _)
      adds(s, ks) == IF ks = <<>> THEN s ELSE adds(addk(s, Head(ks)), Tail(ks))
  IN IF ~(\A i \in 1..Len(op.xs) : fit(op.xs[i])) THEN Err(st)
     ELSE CASE op.o = "wset1" -> Ok(put(keys))
            [] op.o = "wextend" -> Ok(put(adds(l, keys)))
            [] op.o = "wassign" -> Ok(put(adds(<<>>, keys)))
            [] op.o = "wclear" -> Ok(IF op.prop \in DOMAIN st[op.p].weak THEN put(<<>>) ELSE st)

\* a member of a keyed root set may only take a key nobody else has
DoKey(st, op) ==
  LET n == st[op.p]
      prop == IF n.cls = "ess" THEN "EssenceData" ELSE "Mobs"
  IN IF ~IsAttached(st, op.p) THEN Ok([st EXCEPT ![op.p].key = op.key])
     ELSE IF n.cls \in DefCls \cup {"param"} \/ op.p \notin Range(st[n.file \o "cs"].kids[prop]) THEN Err(st)
     ELSE IF \E y \in Range(st[n.file \o "cs"].kids[prop]) : y # op.p /\ st[y].key = op.key THEN Err(st)
     ELSE Ok([st EXCEPT ![op.p].key = op.key])

\* definitions that a copy into another file brings along: those its weak references name and
\* the target does not have, and what these name in turn
WeakOf(st, x) == (IF st[x].cls = "param" THEN {<<"pardef", st[x].key>>} ELSE {}) \cup     \* a parameter names its definition by its key
                 UNION {{<<WeakCls(st[x].cls, p), st[x].weak[p][i]>> : i \in 1..Len(st[x].weak[p])} : p \in DOMAIN st[x].weak}
RECURSIVE Brought(_, _, _, _)
Brought(st, f, g, X) ==
  LET need == UNION {WeakOf(st, x) : x \in X}
      more == {Resolve(st, f, n[1], n[2]) : n \in {n \in need : Resolve(st, g, n[1], n[2]) = "?"}} \ {"?"}
      N == X \cup more
  IN IF N = X THEN X ELSE Brought(st, f, g, N)
\* op.map: old id -> new id for the copied tree (and, across files, for brought definitions)
DoCopy(st, op) ==
  LET tree == Reach(st, {op.x})
      f == st[op.x].file
      g == op.to
      all == IF f = g THEN tree ELSE Brought(st, f, g, tree)
      defs == all \ tree
      ren(s) == [i \in 1..Len(s) |-> op.map[s[i]]]
      new == {op.map[x] : x \in all}
      old(y) == CHOOSE x \in all : op.map[x] = y
      node(x) == [file |-> g, cls |-> st[x].cls, key |-> st[x].key, val |-> st[x].val, weak |-> st[x].weak, str |-> st[x].str,
                  kids |-> [p \in DOMAIN st[x].kids |-> ren(st[x].kids[p])]]
      st1 == [y \in DOMAIN st \cup new |-> IF y \in new THEN node(old(y)) ELSE st[y]]
      d == g \o "dict"
      addDefs(kids) == [p \in DOMAIN kids \cup {DefProp(st[x].cls) : x \in defs} |->
                          (IF p \in DOMAIN kids THEN kids[p] ELSE <<>>) \o
                          SetToSeq({op.map[x] : x \in {x \in defs : DefProp(st[x].cls) = p}})]
  IN IF ~(all \subseteq DOMAIN op.map) THEN [r |-> "incomplete", v |-> "", st |-> st]
     ELSE IF new \cap DOMAIN st # {} THEN [r |-> "clash", v |-> "", st |-> st]
     ELSE IF defs = {} THEN Ok(st1)
     ELSE Ok([st1 EXCEPT ![d].kids = addDefs(@)])

\* queries through the convenience accessors
MemberWithKey(st, f, prop, k) ==
  LET m == {x \in Range(List(st, f \o "cs", prop)) : st[x].key = k} IN IF m = {} THEN "-" ELSE CHOOSE x \in m : TRUE

Forget(st, f) == [x \in {x \in DOMAIN st : st[x].file # f \/ x \in Attached(st, f)} |-> st[x]]

\* a file opened for reading: the content storage's val says so
ReadOnly(st, f) == f \o "cs" \in DOMAIN st /\ st[f \o "cs"].val = 1
OpFile(st, op) == IF op.o = "copy" THEN op.to ELSE IF op.o = "new" THEN op.file ELSE IF "p" \in DOMAIN op THEN st[op.p].file ELSE op.file
Harmless == {"getitem", "getkey", "look", "disk", "gc", "save", "reopen", "mobof", "essof"}
Mode(st, op) == [st EXCEPT ![op.file \o "cs"].val = IF "mode" \in DOMAIN op /\ op.mode = "r" THEN 1 ELSE 0]

Apply(st, op) ==
  CASE ~(op.o \in Harmless) /\ ReadOnly(st, OpFile(st, op)) -> Err(st)
    [] op.o = "new" -> Ok(Put(st, op.p, Node(op)))
    [] op.o \in {"append", "extend", "insert", "setitem", "pop", "popkey", "clear", "assign", "getitem", "getkey"} ->
         IF Strong(st[op.p].cls, op.prop).k = "vec" THEN DoVec(st, op) ELSE DoSet(st, op)
    [] op.o = "set1" -> DoOne(st, op)
    [] op.o = "none" -> Ok(Absent(st, op.p, op.prop))
    [] op.o = "del" -> IF Present(st, op.p, op.prop) THEN Ok(Absent(st, op.p, op.prop)) ELSE Err(st)
    [] op.o \in {"wset1", "wextend", "wassign", "wclear"} -> DoWeak(st, op)
    [] op.o = "setval" -> Ok([st EXCEPT ![op.p].val = op.nv])
    [] op.o = "setkey" -> DoKey(st, op)
    [] op.o = "delkey" -> Err(st)      \* of an attached object
    [] op.o = "swrite" -> Ok([st EXCEPT ![op.p].str = Put(@, op.prop, op.d)])
    [] op.o = "copy" -> DoCopy(st, op)
    [] op.o = "mobof" -> OkV(st, MemberWithKey(st, op.file, "Mobs", op.key))
    [] op.o = "essof" -> OkV(st, MemberWithKey(st, op.file, "EssenceData", op.key))
    [] op.o \in {"gc", "look", "disk"} -> Ok(st)
    [] op.o = "save" -> IF ReadOnly(st, op.file) \/ Saveable(st, op.file) THEN Ok(st) ELSE Err(st)
    [] op.o = "reopen" -> IF ReadOnly(st, op.file) \/ Saveable(st, op.file) THEN Ok(Mode(Forget(st, op.file), op)) ELSE Err(st)

\* ------------------------------------------------------------ observation
\* what a reader of the public API sees of node x
View1(st, x) ==
  LET n == st[x] IN
  [val |-> n.val, key |-> n.key, str |-> n.str,
   kids |-> [p \in DOMAIN n.kids |-> IF Strong(n.cls, p).k = "set" THEN Range(n.kids[p]) ELSE n.kids[p]],
   weak |-> [p \in DOMAIN n.weak |->
      LET c == WeakCls(n.cls, p)
          r == [i \in 1..Len(n.weak[p]) |-> Resolve(st, n.file, c, n.weak[p][i])]
      IN IF "?" \in Range(r) THEN <<"?">> ELSE r]]

\* ------------------------------------------------------------- invariants
OneOwner(st) == \A x \in DOMAIN st :
  Cardinality({<<p, q>> \in UNION {{<<p, q>> : q \in DOMAIN st[p].kids} : p \in DOMAIN st} : x \in Range(st[p].kids[q])}) <= 1
NoRepeat(st) == \A p \in DOMAIN st : \A q \in DOMAIN st[p].kids : NoDup(st[p].kids[q])
UniqueKeys(st) == \A p \in DOMAIN st : \A q \in DOMAIN st[p].kids :
  Strong(st[p].cls, q).k = "set" => \A x, y \in Range(st[p].kids[q]) : st[x].key = st[y].key => x = y
Typed(st) == \A p \in DOMAIN st : \A q \in DOMAIN st[p].kids : \A x \in Range(st[p].kids[q]) :
  st[x].cls \in Strong(st[p].cls, q).t /\ st[x].file = st[p].file
StOk(st) == OneOwner(st) /\ NoRepeat(st) /\ UniqueKeys(st) /\ Typed(st)
=============================================================================
