------------------------------ MODULE AAFImage ------------------------------
(* What every saved AAF file satisfies, whatever its contents, stated over the facts an       *)
(* independent reader finds in its bytes (harness/aafimg.py): the objects reachable from the  *)
(* root over strong references, their stored properties, and the file's own dictionary.       *)
EXTENDS Integers, Sequences, FiniteSets
SINGLE == 34  VECTOR == 50  SET == 58  WEAK == 2  WVEC == 18  WSET == 26  STREAM == 66  DATA == 130
AllOne(s) == \A i \in 1..Len(s) : s[i] = 1
AllZero(s) == \A i \in 1..Len(s) : s[i] = 0
Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
\* (OperationGroup parameters are declared a vector and stored as a set, as the reference SDK does)
PropWhy(o, p) ==
  CASE p.err # "" -> "stored property: " \o p.err
    [] o.root = 0 /\ p.want = 0 -> "property is not defined by the class"
    [] o.root = 0 /\ p.fmt # p.want /\ ~(p.fmt = SET /\ p.want = VECTOR) -> "stored form differs from the declared type"
    [] p.fmt \in {SINGLE, VECTOR, SET} /\ ~AllOne(p.there) -> "strong reference to a missing object"
    [] p.fmt \in {SINGLE, VECTOR, SET} /\ o.root = 0 /\ ~AllOne(p.isa) -> "strong reference to an object of another class"
    [] p.fmt \in {VECTOR, SET} /\ ~Distinct(p.local) -> "two elements share a storage"
    [] p.fmt \in {VECTOR, SET} /\ ~AllZero(p.over) -> "next free element number already used"
    [] p.fmt = SET /\ ~Distinct(p.keys) -> "set lists a key twice"
    [] p.fmt = SET /\ p.keys # p.held -> "set key differs from the object's"
    [] p.fmt \in {SET, WEAK, WVEC, WSET} /\ ~(p.ksize \in {16, 32}) -> "key size"
    [] p.fmt \in {WEAK, WVEC, WSET} /\ p.target = 0 -> "weak reference into no set"
    [] p.fmt \in {WEAK, WVEC, WSET} /\ p.kpid # p.tkpid -> "weak reference names another key property than its set"
    [] p.fmt = WSET /\ ~Distinct(p.keys) -> "weak set lists a key twice"
    [] OTHER -> ""
ObjWhy(o) ==
  LET bad == {i \in 1..Len(o.props) : PropWhy(o, o.props[i]) # ""} IN
  CASE o.err # "" -> "stored object: " \o o.err
    [] o.root = 0 /\ o.defined = 0 -> "class is not in the dictionary"
    [] o.owners # 1 - o.root -> "object has several owners"
    [] o.missing # <<>> -> "required property is missing"
    [] bad # {} -> PropWhy(o, o.props[CHOOSE i \in bad : \A j \in bad : i <= j])
    [] OTHER -> ""
FactsWhy(f) ==
  LET bad == {i \in 1..Len(f.objs) : ObjWhy(f.objs[i]) # ""} IN
  CASE f.err # "" -> "file is malformed"
    [] f.tmp # 0 -> "temporary storage left behind"
    [] bad # {} -> ObjWhy(f.objs[CHOOSE i \in bad : \A j \in bad : i <= j])
    [] OTHER -> ""
\* weak references whose key is not in the set they point into: <<property, count>> summed
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Unresolved(f) == SumSeq([i \in 1..Len(f.objs) |-> SumSeq([j \in 1..Len(f.objs[i].props) |->
   LET p == f.objs[i].props[j] IN IF p.fmt \in {WEAK, WVEC, WSET} THEN Cardinality({k \in 1..Len(p.found) : p.found[k] = 0}) ELSE 0])])
=============================================================================
