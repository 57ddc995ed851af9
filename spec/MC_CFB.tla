------------------------------- MODULE MC_CFB -------------------------------
(* Exhaustive exploration of CFB over a small alphabet; prints every transition. *)
EXTENDS CFB, Json
CONSTANTS Names, Sizes, MaxDepth, MaxLen, MaxRuns, MaxNodes, OpSet, Modes, EndOff
VARIABLES st, op
vars == <<st, op>>

U(n) == CASE n = "a" -> "1:A" [] n = "A" -> "1:A" [] n = "bb" -> "2:BB" [] OTHER -> n
PathsUpTo == UNION {[1..k -> Names] : k \in 1..MaxDepth}
None == [o |-> "none"]
Bytes == {1}

Ops == (
  {[o |-> "mkdir", p |-> p, u |-> U(Base(p)), c |-> 0] : p \in PathsUpTo} \cup
  {[o |-> "open", p |-> p, u |-> U(Base(p)), m |-> m] : p \in PathsUpTo, m \in Modes} \cup
  {[o |-> "write", d |-> <<<<b, n>>>>] : b \in Bytes, n \in Sizes} \cup
  {[o |-> "read", n |-> n] : n \in Sizes \cup {-1}} \cup
  {[o |-> "seek", n |-> n, w |-> 0] : n \in Sizes \cup {0}} \cup
  {[o |-> "seek", n |-> n, w |-> 2] : n \in EndOff} \cup
  {[o |-> "truncate", n |-> n] : n \in Sizes \cup {0, -1}} \cup
  {[o |-> "remove", p |-> p] : p \in PathsUpTo} \cup
  {[o |-> "rmtree", p |-> p] : p \in PathsUpTo} \cup
  {[o |-> "move", p |-> p, q |-> q, u |-> U(Base(q))] : p \in PathsUpTo, q \in PathsUpTo} \cup
  {[o |-> "exists", p |-> p] : p \in PathsUpTo} \cup
  {[o |-> "reopen"]} )

Init == st = EmptySt /\ op = None /\ PrintT(<<"INIT", ToString(EmptySt)>>)
Next == \E o \in Ops : o.o \in OpSet /\ op' = o /\ st' = Apply(st, o).st

Small(s) == /\ \A p \in Paths(s) : RLen(s.tree[p].d) <= MaxLen /\ Len(s.tree[p].d) <= MaxRuns
            /\ Cardinality(Paths(s)) <= MaxNodes + 1
Bound == Small(st)
Edge == Small(st') => PrintT(<<"EDGE", ToString(st), ToJson(op'), ToString(st')>>)
View == st

Inv == StOk(st)
FrameProp == [][Frame(st, op', st', Apply(st, op').r)]_vars
=============================================================================
