------------------------------- MODULE MC_LRU -------------------------------
EXTENDS LRU, Json
CONSTANTS Keys, Vals, Cap
VARIABLES st, op
Ops == {[o |-> "set", k |-> k, v |-> v] : k \in Keys, v \in Vals}
       \cup {[o |-> x, k |-> k] : x \in {"get", "item", "in", "del"}, k \in Keys}
Init == st = EmptyLRU(Cap) /\ op = [o |-> "none"]
Next == \E o \in Ops : op' = o /\ st' = Apply(st, o).st
Edge == PrintT(<<"EDGE", ToString(st), ToJson(op'), ToString(st')>>)
View == st
InvOk == Inv(st)
\* only a set on a full cache may drop another key, and then only the least recently used one
Drops == [][\A k \in DOMAIN st.m : (k \notin DOMAIN st'.m) =>
              \/ op'.o = "del" /\ op'.k = k
              \/ op'.o = "set" /\ Len(st.q) = st.cap /\ k = st.q[Len(st.q)] /\ op'.k \notin DOMAIN st.m]_<<st, op>>
=============================================================================
