----------------------------- MODULE MC_Session -----------------------------
EXTENDS Session, Json
CONSTANTS Hs, Vs, Modes
VARIABLES st, op
Ops == {[o |-> "put", what |-> w] : w \in {-2, -1}}
       \cup {[o |-> "open", h |-> h, mode |-> m, mem |-> k] : h \in Hs, m \in Modes, k \in {0, 1}}
       \cup {[o |-> "edit", h |-> h, v |-> v] : h \in Hs, v \in Vs}
       \cup {[o |-> x, h |-> h] : x \in {"save", "close", "exit"}, h \in Hs}
Init == st = Empty(Hs) /\ op = [o |-> "none"]
Next == \E o \in Ops : May(st, o) /\ op' = o /\ st' = Apply(st, o).st
Edge == PrintT(<<"EDGE", ToString(st), ToJson(op'), ToString(st')>>)
View == st
Inv == OneWriter(st) /\ ReadersAgree(st)
Harmless == [][ReadersHarmless(st, op', st')]_<<st, op>>
=============================================================================
