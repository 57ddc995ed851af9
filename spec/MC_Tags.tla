------------------------------- MODULE MC_Tags -------------------------------
(* All histories of one holder with the names Names, values Vals and up to MaxLen tags: it is a map that keeps order. *)
EXTENDS Tags
CONSTANTS Names, Vals, MaxLen
VARIABLES st, last, prev
vars == <<st, last, prev>>
Init == st = [h |-> [k \in {"a"} |-> <<>>], d |-> [x \in {} |-> 0]] /\ last = [o |-> "none"] /\ prev = st
Do(op) == LET a == Apply(st, op) IN st' = a.st /\ last' = op /\ prev' = st
S == st.h["a"]
Next == \/ \E n \in Names, v \in Vals, g \in {0, 1} :
             Len(S) < MaxLen /\ Do([o |-> "set", h |-> "a", n |-> n, t |-> "T", v |-> v, good |-> g])
        \/ \E n \in Names, v \in Vals : st.d = [x \in {} |-> 0] /\ Do([o |-> "make", x |-> "x", n |-> n, t |-> "T", v |-> v, good |-> 1])
        \/ \E x \in DOMAIN st.d : Len(S) < MaxLen /\ Do([o |-> "append", h |-> "a", x |-> x])
        \/ \E i \in 1..Len(S) : DOMAIN st.d = {} /\ Do([o |-> "pop", h |-> "a", i |-> i, x |-> "x"])
        \/ \E i \in 1..Len(S), n \in Names : Do([o |-> "name", h |-> "a", i |-> i, n |-> n, x |-> ""])
        \/ Do([o |-> "reverse", h |-> "a"]) \/ Do([o |-> "clear", h |-> "a"])
Spec == Init /\ [][Next]_vars
P == prev.h["a"]
\* what was set is what is found, under this name only, and nothing moves
Mapping == last.o = "set" =>
  IF last.good = 0 THEN st = prev
  ELSE /\ Find(S, last.n).v = last.v
       /\ \A n \in Names \ {last.n} : Has(S, n) = Has(P, n) /\ (Has(S, n) => Find(S, n) = Find(P, n))
       /\ Len(S) = Len(P) + (IF Has(P, last.n) THEN 0 ELSE 1)
       /\ \A i \in 1..Len(P) : S[i].n = P[i].n
Listed == \A n \in Names : Has(S, n) <=> \E i \in 1..Len(Pairs(S)) : Pairs(S)[i][1] = n
Size == Len(S) <= MaxLen
\* a tag put in by itself does not hide an older one
Older == last.o = "append" => \A n \in Names : Has(P, n) => Find(S, n) = Find(P, n)
View == <<st, prev, last>>
=============================================================================
