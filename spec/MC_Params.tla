------------------------------ MODULE MC_Params ------------------------------
(* All histories of the keyframes of one parameter at times of Times with values of Vals. *)
EXTENDS Params
CONSTANTS Times, Vals, MaxLen
VARIABLES st, last, prev
vars == <<st, last, prev>>
Init == st = [x \in {"a"} |-> [k |-> "vary", ty |-> "Rational", ip |-> "lin", v |-> 0, pts |-> <<>>]] /\ last = [o |-> "none"] /\ prev = st
Do(op) == LET a == Apply(st, op) IN st' = a.st /\ last' = op /\ prev' = st
S == st["a"].pts
P == prev["a"].pts
Next == \/ \E n \in Times, v \in Vals, g \in {0, 1} : Len(S) < MaxLen /\ Do([o |-> "kf", x |-> "a", t |-> n, v |-> v, hint |-> "", good |-> g])
        \/ \E i \in 1..Len(S) : Do([o |-> "rm", x |-> "a", i |-> i])
        \/ \E i \in 1..Len(S), v \in Vals : Do([o |-> "setv", x |-> "a", i |-> i, v |-> v, good |-> 1])
        \/ \E ip \in {"lin", "const", "cubic"} : Do([o |-> "ip", x |-> "a", ip |-> ip])
Spec == Init /\ [][Next]_vars
InOrder == Sorted(S)
AsSet(s) == {<<s[i].t, s[i].v>> : i \in 1..Len(s)}
\* a keyframe replaces the one of its time, and no other
OnlyThat == last.o = "kf" =>
  AsSet(S) = IF last.good = 0 THEN AsSet(P) ELSE {x \in AsSet(P) : x[1] # last.t} \cup {<<last.t, last.v>>}
Range == LET lo == CHOOSE x \in Times : \A y \in Times : x <= y
             hi == CHOOSE x \in Times : \A y \in Times : x >= y
         IN {lo - 300, hi + 300} \cup {lo + 75 * i : i \in 0..((hi - lo) \div 75)}
\* at its time a keyframe has its value and no other value is right; elsewhere one value (up to rounding) is right if exact
Exact == S # <<>> => \A i \in 1..Len(S) : \A v \in Vals : ValueAt(st["a"], S[i].t, Fine * v) <=> v = S[i].v
Somewhere == S # <<>> => \A n \in Range : ValueAt(st["a"], n, At(st["a"], n))
Narrow == S # <<>> /\ st["a"].ip = "lin" => \A n \in Range : \A d \in {-4, 4} : ~ValueAt(st["a"], n, At(st["a"], n) + d)
View == <<st, prev, last>>
=============================================================================
