---------------------------- MODULE MC_Timeline ----------------------------
(* All sequences of up to MaxLen components with lengths 1..MaxL: positions, and one component at each time;
   all reference graphs of the mobs 1..NMobs: what a mob depends on; all histories of slot ids. *)
EXTENDS Timeline
CONSTANTS MaxLen, MaxL, NMobs
VARIABLES sq, gr
vars == <<sq, gr>>
Comp == [k: {"fill", "trans"}, len: 1..MaxL]
\* references of mob i: a set of mobs
Init == sq = <<>> /\ gr = [i \in 1..NMobs |-> {}]
AddComp == Len(sq) < MaxLen /\ \E x \in Comp : sq' = Append(sq, x) /\ gr' = gr
AddRef == sq = <<>> /\ \E i, j \in 1..NMobs : j \notin gr[i] /\ gr' = [gr EXCEPT ![i] = @ \cup {j}] /\ sq' = sq
Next == (AddComp /\ gr = [i \in 1..NMobs |-> {}]) \/ AddRef
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- sequences
\* exactly one answer: one transition, or no transition and one component
OneAnswer == Legal(sq) => \A t \in 0..Total(sq) - 1 :
  \/ Cardinality(InTrans(sq, t)) = 1
  \/ InTrans(sq, t) = {} /\ Cardinality(InClip(sq, t)) = 1
\* a transition lies on the end of the one before and the start of the one after
Overlap == Legal(sq) => \A i \in 1..Len(sq) : sq[i].k = "trans" =>
  /\ Pos(sq, i) = Pos(sq, i + 1)
  /\ Pos(sq, i) + sq[i].len = Pos(sq, i - 1) + sq[i - 1].len
\* time goes forward
Forward == Legal(sq) => \A t \in 0..Total(sq) : sq # <<>> => IndexAt(sq, t) <= IndexAt(sq, t + 1)
\* nothing is skipped, except what two transitions cover completely
Complete == Legal(sq) => \A i \in 1..Len(sq) :
  sq[i].k = "trans" \/ sq[i].len > TransLen(sq, i - 1) + TransLen(sq, i + 1) =>
  \/ Pos(sq, i) + sq[i].len <= 1       \* at the start the first component is on
  \/ \E t \in 0..Total(sq) - 1 : IndexAt(sq, t) = i
\* the sum of the lengths is the end of the last one
EndOfLast == Legal(sq) /\ sq # <<>> => Total(sq) = Pos(sq, Len(sq)) + sq[Len(sq)].len
\* ------------------------------------------------------------- references
Clip(k) == [Seg(0, "clip", 1, "Picture") EXCEPT !.mob = k]
MobOf(R) == [kind |-> "cmob", usage |-> "", att |-> 1,
             slots |-> <<[sid |-> 1, k |-> "time", rate |-> "25", seg |-> [Seg(0, "seq", 0, "Picture") EXCEPT !.kids = [i \in 1..NMobs |-> IF i \in R THEN Clip(i) ELSE Seg(0, "fill", 1, "Picture")]]]>>]
St == [k \in 1..NMobs |-> MobOf(gr[k])]
RECURSIVE Path(_, _, _)
Path(i, j, n) == j \in gr[i] \/ (n > 0 /\ \E m \in gr[i] : Path(m, j, n - 1))
\* dependencies are the transitive closure of the references
Closure == sq = <<>> => \A i \in 1..NMobs : Depends(St, i) = {j \in 1..NMobs : j # i /\ Path(i, j, NMobs)}
\* an order exists for every graph
Perms(S) == {s \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => s[a] # s[b]}
Ordered == sq = <<>> => \A i \in 1..NMobs : \E s \in Perms(Depends(St, i)) : GoodOrder(St, i, s)
=============================================================================
