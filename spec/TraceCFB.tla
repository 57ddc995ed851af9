------------------------------ MODULE TraceCFB ------------------------------
(* Replays recorded histories of the real compound file through CFB!Apply.                    *)
(* event: the operation's fields plus r (outcome), v (value read), pos/size of the handle     *)
(* after it, and, when has.tree, the whole observed tree.                                     *)
EXTENDS CFB, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
vars == <<t, l, st>>

ObsTree(e) == [i \in 1..Len(e.tree) |-> e.tree[i]]
SeqSet(s) == {s[i] : i \in 1..Len(s)}
TreeMatches(st2, e) ==
  LET obs == SeqSet(e.tree)
  IN /\ Len(e.tree) = Cardinality(Paths(st2))
     /\ \A x \in obs :
          /\ x.p \in Paths(st2) /\ x.pp = x.p
          /\ LET n == st2.tree[x.p] IN x.k = n.k /\ x.d = n.d /\ x.c = n.c /\ x.m = n.m

Why(e, a) ==
  CASE e.r # a.r -> "outcome of " \o e.o \o ": code " \o e.r \o ", specified " \o a.r
    [] e.o = "read" /\ e.v # a.v -> "bytes read differ from the bytes written"
    [] e.o = "exists" /\ e.v # a.v -> "existence of a path"
    [] a.st.h.o /\ e.pos >= 0 /\ e.pos # a.st.h.pos -> "stream position after " \o e.o
    [] a.st.h.o /\ e.pos >= 0 /\ e.size # RLen(Data(a.st)) -> "stream size after " \o e.o
    [] e.full = 1 /\ ~TreeMatches(a.st, e) -> "tree or contents after " \o e.o
    [] e.full = 1 /\ Cardinality(Paths(a.st)) < 40 /\ ~StOk(a.st) -> "specification state invalid"
    [] OTHER -> ""

Init == t \in 1..Len(Traces) /\ l = 1 /\ st = EmptySt
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[l]
         a == Apply(st, e)
         w == Why(e, a)
     IN IF w # ""
        THEN PrintT(<<"BAD", t, l, w>>) /\ l' = Len(Traces[t].ev) + 2 /\ UNCHANGED <<t, st>>
        ELSE /\ l' = l + 1 /\ st' = a.st /\ UNCHANGED t
             /\ (l = Len(Traces[t].ev) => PrintT(<<"DONE", t>>))
View == <<t, l>>
=============================================================================
