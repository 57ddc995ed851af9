----------------------------- MODULE MC_Essence -----------------------------
(* All histories of imports of small media to mobs of two files, removals and copies. *)
EXTENDS Essence
CONSTANTS Steps
VARIABLES st, last, prev, n
vars == <<st, last, prev, n>>
Wav == {[k |-> "wav", f |-> "w", ch |-> c, rate |-> 48000, bits |-> b, n |-> 24000, at |-> 44] : c \in {1, 2}, b \in {16, 24}}
Raw == {[k |-> "raw", f |-> "r", w |-> 10, h |-> 10, bits |-> 24, n |-> 2], [k |-> "raw", f |-> "r", w |-> 64, h |-> 32, bits |-> 32, n |-> 2]}
Dnx == {[k |-> "dnx", f |-> "d", w |-> 96, h |-> 54, bd |-> 8, il |-> 0, cid |-> "c1274", n |-> 3]}
Srcs == Wav \cup Raw \cup Dnx
None == [m |-> "", s |-> 0, b |-> 0]
Init == st = [f \in {"A", "B"} |-> [m |-> [x \in {} |-> 0], e |-> [x \in {} |-> 0]]] /\ last = [o |-> "none"] /\ prev = st /\ n = 0
Do(op) == LET a == Apply(st, op) IN st' = a.st /\ last' = op /\ prev' = st /\ n' = n + 1
M(f) == DOMAIN st[f].m
Referred(y) == \E x \in M("A") : \E i \in DOMAIN st["A"].m[x].s : st["A"].m[x].s[i].g.m = y
Empty(f, x) == x \in M(f) /\ st[f].m[x].d.k = "" /\ DOMAIN st[f].m[x].s = {}
Next ==
  /\ n < Steps
  /\ \/ \E x \in {"a", "b"} : x \notin M("A") /\ Do([o |-> "mob", f |-> "A", x |-> x, k |-> IF x = "a" THEN "master" ELSE "src"])
     \/ \E s \in Srcs, g, off \in {0, 1} : Empty("A", "b") /\ Do([o |-> "imps", f |-> "A", x |-> "b", src |-> s, er |-> <<25, 1>>, len |-> 0, off |-> off, tape |-> None, good |-> g])
     \/ \E s \in Wav \cup Dnx, y \in {"c", "d"} : "a" \in M("A") /\ y \notin M("A") /\ ~Referred(y) /\ Do([o |-> "impm", f |-> "A", x |-> "a", y |-> y, src |-> s, er |-> <<25, 1>>, len |-> 0, off |-> 0, tape |-> None, good |-> 1])
     \/ \E x \in M("A") \ M("B") : Do([o |-> "copy", f |-> "A", g |-> "B", x |-> x])
     \/ \E f \in {"A", "B"} : \E x \in M(f) : Do([o |-> "remove", f |-> f, x |-> x])
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(rs) == IF rs = <<>> THEN 0 ELSE rs[1].n + Total(SubSeq(rs, 2, Len(rs)))
\* essence has as many bytes as the description of its mob says, all of them of one source or padding
Sizes == \A f \in {"A", "B"} : \A x \in DOMAIN st[f].e :
           /\ x \in M(f)
           /\ LET d == st[f].m[x].d IN Total(st[f].e[x]) = CASE d.k = "pcm" -> d.n * d.align [] OTHER -> d.n * d.fs
           /\ \A i, j \in 1..Len(st[f].e[x]) : i < j /\ st[f].e[x][i].s # "" /\ st[f].e[x][j].s # "" =>
                st[f].e[x][i].a + st[f].e[x][i].n <= st[f].e[x][j].a
\* nothing but the mobs of the operation changes
Others == last.o # "none" => \A f \in {"A", "B"} : \A x \in DOMAIN prev[f].m :
            x \notin {last.x} => x \in M(f) /\ st[f].m[x] = prev[f].m[x] /\ (x \in DOMAIN prev[f].e => st[f].e[x] = prev[f].e[x])
Refused == last.o \in {"imps"} /\ last.good = 0 => st = prev
\* a slot that refers to a mob of an import has its length
Refers == \A x \in M("A") : \A i \in DOMAIN st["A"].m[x].s : LET s == st["A"].m[x].s[i] IN
            s.g.m \in M("A") => s.g.s \in DOMAIN st["A"].m[s.g.m].s /\ s.g.b + s.n <= st["A"].m[s.g.m].s[s.g.s].n
View == <<st, prev, last, n>>
=============================================================================
