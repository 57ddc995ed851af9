------------------------------ MODULE CFBImage ------------------------------
(* Well-formedness of a compound file on disk.                                                *)
(* A: the sector projection of one image; D: its directory entries.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* sorted extents <<start, n, ...>> that do not overlap
Disjoint(c) == \A i \in 1..(Len(c) - 1) : c[i][1] + c[i][2] <= c[i + 1][1]

\* maximal intervals of sorted, disjoint extents
RECURSIVE MergeFrom(_, _, _)
MergeFrom(c, i, acc) ==
  IF i > Len(c) THEN acc
  ELSE LET k == Len(acc)
       IN IF k > 0 /\ acc[k][1] + acc[k][2] = c[i][1]
          THEN MergeFrom(c, i + 1, [acc EXCEPT ![k] = <<@[1], @[2] + c[i][2]>>])
          ELSE MergeFrom(c, i + 1, Append(acc, <<c[i][1], c[i][2]>>))
Merge(c) == MergeFrom(c, 1, <<>>)

RANGELOCK == 524286          \* (0x7FFFFF00 / 4096) - 1
\* `used` without the reserved sector, which nothing owns
RECURSIVE WithoutFrom(_, _, _, _)
WithoutFrom(u, x, i, acc) ==
  IF i > Len(u) THEN acc
  ELSE LET s == u[i][1]  n == u[i][2] IN
       IF x >= s /\ x < s + n
       THEN LET a1 == IF x > s THEN Append(acc, <<s, x - s>>) ELSE acc
                a2 == IF x + 1 < s + n THEN Append(a1, <<x + 1, s + n - x - 1>>) ELSE a1
            IN WithoutFrom(u, x, i + 1, a2)
       ELSE WithoutFrom(u, x, i + 1, Append(acc, <<s, n>>))
Without(u, x) == WithoutFrom(u, x, 1, <<>>)

Ends(c) == IF c = <<>> THEN 0 ELSE c[Len(c)][1] + c[Len(c)][2]
CeilDiv(a, b) == (a + b - 1) \div b
\* sectors needed for a size given as <<high, low>> base 2^20
Need(hi, lo, unit) == hi * (1048576 \div unit) + CeilDiv(lo, unit)

AllocWhy(A) ==
  IF A.err # "" THEN "image unreadable: " \o A.err
  ELSE CASE
       ~Disjoint(A.claims) -> "a sector belongs to two owners"
    [] ~Disjoint(A.mclaims) -> "a mini sector belongs to two streams"
    [] A.rangelock = 1 -> "range lock sector handed out or left free"
    [] Merge(A.claims) # (IF A.rangelock = 2 THEN Without(A.used, RANGELOCK) ELSE A.used)
          -> "allocated sectors differ from owned sectors"
    [] Merge(A.mclaims) # A.mused -> "allocated mini sectors differ from owned mini sectors"
    [] Ends(A.claims) > A.nsect -> "an owned sector lies beyond the end of the file"
    [] A.fatmark # A.fatlist -> "FAT sectors not marked as such"
    [] A.difmark # A.diflist -> "DIFAT sectors not marked as such"
    [] A.fatc # A.nfat \/ A.fatlen # A.nfat * (A.ss \div 4) -> "FAT sector count in the header"
    [] A.dirc # A.ndir -> "directory sector count in the header"
    [] A.mfc # A.nmf -> "mini FAT sector count in the header"
    [] A.difc # A.ndif -> "DIFAT sector count in the header"
    [] A.nmini # CeilDiv(A.minisize, A.ss) -> "mini stream chain length differs from its size"
    [] A.mclaims # <<>> /\ Ends(A.mclaims) * 64 > A.minisize -> "a mini sector lies outside the mini stream"
    [] \E i \in 1..Len(A.streams) :
         LET s == A.streams[i]
         IN  s[3] # Need(s[1], s[2], IF s[4] = 1 THEN 64 ELSE A.ss) -> "stream chain length differs from its size"
    [] OTHER -> ""

-----------------------------------------------------------------------------
(* Directory: every storage's children form one binary search tree, ordered by name length    *)
(* and then by upper-cased name.                                                              *)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
NameLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLess(a, b, 1)

E(D, i) == D.es[i + 1]
Bad(i, D) == i < -1 \/ i >= Len(D.es)

\* in-order ids of the subtree at i, or <<-9>> when something is out of range or too deep
RECURSIVE InOrder(_, _, _)
InOrder(D, i, fuel) ==
  IF i = -1 THEN <<>>
  ELSE IF Bad(i, D) \/ fuel = 0 THEN <<-9>>
  ELSE InOrder(D, E(D, i).l, fuel - 1) \o <<i>> \o InOrder(D, E(D, i).r, fuel - 1)

RECURSIVE Height(_, _)
Height(D, i) == IF i = -1 THEN 0 ELSE 1 + (LET a == Height(D, E(D, i).l) b == Height(D, E(D, i).r) IN IF a > b THEN a ELSE b)
\* black height, or -1 when two paths differ
RECURSIVE BlackH(_, _)
BlackH(D, i) ==
  IF i = -1 THEN 1
  ELSE LET a == BlackH(D, E(D, i).l) b == BlackH(D, E(D, i).r)
       IN  IF a < 0 \/ b < 0 \/ a # b THEN -1 ELSE a + (IF E(D, i).b = 1 THEN 1 ELSE 0)
IsRed(D, i) == i # -1 /\ E(D, i).b = 0

MaxFuel == 40
Folders(D) == {i \in 0..(Len(D.es) - 1) : E(D, i).t \in {1, 5} /\ E(D, i).c # -1}
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* a red-black tree of n nodes is at most 2*log2(n+1) high:  2^(h/2) <= n+1
Balanced(n, h) == Pow2(h \div 2) <= n + 1

FolderWhy(D, f) ==
  LET o == InOrder(D, E(D, f).c, MaxFuel)
  IN CASE -9 \in {o[k] : k \in 1..Len(o)} -> "directory tree broken: link out of range, cyclic or far too deep"
       [] \E k \in 1..Len(o) : E(D, o[k]).t \notin {1, 2} -> "directory tree links an unused entry"
       [] \E k \in 1..(Len(o) - 1) : ~NameLess(E(D, o[k]).n, E(D, o[k + 1]).n) -> "directory tree out of order"
       [] ~Balanced(Len(o), Height(D, E(D, f).c)) -> "directory tree out of balance"
       [] OTHER -> ""

\* ids reachable from the root, each storage contributing its children
Reached(D) == {0} \cup UNION {{o[k] : k \in 1..Len(o)} : o \in {InOrder(D, E(D, f).c, MaxFuel) : f \in Folders(D)}}
RECURSIVE SumLen(_, _)
SumLen(D, fs) == IF fs = {} THEN 0 ELSE LET f == CHOOSE x \in fs : TRUE
                 IN Len(InOrder(D, E(D, f).c, MaxFuel)) + SumLen(D, fs \ {f})

RBWhy(D, f) ==
  LET o == InOrder(D, E(D, f).c, MaxFuel)
  IN CASE \E k \in 1..Len(o) : IsRed(D, o[k]) /\ (IsRed(D, E(D, o[k]).l) \/ IsRed(D, E(D, o[k]).r)) -> "red entry with a red child"
       [] BlackH(D, E(D, f).c) < 0 -> "unequal black heights"
       [] OTHER -> ""

DirWhy(D) ==
  IF D.err # "" THEN "image unreadable: " \o D.err
  ELSE LET ws == {FolderWhy(D, f) : f \in Folders(D)} \ {""}
       IN IF ws # {} THEN CHOOSE w \in ws : TRUE
          ELSE CASE Cardinality(Reached(D)) # 1 + SumLen(D, Folders(D)) -> "directory entry linked twice"
                 [] \E i \in 0..(Len(D.es) - 1) : E(D, i).t # 0 /\ i \notin Reached(D) -> "directory entry in use but not reachable"
                 [] \E i \in Reached(D) : E(D, i).t = 0 -> "unused directory entry reachable"
                 [] OTHER -> LET rb == {RBWhy(D, f) : f \in Folders(D)} \ {""}
                             IN IF rb # {} THEN CHOOSE w \in rb : TRUE ELSE ""
=============================================================================
