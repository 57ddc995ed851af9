------------------------------ MODULE Timeline ------------------------------
(* Timelines of mobs: slots, segments, positions in sequences, and the references between mobs.

   A segment is [n, k, len, mk, kids, mob, slot, start]: label, kind, length, media kind, members, and for source
   clips what they refer to.  kinds: seq, fill, trans, nest (nested scope), opg, sel, egrp, pull, tc, clip; "none" is
   the segment of a slot that has none.  A mob is [kind, usage, att, slots], a slot [sid, k, rate, seg] with k one of
   time, event, static.  The state maps the keys of mobs to mobs; only attached ones (att) can be referred to. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumTo(_, _)
\* signed lengths of the first i components: a transition takes away what it overlaps
SumTo(c, i) == IF i = 0 THEN 0 ELSE SumTo(c, i - 1) + (IF c[i].k = "trans" THEN -c[i].len ELSE c[i].len)
\* the overlap counts from the transition's own start
Pos(c, i) == IF c[i].k = "trans" THEN SumTo(c, i) ELSE SumTo(c, i - 1)
Total(c) == SumTo(c, Len(c))

\* what AAF asks of a sequence: positive lengths, transitions only between other components, which are long enough for both
TransLen(c, i) == IF i \in 1..Len(c) /\ c[i].k = "trans" THEN c[i].len ELSE 0
Legal(c) == /\ \A i \in 1..Len(c) : c[i].len > 0
            /\ \A i \in 1..Len(c) : c[i].k = "trans" => i > 1 /\ i < Len(c) /\ c[i - 1].k # "trans" /\ c[i + 1].k # "trans"
            /\ \A i \in 1..Len(c) : c[i].k # "trans" => c[i].len >= TransLen(c, i - 1) + TransLen(c, i + 1)
Covers(c, i, t) == Pos(c, i) <= t /\ t < Pos(c, i) + c[i].len
InTrans(c, t) == {i \in 1..Len(c) : c[i].k = "trans" /\ Covers(c, i, t)}
InClip(c, t) == {i \in 1..Len(c) : c[i].k # "trans" /\ Covers(c, i, t)}
\* index (from 1) of what is on at time t: the transition where two components overlap
IndexAt(c, t) == IF t <= 0 THEN 1
                 ELSE IF t >= Total(c) THEN Len(c)
                 ELSE IF InTrans(c, t) # {} THEN CHOOSE i \in InTrans(c, t) : TRUE
                 ELSE CHOOSE i \in InClip(c, t) : TRUE

Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
SlotLength(s) == IF s.k # "time" THEN 0
                 ELSE CASE s.seg.k = "seq" -> Total(s.seg.kids)
                        [] s.seg.k = "nest" -> Max({s.seg.kids[i].len : i \in 1..Len(s.seg.kids)} \cup {0})
                        [] OTHER -> s.seg.len
\* ---------------------------------------------------------------- references
Exists(st, k) == k \in DOMAIN st /\ st[k].att = 1
SlotsWith(st, k, sid) == {i \in 1..Len(st[k].slots) : st[k].slots[i].sid = sid}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
SlotAt(st, k, sid) == st[k].slots[First(SlotsWith(st, k, sid))]
RECURSIVE Clips(_), Labels(_)
Clips(g) == (IF g.k = "clip" THEN {g} ELSE {}) \cup UNION {Clips(g.kids[i]) : i \in 1..Len(g.kids)}
Labels(g) == (IF g.k = "none" THEN {} ELSE {g.n}) \cup UNION {Labels(g.kids[i]) : i \in 1..Len(g.kids)}
Refs(st, m) == {k \in UNION {{c.mob : c \in Clips(m.slots[i].seg)} : i \in 1..Len(m.slots)} : Exists(st, k)}
RECURSIVE Reach(_, _)
Reach(st, S) == LET T == S \cup UNION {Refs(st, st[k]) : k \in S} IN IF T = S THEN S ELSE Reach(st, T)
Depends(st, k) == Reach(st, Refs(st, st[k])) \ {k}
Cyclic(st, S) == \E k \in S : k \in Reach(st, Refs(st, st[k]))
\* the mobs a mob needs, each once, none before the ones it needs itself
GoodOrder(st, k, s) == /\ Rng(s) = Depends(st, k) /\ Len(s) = Cardinality(Rng(s))
                       /\ Cyclic(st, Rng(s) \cup {k}) \/ \A i, j \in 1..Len(s) : s[j] \in Refs(st, st[s[i]]) => j < i

\* what a clip leads to: [s |-> labels in order, r |-> "ok"/"err"]; a clip is followed at its own start time
RECURSIVE Walk(_, _)
Walk(st, c) ==
  LET W(s, r) == [s |-> s, r |-> r]
      on(x) == LET w == Walk(st, x) IN W(<<x.n>> \o w.s, w.r)
  IN IF ~Exists(st, c.mob) THEN W(<<>>, "ok")
     ELSE IF SlotsWith(st, c.mob, c.slot) = {} THEN W(<<>>, "err")
     ELSE LET g == SlotAt(st, c.mob, c.slot).seg IN
          CASE g.k = "clip" -> on(g)
            [] g.k = "seq" -> IF g.kids = <<>> THEN W(<<>>, "err")
                              ELSE LET x == g.kids[IndexAt(g.kids, c.start)] IN IF x.k = "clip" THEN on(x) ELSE W(<<>>, "err")
            [] g.k \in {"egrp", "fill", "opg", "pull"} -> W(<<g.n>>, "ok")
            [] OTHER -> W(<<>>, "err")
\* clips that can be followed to an end
RECURSIVE Ends(_, _, _)
Ends(st, c, seen) ==
  IF ~Exists(st, c.mob) \/ SlotsWith(st, c.mob, c.slot) = {} THEN TRUE
  ELSE LET g == SlotAt(st, c.mob, c.slot).seg
           x == IF g.k = "clip" THEN g ELSE IF g.k = "seq" /\ g.kids # <<>> THEN g.kids[IndexAt(g.kids, c.start)] ELSE g
       IN IF x.k # "clip" THEN TRUE ELSE IF x.n \in seen THEN FALSE ELSE Ends(st, x, seen \cup {x.n})
\* ------------------------------------------------------------------ changes
RECURSIVE Get(_, _), Put(_, _, _), PutAll(_, _, _)
Get(g, p) == IF p = <<>> THEN g ELSE Get(g.kids[Head(p)], Tail(p))
Put(g, p, v) == IF p = <<>> THEN v ELSE [g EXCEPT !.kids[Head(p)] = Put(g.kids[Head(p)], Tail(p), v)]
PutAll(st, op, v) == [st EXCEPT ![op.m].slots[op.i].seg = Put(st[op.m].slots[op.i].seg, op.p, v)]
At(st, op) == Get(st[op.m].slots[op.i].seg, op.p)
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Sids(m) == {m.slots[i].sid : i \in 1..Len(m.slots)}
AddSlot(st, k, s) == [st EXCEPT ![k].slots = Append(@, s)]
NoSeg == [k |-> "none", kids |-> <<>>]

Ok(st, v) == [st |-> st, r |-> "ok", v |-> v]
Err(st) == [st |-> st, r |-> "err", v |-> ""]
\* the id a new slot gets is the code's choice (op.got), but new
NewSlot(st, op, seg) ==
  LET sid == IF op.sid = -1 THEN op.got ELSE op.sid
  IN IF op.sid # -1 /\ op.sid \in Sids(st[op.m]) THEN Err(st)
     ELSE IF op.sid = -1 /\ op.got \in Sids(st[op.m]) \cup {-1} THEN [st |-> st, r |-> "an unused slot id", v |-> ""]
     ELSE Ok(AddSlot(st, op.m, [sid |-> sid, k |-> "time", rate |-> op.rate, seg |-> seg]), "")
Seg(n, k, len, mk) == [n |-> n, k |-> k, len |-> len, mk |-> mk, kids |-> <<>>, mob |-> "", slot |-> 0, start |-> 0]

Apply(st, op) ==
  CASE op.o = "newmob" -> Ok([k \in DOMAIN st \cup {op.m} |-> IF k = op.m THEN [kind |-> op.kind, usage |-> op.usage, att |-> 0, slots |-> <<>>] ELSE st[k]], "")
    [] op.o = "usage" -> Ok([st EXCEPT ![op.m].usage = op.usage], "")
    [] op.o = "attach" -> IF st[op.m].att = 1 THEN Err(st) ELSE Ok([st EXCEPT ![op.m].att = 1], "")
    [] op.o = "detach" -> Ok([st EXCEPT ![op.m].att = 0], "")
    [] op.o = "slot" -> NewSlot(st, op, NoSeg)
    [] op.o = "seqslot" -> NewSlot(st, op, Seg(op.n, "seq", 0, op.mk))
    [] op.o = "clipslot" -> NewSlot(st, op, Seg(op.n, "clip", 0, op.mk))
    [] op.o = "tcslot" -> NewSlot(st, op, Seg(op.n, "tc", IF op.len = 0 THEN op.fps * 43200 ELSE op.len, "Timecode"))
    [] op.o = "tape" -> IF 1 \in Sids(st[op.m]) THEN Err(st)
                        ELSE LET a == AddSlot(st, op.m, [sid |-> 1, k |-> "time", rate |-> op.rate, seg |-> Seg(op.n, "clip", (op.num * 43200) \div op.den, op.mk)])
                             IN NewSlot(a, op, Seg(op.n + 1, "tc", IF op.len = 0 THEN op.fps * 43200 ELSE op.len, "Timecode"))
    [] op.o = "addslot" -> Ok(AddSlot(st, op.m, op.s), "")
    [] op.o = "rmslot" -> Ok([st EXCEPT ![op.m].slots = RemoveAt(@, op.i)], "")
    [] op.o = "sid" -> Ok([st EXCEPT ![op.m].slots[op.i].sid = op.sid], "")
    [] op.o = "seg" -> Ok([st EXCEPT ![op.m].slots[op.i].seg = op.g], "")
    [] op.o = "ins" -> Ok(PutAll(st, op, [At(st, op) EXCEPT !.kids = InsertAt(@, op.at, op.g)]), "")
    [] op.o = "rm" -> Ok(PutAll(st, op, [At(st, op) EXCEPT !.kids = RemoveAt(@, op.at)]), "")
    [] op.o = "len" -> Ok(PutAll(st, op, [At(st, op) EXCEPT !.len = op.len]), "")
    [] op.o = "ref" -> Ok(PutAll(st, op, [At(st, op) EXCEPT !.mob = op.mob, !.slot = op.slot, !.start = op.start]), "")
    [] op.o = "clipfrom" ->
         IF SlotsWith(st, op.m, op.sid) = {} THEN Err(st)
         ELSE LET s == SlotAt(st, op.m, op.sid)  l == SlotLength(s) - op.start IN
              IF s.seg.k = "none" /\ s.k = "time" /\ op.len = 0 THEN Err(st)
              ELSE Ok(st, <<op.m, op.sid, op.start, IF op.len # 0 THEN op.len ELSE IF l < 0 THEN 0 ELSE l,
                            IF op.mk # "" THEN op.mk ELSE IF s.seg.k = "none" THEN "Picture" ELSE s.seg.mk>>)
    \* ---------------------------------------------------------- questions
    [] op.o = "positions" -> LET c == At(st, op).kids IN Ok(st, [i \in 1..Len(c) |-> <<i, Pos(c, i), c[i].n>>])
    [] op.o = "at" -> LET c == At(st, op).kids IN IF c = <<>> THEN Err(st) ELSE Ok(st, c[IndexAt(c, op.t)].n)
    [] op.o = "length" -> LET s == st[op.m].slots[op.i] IN IF s.k = "time" /\ s.seg.k = "none" THEN Err(st) ELSE Ok(st, SlotLength(s))
    [] op.o = "slotat" -> IF SlotsWith(st, op.m, op.sid) = {} THEN Err(st) ELSE Ok(st, First(SlotsWith(st, op.m, op.sid)))
    [] op.o = "target" -> LET c == At(st, op) IN
         IF ~Exists(st, c.mob) THEN Ok(st, <<"", 0>>)
         ELSE IF SlotsWith(st, c.mob, c.slot) = {} THEN Err(st)
         ELSE Ok(st, <<c.mob, First(SlotsWith(st, c.mob, c.slot))>>)
    [] op.o = "walk" -> LET w == Walk(st, At(st, op)) IN [st |-> st, r |-> w.r, v |-> w.s]
    [] op.o = "list" -> LET all == {k \in DOMAIN st : st[k].att = 1} IN
         Ok(st, CASE op.what = "all" -> all
                  [] op.what = "top" -> {k \in all : st[k].kind = "cmob" /\ st[k].usage = "Usage_TopLevel"}
                  [] OTHER -> {k \in all : st[k].kind = op.what})
    [] op.o = "look" -> Ok(st, "")
    [] op.o = "reopen" -> Ok([k \in {x \in DOMAIN st : st[x].att = 1} |-> st[k]], "")
    [] OTHER -> Ok(st, "")
=============================================================================
