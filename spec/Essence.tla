------------------------------ MODULE Essence ------------------------------
(* Essence: media files imported to, exported from and copied between AAF files.

   A file has [m, e]: mobs, and the bytes of essences by mob.  A mob is [k, d, s]: kind, description and slots.  A slot is
   [r, n, g]: edit rate <<num, den>>, length, and what its segment refers to [m, s, b]: mob, slot, start (m = "" for nothing).
   Bytes are a sequence of runs [s, a, n]: n bytes of source s from a on; source "" is zeros.
   A description is a record of kind and the attributes a player needs. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Without(f, K) == [j \in DOMAIN f \ K |-> f[j]]
Max2(a, b) == IF a > b THEN a ELSE b
Run(s, a, n) == [s |-> s, a |-> a, n |-> n]
Join(rs, r) == IF r.n = 0 THEN rs
               ELSE IF rs # <<>> /\ LET l == rs[Len(rs)] IN l.s = r.s /\ (r.s = "" \/ l.a + l.n = r.a)
               THEN [rs EXCEPT ![Len(rs)].n = @ + r.n] ELSE Append(rs, r)

\* --------------------------------------------------------------- wave files
\* src: [f, ch, rate, bits, n, at]: n frames from offset at on
Width(src) == src.bits \div 8
WaveDesc(src) == [k |-> "pcm", ch |-> src.ch, rate |-> src.rate, bits |-> src.bits, align |-> src.ch * Width(src), bps |-> src.rate * src.ch * Width(src), n |-> src.n]
\* frames at another rate, rounded down
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rescaled(n, rate, er) == LET g == Gcd(rate, er[1]) IN (n * (er[1] \div g)) \div ((rate \div g) * er[2])
WaveBytes(src) == Join(<<>>, Run(src.f, src.at, src.n * src.ch * Width(src)))

\* ------------------------------------------------------------- DNx streams
HD == [c1235 |-> 917504, c1237 |-> 606208, c1238 |-> 917504, c1241 |-> 917504, c1242 |-> 606208, c1243 |-> 917504, c1244 |-> 606208, c1250 |-> 458752,
       c1251 |-> 458752, c1252 |-> 303104, c1253 |-> 188416, c1256 |-> 1835008, c1258 |-> 212992, c1259 |-> 417792, c1260 |-> 835584]
HR == [c1270 |-> 57344, c1271 |-> 28672, c1272 |-> 28672, c1273 |-> 18944, c1274 |-> 5888]
FrameSize(src) == IF src.cid \in DOMAIN HD THEN HD[src.cid]
                  ELSE LET s == (((src.h + 15) \div 16) * ((src.w + 15) \div 16) * HR[src.cid]) \div 255
                       IN Max2(8192, ((s + 2048) \div 4096) * 4096)
DnxDesc(src, er) == [k |-> "dnx", w |-> src.w, h |-> src.h, bd |-> src.bd, lay |-> IF src.il = 1 THEN "SeparateFields" ELSE "FullFrame", cid |-> src.cid,
                     fs |-> FrameSize(src), n |-> src.n, rate |-> er]
DnxBytes(src) == Join(<<>>, Run(src.f, 0, src.n * FrameSize(src)))

\* --------------------------------------------------------------- raw video
RawSize(src) == (src.bits * src.w * src.h + 7) \div 8
Padded(src) == ((RawSize(src) + 8191) \div 8192) * 8192
RawDesc(src, er) == [k |-> "raw", w |-> src.w, h |-> src.h, fs |-> Padded(src), n |-> src.n, size |-> src.n * Padded(src), rate |-> er]
RECURSIVE RawBytes(_, _, _)
RawBytes(src, i, rs) == IF i = src.n THEN rs ELSE RawBytes(src, i + 1, Join(Join(rs, Run(src.f, i * RawSize(src), RawSize(src))), Run("", 0, Padded(src) - RawSize(src))))

Desc(src, er) == CASE src.k = "wav" -> WaveDesc(src) [] src.k = "dnx" -> DnxDesc(src, er) [] OTHER -> RawDesc(src, er)
Bytes(src) == CASE src.k = "wav" -> WaveBytes(src) [] src.k = "dnx" -> DnxBytes(src) [] OTHER -> RawBytes(src, 0, <<>>)
\* edit rate of the slot: that of the samples if none is given
Rate(src, er) == IF er = <<0, 1>> THEN <<src.rate, 1>> ELSE er
Length(src, er) == IF src.k = "wav" THEN Rescaled(src.n, src.rate, Rate(src, er)) ELSE src.n

Slot(r, n, m, s, b) == [r |-> r, n |-> n, g |-> [m |-> m, s |-> s, b |-> b]]
NoDesc == [k |-> ""]
NextSlot(m) == CHOOSE i \in 1..(Cardinality(DOMAIN m.s) + 1) : i \notin DOMAIN m.s /\ \A j \in 1..i - 1 : j \in DOMAIN m.s

Ok(st, v) == [st |-> st, r |-> "ok", v |-> v]
Err(st) == [st |-> st, r |-> "err", v |-> ""]
Put(st, f, m, e) == [st EXCEPT ![f] = [m |-> m, e |-> e]]

\* imported source mob: slot 1 is the essence
Imported(op) == LET n == IF op.len = 0 \/ op.src.k = "raw" THEN Length(op.src, op.er) ELSE op.len
                IN [k |-> "src", d |-> Desc(op.src, op.er), s |-> [i \in {1} |-> Slot(Rate(op.src, op.er), n, op.tape.m, op.tape.s, op.tape.b)]]

Apply(st, op) ==
  LET F == IF "f" \in DOMAIN op THEN st[op.f] ELSE [m |-> <<>>, e |-> <<>>]
  IN
  CASE op.o = "mob" -> Ok(Put(st, op.f, With(F.m, op.x, [k |-> op.k, d |-> NoDesc, s |-> [i \in {} |-> 0]]), F.e), "")
    [] op.o = "tape" -> Ok(Put(st, op.f, With(F.m, op.x, [k |-> "src", d |-> [k |-> "tape"],
                             s |-> [i \in {1, 2} |-> IF i = 1 THEN Slot(op.er, (op.er[1] * 43200) \div op.er[2], "", 0, 0) ELSE Slot(op.er, op.len, "tc", op.fps, 0)]]), F.e), "")
    \* to a source mob, which has no slots: good = 0 if the file is missing, or no such media
    [] op.o = "imps" -> IF op.good = 0 THEN Err(st)
                        ELSE Ok(Put(st, op.f, With(F.m, op.x, Imported(op)), IF op.off = 1 THEN F.e ELSE With(F.e, op.x, Bytes(op.src))), "")
    \* to a master mob: a new source mob y, and a slot that refers to it
    [] op.o = "impm" -> IF op.good = 0 THEN Err(st)
                        ELSE LET y == Imported(op)
                                 x == [F.m[op.x] EXCEPT !.s = With(F.m[op.x].s, NextSlot(F.m[op.x]), Slot(Rate(op.src, op.er), y.s[1].n, op.y, 1, 0))]
                             IN Ok(Put(st, op.f, With(With(F.m, op.y, y), op.x, x), IF op.off = 1 THEN F.e ELSE With(F.e, op.y, Bytes(op.src))), "")
    \* a wave file of the essence
    [] op.o = "export" -> IF op.x \notin DOMAIN F.e \/ F.m[op.x].d.k # "pcm" THEN Err(st)
                          ELSE LET d == F.m[op.x].d IN Ok(st, [ch |-> d.ch, rate |-> d.rate, bits |-> d.bits, data |-> F.e[op.x]])
    \* the bytes from a on, through a stream
    [] op.o = "read" -> IF op.x \notin DOMAIN F.e THEN Err(st) ELSE Ok(st, F.e[op.x])
    [] op.o = "remove" -> Ok(Put(st, op.f, Without(F.m, {op.x}), Without(F.e, {op.x})), "")
    \* a mob and its essence to a file that has neither
    [] op.o = "copy" -> LET g == op.g  m == F.m[op.x] IN
                        Ok(Put(st, g, With(st[g].m, op.x, m), IF op.x \in DOMAIN F.e THEN With(st[g].e, op.x, F.e[op.x]) ELSE st[g].e), "")
    [] op.o \in {"look", "reopen"} -> Ok(st, "")
    [] OTHER -> Err(st)
=============================================================================
