-------------------------------- MODULE Ids --------------------------------
(* Identifiers: AUIDs (16 bytes) and mob ids (32 bytes), and the forms they are given and read in.

   An AUID is the sequence of its bytes as written, most significant first.  A mob id is the sequence of its bytes as stored.
   A text is [ok, b]: whether it is well formed, and the bytes it spells.  Integers are sequences of bytes, [ok, b] too. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Byte == 0..255
\* ---------------------------------------------------------------- AUIDs
\* stored bytes of a written AUID; its own inverse: the first three parts are swapped
LE(b) == <<b[4], b[3], b[2], b[1], b[6], b[5], b[8], b[7]>> \o SubSeq(b, 9, 16)
Parts(b) == [d1 |-> SubSeq(b, 1, 4), d2 |-> SubSeq(b, 5, 6), d3 |-> SubSeq(b, 7, 8), d4 |-> SubSeq(b, 9, 16)]
AUIDForms(b) == [hex |-> b, str |-> b, int |-> b, be |-> b, le |-> LE(b), uuid |-> b, parts |-> Parts(b), copy |-> b, hasheq |-> 1, uuideq |-> 1, uuidkey |-> 1]

\* --------------------------------------------------------------- mob ids
Label(m) == SubSeq(m, 1, 12)
\* the material number: stored like an AUID
Material(m) == LE(SubSeq(m, 17, 32))
\* material numbers made of a label: its halves are written swapped
Half == <<6, 14, 43, 52, 127, 127>>
Swapped(m) == m[12] = 0 /\ SubSeq(m, 25, 30) = Half
Text(m) == SubSeq(m, 1, 16) \o (IF Swapped(m) THEN SubSeq(m, 25, 32) \o SubSeq(Material(m), 1, 8) ELSE Material(m))
OfText(t) == SubSeq(t, 1, 16) \o (IF t[12] = 0 /\ SubSeq(t, 17, 22) = Half THEN LE(SubSeq(t, 25, 32) \o SubSeq(t, 17, 24)) ELSE LE(SubSeq(t, 17, 32)))
\* material numbers that start like one of a swapped label: no text spells them
Unspeakable(m) == m[12] = 0 /\ SubSeq(Material(m), 1, 6) = Half /\ ~Swapped(m)
Fields(m) == [label |-> Label(m), length |-> m[13], inst |-> SubSeq(m, 14, 16), material |-> Material(m),
              parts |-> Parts(Material(m))]
MobForms(m) == [urn |-> Text(m), str |-> Text(m), int |-> m, le |-> m, fields |-> Fields(m), dict |-> Fields(m), fromdict |-> m, copy |-> m, hasheq |-> 1,
                spoken |-> IF Unspeakable(m) THEN OfText(Text(m)) ELSE m]

\* order of identifiers: as numbers
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE ELSE Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Less(Tail(a), Tail(b)))

Put(m, at, b) == [i \in 1..Len(m) |-> IF i >= at /\ i < at + Len(b) THEN b[i - at + 1] ELSE m[i]]
Fit(b, n) == Len(b) = n /\ \A i \in 1..n : b[i] \in Byte

Ok(st, v) == [st |-> st, r |-> "ok", v |-> v]
Err(st) == [st |-> st, r |-> "err", v |-> 0]
\* a field given as bytes in writing order
SetField(m, f, b) ==
  CASE f = "label" -> Put(m, 1, b) [] f = "length" -> Put(m, 13, b) [] f = "instanceHigh" -> Put(m, 14, b) [] f = "instanceMid" -> Put(m, 15, b)
    [] f = "instanceLow" -> Put(m, 16, b) [] f = "material" -> Put(m, 17, LE(b))
    [] f = "Data1" -> Put(m, 17, <<b[4], b[3], b[2], b[1]>>) [] f = "Data2" -> Put(m, 21, <<b[2], b[1]>>) [] f = "Data3" -> Put(m, 23, <<b[2], b[1]>>)
    [] OTHER -> Put(m, 25, b)
Size(f) == CASE f = "label" -> 12 [] f \in {"length", "instanceHigh", "instanceMid", "instanceLow"} -> 1 [] f = "material" -> 16
             [] f = "Data1" -> 4 [] f \in {"Data2", "Data3"} -> 2 [] OTHER -> 8

Apply(st, op) ==
  CASE op.o = "auid" -> IF op.how = "bad" THEN Err(st) ELSE Ok([st EXCEPT !.a = With(st.a, op.x, IF op.how = "le" THEN LE(op.b) ELSE op.b)], 0)
    [] op.o = "forms" -> Ok(st, AUIDForms(st.a[op.x]))
    [] op.o = "mob" -> IF op.how = "bad" THEN Err(st) ELSE Ok([st EXCEPT !.m = With(st.m, op.x, CASE op.how = "text" -> OfText(op.b) [] op.how = "null" -> [i \in 1..32 |-> 0] [] OTHER -> op.b)], 0)
    \* the text, integer or field of an id that is there; a refused one changes nothing
    [] op.o = "set" -> IF op.f = "bad" THEN Err(st)
                       ELSE LET m == st.m[op.x] IN
                            Ok([st EXCEPT !.m = With(st.m, op.x, CASE op.f = "urn" -> OfText(op.b) [] op.f = "int" -> op.b [] OTHER -> SetField(m, op.f, op.b))], 0)
    [] op.o = "mforms" -> Ok(st, MobForms(st.m[op.x]))
    \* one made from another is a value of its own
    [] op.o = "dup" -> IF op.t = "a" THEN Ok([st EXCEPT !.a = With(st.a, op.x, st.a[op.y])], 0) ELSE Ok([st EXCEPT !.m = With(st.m, op.x, st.m[op.y])], 0)
    [] op.o = "aset" -> Ok([st EXCEPT !.a = With(st.a, op.x, op.b)], 0)
    [] op.o = "msetm" -> Ok([st EXCEPT !.m = With(st.m, op.x, SetField(st.m[op.x], "material", st.a[op.y]))], 0)
    \* the material of a mob id is an AUID of its own
    [] op.o = "material" -> Ok([st EXCEPT !.a = With(st.a, op.y, Material(st.m[op.x]))], 0)
    [] op.o = "cmp" -> LET R == IF op.t = "a" THEN st.a ELSE st.m  a == R[op.x]  b == R[op.y]
                       IN Ok(st, [eq |-> IF a = b THEN 1 ELSE 0, lt |-> IF Less(a, b) THEN 1 ELSE 0, gt |-> IF Less(b, a) THEN 1 ELSE 0,
                                  key |-> IF a = b THEN 1 ELSE 0])
    \* the places of all of them in order
    [] op.o = "sort" -> LET R == IF op.t = "a" THEN st.a ELSE st.m
                        IN Ok(st, [x \in DOMAIN R |-> Cardinality({R[y] : y \in {z \in DOMAIN R : Less(R[z], R[x])}})])
    \* new ones differ from any other
    [] op.o = "new" -> IF op.b \in {st.m[y] : y \in DOMAIN st.m} THEN [st |-> st, r |-> "new", v |-> 0]
                       ELSE IF SubSeq(op.b, 1, 16) # <<6, 10, 43, 52, 1, 1, 1, 5, 1, 1, 15, 32, 19, 0, 0, 0>> THEN [st |-> st, r |-> "standard", v |-> 0]
                       ELSE Ok([st EXCEPT !.m = With(st.m, op.x, op.b)], 0)
    \* through a file: an id of a mob, and an AUID of an object
    [] op.o = "file" -> Ok(st, [m |-> st.m[op.x], a |-> st.a[op.y]])
    [] OTHER -> Err(st)
=============================================================================
