------------------------------- MODULE Values -------------------------------
(* Property values: how a value of a declared type is stored in bytes and read back, and the values
   the properties of an object hold after a history of changes.

   Types  [k |-> "int", n |-> bytes, s |-> signed 0/1]   [k |-> "bool"]   [k |-> "enum", e |-> int type, names, vals]
          [k |-> "ext", names, ids]   [k |-> "fixed", e, n]   [k |-> "var", e]   [k |-> "set", e]   [k |-> "str"]
          [k |-> "strs"]   [k |-> "rec", f |-> member types]   [k |-> "auid"]   [k |-> "mobid"]   [k |-> "ind"]
   Values [k |-> "int", neg, d |-> base 256 digits, least first, none leading]   [k |-> "name", s |-> name]
          [k |-> "seq", s]   [k |-> "set", s]   [k |-> "str", c |-> code points]   [k |-> "rec", s]
          [k |-> "id", b |-> bytes in text order]   [k |-> "ind", id, ty, v]   [k |-> "bad"] a value of no type
   Bytes  sequences of 0..255, as stored (little endian). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Byte == 0..255
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN <<>> ELSE [i \in 1..n |-> 0]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE LET m == Len(ss) \div 2 IN Flat(SubSeq(ss, 1, m)) \o Flat(SubSeq(ss, m + 1, Len(ss)))
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
In(s, x) == \E i \in 1..Len(s) : s[i] = x
MaxData == 65535                                  \* the size of a property is a 16 bit number

\* ------------------------------------------------------------- integers
FitsInt(n, s, v) ==
  LET L == Len(v.d) IN
  /\ s = 0 => v.neg = 0
  /\ \/ L < n
     \/ L = n /\ (s = 0 \/ v.d[n] < 128 \/ (v.neg = 1 /\ v.d[n] = 128 /\ \A i \in 1..(n - 1) : v.d[i] = 0))
Pad(d, n) == d \o Zeros(n - Len(d))
RECURSIVE Plus1(_)
Plus1(b) == IF b = <<>> THEN <<>> ELSE IF b[1] < 255 THEN <<b[1] + 1>> \o Tail(b) ELSE <<0>> \o Plus1(Tail(b))
Negate(b) == Plus1([i \in 1..Len(b) |-> 255 - b[i]])
RECURSIVE Trim(_)
Trim(d) == IF d = <<>> \/ d[Len(d)] # 0 THEN d ELSE Trim(SubSeq(d, 1, Len(d) - 1))
EncInt(n, v) == IF v.neg = 1 THEN Negate(Pad(v.d, n)) ELSE Pad(v.d, n)
DecInt(s, b) == IF s = 1 /\ b[Len(b)] >= 128 THEN [k |-> "int", neg |-> 1, d |-> Trim(Negate(b))]
                ELSE [k |-> "int", neg |-> 0, d |-> Trim(b)]

\* -------------------------------------------------------------- strings
Surrogate(c) == c >= 55296 /\ c <= 57343
Unit(u) == <<u % 256, u \div 256>>
EncChar(c) == IF c < 65536 THEN Unit(c) ELSE Unit(55296 + ((c - 65536) \div 1024)) \o Unit(56320 + ((c - 65536) % 1024))
EncStr(c) == Flat([i \in 1..Len(c) |-> EncChar(c[i])]) \o <<0, 0>>
Units(b) == [i \in 1..(Len(b) \div 2) |-> b[2 * i - 1] + 256 * b[2 * i]]
RECURSIVE Chars(_)
Chars(u) ==
  IF u = <<>> THEN <<>>
  ELSE IF u[1] >= 55296 /\ u[1] <= 56319 /\ Len(u) > 1 /\ u[2] >= 56320 /\ u[2] <= 57343
       THEN <<65536 + 1024 * (u[1] - 55296) + (u[2] - 56320)>> \o Chars(SubSeq(u, 3, Len(u)))
       ELSE <<u[1]>> \o Chars(Tail(u))
UpToNul(u) == IF In(u, 0) THEN SubSeq(u, 1, IndexOf(u, 0) - 1) ELSE u
RECURSIVE NulSplit(_)
NulSplit(u) == IF ~In(u, 0) THEN <<>>
               ELSE <<[k |-> "str", c |-> Chars(UpToNul(u))]>> \o NulSplit(SubSeq(u, IndexOf(u, 0) + 1, Len(u)))

\* ---------------------------------------------------------- identifiers
LE(b) == <<b[4], b[3], b[2], b[1], b[6], b[5], b[8], b[7]>> \o SubSeq(b, 9, 16)
EncMob(b) == SubSeq(b, 1, 16) \o LE(SubSeq(b, 17, 32))     \* an urn lists the material number last, in AUID text order

\* ---------------------------------------------------------------- types
RECURSIVE Size(_), SizeSum(_)
Size(ty) ==
  CASE ty.k = "int" -> ty.n
    [] ty.k = "bool" -> 1
    [] ty.k = "enum" -> ty.e.n
    [] ty.k \in {"ext", "auid"} -> 16
    [] ty.k = "mobid" -> 32
    [] ty.k = "fixed" -> ty.n * Size(ty.e)
    [] ty.k = "rec" -> SizeSum(ty.f)
    [] OTHER -> 0
SizeSum(f) == IF f = <<>> THEN 0 ELSE Size(f[1]) + SizeSum(Tail(f))

\* v can be stored in a property of type ty
RECURSIVE Ok(_, _)
Ok(ty, v) ==
  CASE v.k = "bad" -> FALSE
    [] ty.k = "int" -> v.k = "int" /\ FitsInt(ty.n, ty.s, v)
    [] ty.k = "bool" -> v.k = "int"
    [] ty.k = "enum" -> (v.k = "name" /\ In(ty.names, v.s)) \/ (v.k = "int" /\ In(ty.vals, v))
    [] ty.k = "ext" -> (v.k = "name" /\ In(ty.names, v.s)) \/ (v.k = "id" /\ In(ty.ids, v.b))
    [] ty.k = "fixed" -> v.k = "seq" /\ Len(v.s) <= ty.n /\ \A i \in 1..Len(v.s) : Ok(ty.e, v.s[i])
    [] ty.k = "var" -> v.k = "seq" /\ \A i \in 1..Len(v.s) : Ok(ty.e, v.s[i])
    [] ty.k = "set" -> v.k = "set" /\ \A i \in 1..Len(v.s) : Ok(ty.e, v.s[i])
    [] ty.k = "str" -> v.k = "str" /\ \A i \in 1..Len(v.c) : ~Surrogate(v.c[i])
    [] ty.k = "strs" -> v.k = "seq" /\ \A i \in 1..Len(v.s) : Ok([k |-> "str"], v.s[i])
    [] ty.k = "rec" -> v.k = "rec" /\ Len(v.s) = Len(ty.f) /\ \A i \in 1..Len(v.s) : Ok(ty.f[i], v.s[i])
    [] ty.k = "auid" -> v.k = "id" /\ Len(v.b) = 16
    [] ty.k = "mobid" -> v.k = "id" /\ Len(v.b) = 32
    [] ty.k = "ind" -> v.k = "ind" /\ Ok(v.ty, v.v)
    [] OTHER -> FALSE

\* the bytes that store v
RECURSIVE Enc(_, _)
Enc(ty, v) ==
  CASE ty.k = "int" -> EncInt(ty.n, v)
    [] ty.k = "bool" -> IF v.d = <<>> THEN <<0>> ELSE <<1>>
    [] ty.k = "enum" -> EncInt(ty.e.n, IF v.k = "name" THEN ty.vals[IndexOf(ty.names, v.s)] ELSE v)
    [] ty.k = "ext" -> LE(IF v.k = "name" THEN ty.ids[IndexOf(ty.names, v.s)] ELSE v.b)
    [] ty.k = "fixed" -> Flat([i \in 1..Len(v.s) |-> Enc(ty.e, v.s[i])]) \o Zeros((ty.n - Len(v.s)) * Size(ty.e))
    [] ty.k = "var" -> Flat([i \in 1..Len(v.s) |-> Enc(ty.e, v.s[i])])
    [] ty.k = "set" -> Flat([i \in 1..Len(v.s) |-> Enc(ty.e, v.s[i])])
    [] ty.k = "str" -> EncStr(v.c)
    [] ty.k = "strs" -> Flat([i \in 1..Len(v.s) |-> EncStr(v.s[i].c)])
    [] ty.k = "rec" -> Flat([i \in 1..Len(v.s) |-> Enc(ty.f[i], v.s[i])])
    [] ty.k = "auid" -> LE(v.b)
    [] ty.k = "mobid" -> EncMob(v.b)
    [] ty.k = "ind" -> <<76>> \o LE(v.id) \o Enc(v.ty, v.v)

\* the value bytes store ("ind": the indirect's own type is given, since it is looked up by identifier)
Chunk(b, n, i) == SubSeq(b, (i - 1) * n + 1, i * n)
Chunks(b, n) == [i \in 1..(Len(b) \div n) |-> Chunk(b, n, i)]
RECURSIVE Dec(_, _), DecRec(_, _)
Dec(ty, b) ==
  CASE ty.k = "int" -> DecInt(ty.s, b)
    [] ty.k = "bool" -> [k |-> "int", neg |-> 0, d |-> IF b = <<1>> THEN <<1>> ELSE <<>>]
    [] ty.k = "enum" -> LET v == DecInt(ty.e.s, b) IN [k |-> "name", s |-> ty.names[IndexOf(ty.vals, v)]]
    [] ty.k = "ext" -> IF In(ty.ids, LE(b)) THEN [k |-> "name", s |-> ty.names[IndexOf(ty.ids, LE(b))]] ELSE [k |-> "id", b |-> LE(b)]
    [] ty.k \in {"fixed", "var"} -> [k |-> "seq", s |-> [i \in 1..Len(Chunks(b, Size(ty.e))) |-> Dec(ty.e, Chunk(b, Size(ty.e), i))]]
    [] ty.k = "set" -> [k |-> "set", s |-> [i \in 1..Len(Chunks(b, Size(ty.e))) |-> Dec(ty.e, Chunk(b, Size(ty.e), i))]]
    [] ty.k = "str" -> [k |-> "str", c |-> Chars(UpToNul(Units(b)))]
    [] ty.k = "strs" -> [k |-> "seq", s |-> NulSplit(Units(b))]
    [] ty.k = "rec" -> [k |-> "rec", s |-> DecRec(ty.f, b)]
    [] ty.k = "auid" -> [k |-> "id", b |-> LE(b)]
    [] ty.k = "mobid" -> [k |-> "id", b |-> EncMob(b)]
    [] ty.k = "ind" -> [k |-> "ind", id |-> LE(SubSeq(b, 2, 17)), ty |-> ty.ty, v |-> Dec(ty.ty, SubSeq(b, 18, Len(b)))]
DecRec(f, b) == IF f = <<>> THEN <<>>
                ELSE <<Dec(f[1], SubSeq(b, 1, Size(f[1])))>> \o DecRec(Tail(f), SubSeq(b, Size(f[1]) + 1, Len(b)))

\* the value a reader gets after v was stored: names for enumerations, zero padded fixed arrays, truth values
RECURSIVE Zero(_)
Zero(ty) == CASE ty.k = "int" -> [k |-> "int", neg |-> 0, d |-> <<>>]
              [] ty.k = "rec" -> [k |-> "rec", s |-> [i \in 1..Len(ty.f) |-> Zero(ty.f[i])]]
              [] OTHER -> Dec(ty, Zeros(Size(ty)))
RECURSIVE Read(_, _)
Read(ty, v) ==
  CASE ty.k = "bool" -> [k |-> "int", neg |-> 0, d |-> IF v.d = <<>> THEN <<>> ELSE <<1>>]
    [] ty.k = "enum" /\ v.k = "int" -> [k |-> "name", s |-> ty.names[IndexOf(ty.vals, v)]]
    [] ty.k = "ext" /\ v.k = "id" /\ In(ty.ids, v.b) -> [k |-> "name", s |-> ty.names[IndexOf(ty.ids, v.b)]]
    [] ty.k = "fixed" -> [k |-> "seq", s |-> [i \in 1..ty.n |-> IF i <= Len(v.s) THEN Read(ty.e, v.s[i]) ELSE Zero(ty.e)]]
    [] ty.k \in {"var", "set"} -> [k |-> v.k, s |-> [i \in 1..Len(v.s) |-> Read(ty.e, v.s[i])]]
    [] ty.k = "rec" -> [k |-> "rec", s |-> [i \in 1..Len(v.s) |-> Read(ty.f[i], v.s[i])]]
    [] ty.k = "ind" -> [v EXCEPT !.v = Read(v.ty, v.v)]
    [] OTHER -> v
\* equal up to the order and repetition of a set
RECURSIVE Same(_, _)
Same(a, b) == IF a.k = "set" /\ b.k = "set" THEN {a.s[i] : i \in 1..Len(a.s)} = {b.s[i] : i \in 1..Len(b.s)}
              ELSE a = b

\* ------------------------------------------------- objects and their properties
(* st: object -> property -> value, for the properties it has *)
R(st, r) == [st |-> st, r |-> r]
Has(st, x, p) == p \in DOMAIN st[x]
Without(f, p) == [q \in DOMAIN f \ {p} |-> f[q]]
With(f, p, v) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN v ELSE f[q]]
Apply(st, op, ty) ==
  CASE op.o = "put" -> IF Ok(ty, op.v) /\ Len(Enc(ty, op.v)) <= MaxData
                       THEN R([st EXCEPT ![op.x] = With(@, op.p, Read(ty, op.v))], "ok") ELSE R(st, "err")
    [] op.o = "raw" -> R([st EXCEPT ![op.x] = With(@, op.p, Dec(ty, op.b))], "ok")
    [] op.o = "none" -> R([st EXCEPT ![op.x] = Without(@, op.p)], "ok")
    [] op.o = "del" -> IF Has(st, op.x, op.p) THEN R([st EXCEPT ![op.x] = Without(@, op.p)], "ok") ELSE R(st, "err")
    [] op.o = "new" -> R([y \in DOMAIN st \cup {op.x} |-> IF y = op.x THEN [q \in {} |-> 0] ELSE st[y]], "ok")
    [] op.o \in {"look", "save", "reopen", "disk"} -> R(st, "ok")
=============================================================================
