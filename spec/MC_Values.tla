------------------------------ MODULE MC_Values ------------------------------
(* The codec is lossless: every storable value of a small type is read back, and nothing else has its bytes *)
EXTENDS Values
I(n) == IF n < 0 THEN [k |-> "int", neg |-> 1, d |-> Trim(<<(-n) % 256, ((-n) \div 256) % 256, (-n) \div 65536>>)]
        ELSE [k |-> "int", neg |-> 0, d |-> Trim(<<n % 256, (n \div 256) % 256, n \div 65536>>)]
Int1(s) == [k |-> "int", n |-> 1, s |-> s]
Int2(s) == [k |-> "int", n |-> 2, s |-> s]
Enum == [k |-> "enum", e |-> Int1(1), names |-> <<"a", "b", "c">>, vals |-> <<I(0), I(-1), I(7)>>]
Rec == [k |-> "rec", f |-> <<Int1(0), Int2(1)>>]
Cp == {1, 65, 255, 256, 55295, 55296, 57343, 57344, 65535, 65536, 66559, 66560, 1114111}
Str(c) == [k |-> "str", c |-> c]
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Some == {I(n) : n \in {-129, -128, -1, 0, 1, 127, 128, 255, 256}}
Cases ==
  {<<Int1(s), I(n)>> : s \in {0, 1}, n \in -300..300}
  \cup {<<Int2(s), I(n)>> : s \in {0, 1}, n \in {-32770, -32769, -32768, -32767, -1, 0, 1, 255, 256, 32767, 32768, 65535, 65536}}
  \cup {<<[k |-> "bool"], I(n)>> : n \in {0, 1}}
  \cup {<<Enum, [k |-> "name", s |-> n]>> : n \in {"a", "b", "c", "d"}} \cup {<<Enum, x>> : x \in Some}
  \cup {<<[k |-> "str"], Str(c)>> : c \in Seqs(Cp, 2)}
  \cup {<<[k |-> "strs"], [k |-> "seq", s |-> s]>> : s \in Seqs({Str(<<>>), Str(<<65>>), Str(<<65536, 66>>)}, 3)}
  \cup {<<[k |-> "var", e |-> Int1(1)], [k |-> "seq", s |-> s]>> : s \in Seqs(Some, 2)}
  \cup {<<[k |-> "fixed", e |-> Int2(0), n |-> 2], [k |-> "seq", s |-> s]>> : s \in Seqs(Some, 3)}
  \cup {<<[k |-> "set", e |-> Int1(0)], [k |-> "set", s |-> s]>> : s \in Seqs(Some, 2)}
  \cup {<<Rec, [k |-> "rec", s |-> <<a, b>>]>> : a \in Some, b \in Some}
  \cup {<<[k |-> "fixed", e |-> Rec, n |-> 2], [k |-> "seq", s |-> <<[k |-> "rec", s |-> <<a, b>>]>>]>> : a \in Some, b \in Some}
VARIABLES c
Init == c \in Cases
Next == UNCHANGED c
Lossless == Ok(c[1], c[2]) => Same(Dec(c[1], Enc(c[1], c[2])), Read(c[1], c[2]))
Idempotent == Ok(c[1], c[2]) => Read(c[1], Read(c[1], c[2])) = Read(c[1], c[2])
ByteSized == Ok(c[1], c[2]) => \A i \in 1..Len(Enc(c[1], c[2])) : Enc(c[1], c[2])[i] \in Byte
Sized == Ok(c[1], c[2]) /\ Size(c[1]) > 0 => Len(Enc(c[1], c[2])) = Size(c[1])
=============================================================================
