-------------------------------- MODULE Tags --------------------------------
(* Tagged values: comments and attributes of objects.

   The state maps holders (a property of an object, such as the comments of a mob) to sequences of tags, and the names
   of tags the program holds detached to those tags.  A tag is [n, t, v]: name, type and value; the type is the
   name of a data type, values are compared as tokens.  A holder is a map from names to values in which the first tag of
   a name counts, and keeps the order of the tags. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Matches(s, n) == {i \in 1..Len(s) : s[i].n = n}
Has(s, n) == Matches(s, n) # {}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Find(s, n) == s[First(Matches(s, n))]
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Tag(op) == [n |-> op.n, t |-> op.t, v |-> op.v]
Without(f, x) == [k \in DOMAIN f \ {x} |-> f[k]]
With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Pairs(s) == [i \in 1..Len(s) |-> <<s[i].n, s[i].v>>]

Ok(st, v) == [st |-> st, r |-> "ok", v |-> v]
Err(st) == [st |-> st, r |-> "err", v |-> ""]

Apply(st, op) ==
  LET s == IF "h" \in DOMAIN op THEN st.h[op.h] ELSE <<>>
      to(x) == [st EXCEPT !.h[op.h] = x]
  IN
  CASE op.o = "holder" -> Ok([st EXCEPT !.h = With(@, op.h, <<>>)], "")
    \* good = 0: a value (or name) no type of a tag takes
    [] op.o = "set" -> IF op.good = 0 THEN Err(st)
                       ELSE IF Has(s, op.n) THEN Ok(to([s EXCEPT ![First(Matches(s, op.n))] = Tag(op)]), "")
                       ELSE Ok(to(Append(s, Tag(op))), "")
    [] op.o = "idx" -> IF Has(s, op.n) THEN Ok(st, Find(s, op.n).v) ELSE Err(st)
    [] op.o = "get" -> Ok(st, IF Has(s, op.n) THEN <<Find(s, op.n)>> ELSE <<>>)
    [] op.o = "has" -> Ok(st, Has(s, op.n))
    [] op.o = "items" -> Ok(st, Pairs(s))
    [] op.o = "make" -> IF op.good = 0 THEN Err(st) ELSE Ok([st EXCEPT !.d = With(@, op.x, Tag(op))], "")
    [] op.o = "append" -> Ok([to(Append(s, st.d[op.x])) EXCEPT !.d = Without(@, op.x)], "")
    [] op.o = "insert" -> Ok([to(InsertAt(s, op.i, st.d[op.x])) EXCEPT !.d = Without(@, op.x)], "")
    [] op.o = "pop" -> Ok([to(RemoveAt(s, op.i)) EXCEPT !.d = With(@, op.x, s[op.i])], "")
    [] op.o = "again" -> Err(st)                     \* append one that is already there
    \* a tag, detached (x) or at i of h, gets another name or value
    [] op.o = "name" -> IF op.i = 0 THEN Ok([st EXCEPT !.d[op.x].n = op.n], "") ELSE Ok(to([s EXCEPT ![op.i].n = op.n]), "")
    [] op.o = "value" -> IF op.good = 0 THEN Err(st)
                         ELSE IF op.i = 0 THEN Ok([st EXCEPT !.d[op.x].t = op.t, !.d[op.x].v = op.v], "")
                         ELSE Ok(to([s EXCEPT ![op.i].t = op.t, ![op.i].v = op.v]), "")
    [] op.o = "clear" -> Ok(to(<<>>), "")
    [] op.o = "reverse" -> Ok(to([i \in 1..Len(s) |-> s[Len(s) + 1 - i]]), "")
    \* the object of the holders op.hs[i][1] is copied: op.hs[i][2] are those of the copy
    [] op.o = "copy" -> Ok([st EXCEPT !.h = [k \in DOMAIN @ \cup {op.hs[i][2] : i \in 1..Len(op.hs)} |->
                              IF k \in DOMAIN @ THEN @[k] ELSE @[op.hs[CHOOSE i \in 1..Len(op.hs) : op.hs[i][2] = k][1]]]], "")
    [] op.o = "look" -> Ok(st, "")
    [] op.o = "reopen" -> Ok([st EXCEPT !.d = [x \in {} |-> 0]], "")
    [] OTHER -> Err(st)
=============================================================================
