-------------------------------- MODULE LRU --------------------------------
(* Bounded least-recently-used map.  st.q: keys, most recently used first; st.m: key -> value *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

EmptyLRU(cap) == [q |-> <<>>, m |-> <<>>, cap |-> cap]
Has(st, k) == \E i \in 1..Len(st.q) : st.q[i] = k
Without(q, k) == SelectSeq(q, LAMBDA x : x # k)
ToFront(q, k) == <<k>> \o Without(q, k)
MapDel(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]

R(st, r, v) == [st |-> st, r |-> r, v |-> v]

Set(st, k, v) ==
  LET q1 == ToFront(st.q, k)
  IN IF Len(q1) <= st.cap
     THEN [st EXCEPT !.q = q1, !.m = (k :> v) @@ st.m]
     ELSE LET old == q1[Len(q1)]
          IN [st EXCEPT !.q = SubSeq(q1, 1, st.cap), !.m = MapDel((k :> v) @@ st.m, old)]

Apply(st, op) ==
  CASE op.o = "set" -> R(Set(st, op.k, op.v), "ok", -1)
    [] op.o = "get" -> IF Has(st, op.k) THEN R([st EXCEPT !.q = ToFront(@, op.k)], "ok", st.m[op.k]) ELSE R(st, "ok", -1)
    [] op.o = "item" -> IF Has(st, op.k) THEN R([st EXCEPT !.q = ToFront(@, op.k)], "ok", st.m[op.k]) ELSE R(st, "err", -1)
    [] op.o = "in" -> R(st, "ok", IF Has(st, op.k) THEN 1 ELSE 0)
    [] op.o = "del" -> IF Has(st, op.k) THEN R([st EXCEPT !.q = Without(@, op.k), !.m = MapDel(@, op.k)], "ok", -1)
                       ELSE R(st, "err", -1)

Inv(st) ==
  /\ Len(st.q) <= st.cap
  /\ Cardinality({st.q[i] : i \in 1..Len(st.q)}) = Len(st.q)
  /\ DOMAIN st.m = {st.q[i] : i \in 1..Len(st.q)}
=============================================================================
