------------------------------- MODULE Params -------------------------------
(* Parameters of effects: constant values and keyframes.

   A parameter is [k, ty, ip, v, pts]: kind (const, vary), type, interpolation, value if constant, control points.  A
   point is [t, v, ty, hint, i, o, b]: time, value and its type, edit hint, in and out handle <<time, value>>, base frame.
   Times count 1/600, values 1/8; answers of interpolation count 1/128 (Fine). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fine == 16                     \* units of an answer in a unit of values
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Sorted(s) == \A i \in 1..Len(s) - 1 : s[i].t < s[i + 1].t
\* index of the last point not after t, 0 if there is none
Before(s, t) == Cardinality({i \in 1..Len(s) : s[i].t <= t})
Keyframe(s, p) == LET i == Before(s, p.t)
                  IN IF i > 0 /\ s[i].t = p.t THEN [s EXCEPT ![i] = p] ELSE InsertAt(s, i + 1, p)
Point(op, ty) == [t |-> op.t, v |-> op.v, ty |-> ty, hint |-> op.hint, i |-> <<0, 0>>, o |-> <<0, 0>>, b |-> 0]

\* TRUE if g answers the value at t: exact where the interpolation is linear, else between the values around t
Flat(p, q) == p.o = <<0, 0>> /\ q.i = <<0, 0>>
Linear(g, p, q, t) == LET L == q.t - p.t
                      IN Abs(g * L - Fine * (p.v * L + (q.v - p.v) * (t - p.t))) <= 2 * L
Between(g, S) == \E a, b \in S : Fine * a - 1 <= g /\ g <= Fine * b + 1
ValueAt(par, t, g) ==
  LET s == par.pts  i == Before(s, t) IN
  IF i = 0 THEN Abs(g - Fine * s[1].v) <= 1
  ELSE IF i = Len(s) \/ s[i].t = t \/ par.ip = "const" THEN Abs(g - Fine * s[i].v) <= 1
  ELSE LET p == s[i]  q == s[i + 1] IN
       CASE par.ip = "lin" -> Linear(g, p, q, t)
         [] par.ip = "bezier" -> IF Flat(p, q) THEN Linear(g, p, q, t) ELSE Between(g, {p.v, q.v, p.v + p.o[2], q.v + q.i[2]})
         [] par.ip = "cubic" -> Between(g, {p.v, q.v})
         [] OTHER -> FALSE
Known(par, t) == LET s == par.pts  i == Before(s, t)
                 IN i = 0 \/ i = Len(s) \/ par.ip # "none"

\* ------------------------------------------------------- offsets of a speed
\* bounds of the speed at t in units of answers
At(par, t) == LET s == par.pts  i == Before(s, t) IN
  IF i = 0 THEN Fine * s[1].v ELSE IF i = Len(s) \/ par.ip = "const" THEN Fine * s[i].v
  ELSE LET p == s[i]  q == s[i + 1]  L == q.t - p.t IN (Fine * (p.v * L + (q.v - p.v) * (t - p.t))) \div L
Speeds(par, a, b) == {At(par, a), At(par, b)} \cup {Fine * par.pts[i].v : i \in {j \in 1..Len(par.pts) : a <= par.pts[j].t /\ par.pts[j].t <= b}}
Trunc(t) == IF t >= 0 THEN t \div 600 ELSE -((-t) \div 600)
MapOk(par, start, end, g) ==
  LET c == Trunc(par.pts[1].t)
      e == IF end = -1 THEN Trunc(par.pts[Len(par.pts)].t) ELSE end
  IN /\ Len(g) = 2 * (e - start) + 1
     /\ \A i \in 1..Len(g) : g[i][1] = 600 * start + 300 * (i - 1)
     /\ \A i \in 1..Len(g) : g[i][1] = 600 * c => Abs(g[i][2] - 8 * Fine * par.pts[1].b) <= 1
     \* half a unit of time at a speed between the least and the greatest just before
     /\ \A i \in 2..Len(g) : LET S == Speeds(par, g[i][1] - 360, g[i][1] - 60)  d == 2 * (g[i][2] - g[i - 1][2])
                             IN \E lo, hi \in S : lo - 5 <= d /\ d <= hi + 5

Ok(st, v) == [st |-> st, r |-> "ok", v |-> v]
Err(st) == [st |-> st, r |-> "err", v |-> ""]
With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]

Apply(st, op) ==
  LET p == IF "x" \in DOMAIN op /\ op.x \in DOMAIN st THEN st[op.x] ELSE [k |-> ""]
      to(q) == Ok([st EXCEPT ![op.x] = q], "")
  IN
  CASE op.o = "new" -> IF op.good = 0 THEN Err(st) ELSE Ok(With(st, op.x, [k |-> op.k, ty |-> op.ty, ip |-> op.ip, v |-> op.v, pts |-> <<>>]), "")
    \* good = 0: a value the type of the parameter does not take
    [] op.o = "kf" -> IF op.good = 0 THEN Err(st) ELSE to([p EXCEPT !.pts = Keyframe(@, Point(op, p.ty))])
    [] op.o = "rm" -> to([p EXCEPT !.pts = RemoveAt(@, op.i)])
    [] op.o = "setv" -> IF op.good = 0 THEN Err(st) ELSE to([p EXCEPT !.pts[op.i].v = op.v])
    [] op.o = "sett" -> to([p EXCEPT !.pts[op.i].t = op.t])
    [] op.o = "handles" -> to([p EXCEPT !.pts[op.i].i = op.hi, !.pts[op.i].o = op.ho, !.pts[op.i].b = op.b])
    [] op.o = "cset" -> IF op.good = 0 THEN Err(st) ELSE to([p EXCEPT !.v = op.v])
    [] op.o = "ip" -> to([p EXCEPT !.ip = op.ip])
    \* ----------------------------------------------------- questions
    [] op.o = "idx" -> Ok(st, LET i == Before(p.pts, op.t) IN IF i = 0 THEN 1 ELSE i)
    [] op.o = "cat" -> Ok(st, p.v)
    [] op.o = "at" -> IF p.pts = <<>> \/ ~Known(p, op.t) THEN Err(st) ELSE Ok(st, "")
    [] op.o = "map" -> IF p.pts = <<>> \/ op.start > (IF op.end = -1 THEN Trunc(p.pts[Len(p.pts)].t) ELSE op.end) THEN Err(st) ELSE Ok(st, "")
    \* the group of the parameters op.xs[i][1] is copied: op.xs[i][2] are those of the copy
    [] op.o = "copy" -> Ok([k \in DOMAIN st \cup {op.xs[i][2] : i \in 1..Len(op.xs)} |->
                              IF k \in DOMAIN st THEN st[k] ELSE st[op.xs[CHOOSE i \in 1..Len(op.xs) : op.xs[i][2] = k][1]]], "")
    [] op.o = "assign" -> Ok([k \in DOMAIN st \ {op.xs[i] : i \in 1..Len(op.xs)} |-> st[k]], "")
    [] op.o \in {"look", "reopen"} -> Ok(st, "")
    [] OTHER -> Err(st)
=============================================================================
