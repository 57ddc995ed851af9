------------------------------- MODULE Session -------------------------------
(* Opening, editing, saving and closing one path through up to two handles.
   st.disk : what the path holds: -2 nothing, -1 bytes that are no AAF file, n >= 0 an AAF file with content n,
             -3 being written or abandoned half way (nothing is promised about it)
   st.h    : handle -> [m |-> mode, v |-> content seen through it], m in {"none","r","w","mem","done","rdone"}
             ("done": closed after writing, "rdone": closed after reading) *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

None == [m |-> "none", v |-> 0]
Empty(hs) == [disk |-> -2, h |-> [x \in hs |-> None]]
Kind(mode) == CASE mode \in {"r", "rb"} -> "r"
                [] mode \in {"r+", "rb+", "rw"} -> "u"
                [] mode \in {"w", "w+", "wb+"} -> "w"
                [] OTHER -> "bad"
IsOpen(h) == h.m \in {"r", "w", "mem"}
OnPath(h) == h.m \in {"r", "w"}
R(st, r) == [st |-> st, r |-> r]
H(st, x, m, v) == [st EXCEPT !.h[x] = [m |-> m, v |-> v]]

\* operations a program may perform: one writer and no reader, or readers only
May(st, op) ==
  CASE op.o = "put" -> \A x \in DOMAIN st.h : ~OnPath(st.h[x])
    [] op.o = "open" -> /\ ~IsOpen(st.h[op.h])
                        /\ \/ op.mem = 1
                           \/ /\ \A x \in DOMAIN st.h : st.h[x].m # "w"
                              /\ Kind(op.mode) \in {"u", "w"} => \A x \in DOMAIN st.h : ~OnPath(st.h[x])
                              /\ (st.disk # -3 \/ Kind(op.mode) \in {"w", "bad"})
    [] op.o = "edit" -> IsOpen(st.h[op.h])
    [] op.o = "exit" -> IsOpen(st.h[op.h])
    [] op.o \in {"save", "close"} -> st.h[op.h].m # "none"

Open(st, op) ==
  IF Kind(op.mode) = "bad" THEN R(st, "err")
  ELSE IF op.mem = 1 THEN R(H(st, op.h, "mem", 0), "ok")
  ELSE CASE Kind(op.mode) = "w" -> R([H(st, op.h, "w", 0) EXCEPT !.disk = -3], "ok")
         [] st.disk < 0 -> R(st, "err")
         [] Kind(op.mode) = "r" -> R(H(st, op.h, "r", st.disk), "ok")
         [] OTHER -> R([H(st, op.h, "w", st.disk) EXCEPT !.disk = -3], "ok")

Close(st, op) ==
  LET h == st.h[op.h]
  IN CASE h.m = "r" -> R(H(st, op.h, "rdone", 0), "ok")
       [] h.m = "w" -> R([H(st, op.h, "done", 0) EXCEPT !.disk = h.v], "ok")
       [] h.m = "mem" -> R(H(st, op.h, "done", 0), "ok")
       [] h.m = "done" -> R(st, "err")
       [] OTHER -> R(st, "any")

Apply(st, op) ==
  CASE op.o = "put" -> R([st EXCEPT !.disk = op.what], "ok")      \* the program removes the file or puts junk there
    [] op.o = "open" -> Open(st, op)
    [] op.o = "edit" -> IF st.h[op.h].m = "r" THEN R(st, "err") ELSE R([st EXCEPT !.h[op.h].v = op.v], "ok")
    [] op.o = "save" -> IF st.h[op.h].m = "done" THEN R(st, "err") ELSE R(st, IF st.h[op.h].m = "rdone" THEN "any" ELSE "ok")
    [] op.o = "close" -> Close(st, op)
    \* leaving a with block through an exception: nothing is saved, the handle is closed
    [] op.o = "exit" -> R(H(st, op.h, IF st.h[op.h].m = "r" THEN "rdone" ELSE "done", 0), "ok")

\* the design: what reading may never do, and what only closing a writer may do
ReadersHarmless(st, op, st2) ==
  (st.disk # st2.disk) => \/ op.o = "put"
                          \/ op.o = "open" /\ Kind(op.mode) \in {"u", "w"} /\ op.mem = 0 /\ st2.disk = -3
                          \/ op.o = "close" /\ st.h[op.h].m = "w" /\ st2.disk = st.h[op.h].v
OneWriter(st) == Cardinality({x \in DOMAIN st.h : st.h[x].m = "w"}) <= 1 /\
                 ((\E x \in DOMAIN st.h : st.h[x].m = "w") => \A x \in DOMAIN st.h : st.h[x].m # "r")
ReadersAgree(st) == \A x \in DOMAIN st.h : st.h[x].m = "r" => st.h[x].v = st.disk
=============================================================================
