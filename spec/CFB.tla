-------------------------------- MODULE CFB --------------------------------
(* The compound file as its users see it: a tree of storages and streams, one stream handle   *)
(* with a position, and "reopen" (close the file, open it again).  Apply(st, op) is the whole *)
(* transition relation: it is total and deterministic and yields the next state and outcome.  *)
(*                                                                                            *)
(*   st.tree : path -> node      a path is a sequence of names, <<>> is the root              *)
(*   node    : [k |-> "d"|"s", u |-> collation name, c |-> class id (0 none), m |-> metadata, *)
(*              d |-> contents as run lengths]                                                *)
(*   st.h    : [o |-> is a handle open, p |-> its path, pos |-> position]                     *)
EXTENDS Runs, FiniteSets, TLC

NoH == [o |-> FALSE, p |-> <<>>, pos |-> 0]
NoMeta == <<0, 0, 0>>                        \* flags, creation time, modification time
Node(k, u) == [k |-> k, u |-> u, c |-> 0, m |-> NoMeta, d |-> <<>>]
RootNode == [Node("d", "ROOT") EXCEPT !.c = 1]   \* class id 1 stands for the root's own class id
EmptySt == [tree |-> (<<>> :> RootNode), h |-> NoH]

Paths(st) == DOMAIN st.tree
IsDir(st, p) == p \in Paths(st) /\ st.tree[p].k = "d"
IsStream(st, p) == p \in Paths(st) /\ st.tree[p].k = "s"
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Base(p) == p[Len(p)]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Children(st, p) == {q \in Paths(st) : Len(q) = Len(p) + 1 /\ IsPrefixOf(p, q)}
Subtree(st, p) == {q \in Paths(st) : IsPrefixOf(p, q)}
\* a sibling of p (not `skip`) whose name collides with collation name u
Collides(st, p, u, skip) == \E q \in Children(st, Parent(p)) : q # skip /\ st.tree[q].u = u

NameOk(n) == Len(n) >= 1 /\ Len(n) <= 32

CanCreate(st, p, u) ==
  /\ p # <<>> /\ p \notin Paths(st)
  /\ IsDir(st, Parent(p))
  /\ NameOk(Base(p))
  /\ ~Collides(st, p, u, <<>>)

Add(st, p, node) == [st EXCEPT !.tree = (p :> node) @@ st.tree]
Drop(st, ps) == [st EXCEPT !.tree = [q \in Paths(st) \ ps |-> st.tree[q]],
                           !.h = IF @.o /\ @.p \in ps THEN NoH ELSE @]

OK(st) == [st |-> st, r |-> "ok", v |-> <<>>]
OKV(st, v) == [st |-> st, r |-> "ok", v |-> v]
ERR(st) == [st |-> st, r |-> "err", v |-> <<>>]

Mkdir(st, op) ==
  IF CanCreate(st, op.p, op.u)
  THEN OK(Add(st, op.p, [Node("d", op.u) EXCEPT !.c = op.c]))
  ELSE ERR(st)

\* op.us: collation names of each component
RECURSIVE MkdirsFrom(_, _, _, _)
MkdirsFrom(st, p, us, i) ==
  IF i > Len(p) THEN OK(st)
  ELSE LET q == SubSeq(p, 1, i)
       IN  IF q \in Paths(st)
           THEN IF i < Len(p) /\ ~IsDir(st, q) THEN ERR(st) ELSE MkdirsFrom(st, p, us, i + 1)
           ELSE IF CanCreate(st, q, us[i])
                THEN MkdirsFrom(Add(st, q, Node("d", us[i])), p, us, i + 1)
                ELSE ERR(st)
Makedirs(st, op) == MkdirsFrom(st, op.p, op.us, 1)

\* open for reading, truncating ("w") or updating ("rw"); the handle replaces the previous one
Open(st, op) ==
  LET hd == [o |-> TRUE, p |-> op.p, pos |-> 0]
  IN CASE op.m = "r" ->
            IF IsStream(st, op.p) THEN OK([st EXCEPT !.h = hd]) ELSE ERR(st)
       [] op.m \in {"w", "rw"} ->
            IF IsStream(st, op.p)
            THEN IF op.m = "w"
                 THEN OK([st EXCEPT !.h = hd, !.tree[op.p].d = <<>>, !.tree[op.p].c = 0])
                 ELSE OK([st EXCEPT !.h = hd])
            ELSE IF CanCreate(st, op.p, op.u)
                 THEN OK([Add(st, op.p, Node("s", op.u)) EXCEPT !.h = hd])
                 ELSE ERR(st)
       [] OTHER -> ERR(st)

\* DirEntry.touch(name): create an empty stream, or return the entry that is there
Touch(st, op) ==
  IF op.p \in Paths(st) THEN OK(st)
  ELSE IF CanCreate(st, op.p, op.u) THEN OK(Add(st, op.p, Node("s", op.u))) ELSE ERR(st)

Data(st) == st.tree[st.h.p].d

Write(st, op) ==
  IF ~st.h.o THEN ERR(st)
  ELSE LET n == RLen(op.d)
       IN  OK([st EXCEPT !.tree[st.h.p].d = RWrite(@, st.h.pos, op.d), !.h.pos = @ + n])

Read(st, op) ==
  IF ~st.h.o THEN ERR(st)
  ELSE LET l == RLen(Data(st))
           e == IF op.n < 0 THEN Max2(l, st.h.pos) ELSE Max2(st.h.pos, Min2(l, st.h.pos + op.n))
       IN  OKV([st EXCEPT !.h.pos = e], RSlice(Data(st), st.h.pos, e))

Seek(st, op) ==
  IF ~st.h.o THEN ERR(st)
  ELSE LET l == RLen(Data(st))
           t == CASE op.w = 0 -> op.n [] op.w = 1 -> st.h.pos + op.n [] op.w = 2 -> l + op.n
       IN  IF t < 0 THEN ERR(st)
           ELSE OK([st EXCEPT !.tree[st.h.p].d = RFit(@, Max2(t, l)), !.h.pos = t])

Truncate(st, op) ==
  IF ~st.h.o THEN ERR(st)
  ELSE LET n == IF op.n < 0 THEN st.h.pos ELSE op.n
       IN  OK([st EXCEPT !.tree[st.h.p].d = RFit(@, n), !.h.pos = Min2(@, n)])

Remove(st, op) ==
  IF op.p = <<>> \/ op.p \notin Paths(st) \/ Children(st, op.p) # {} THEN ERR(st)
  ELSE OK(Drop(st, {op.p}))

Rmtree(st, op) ==
  IF op.p = <<>> \/ ~IsDir(st, op.p) THEN ERR(st) ELSE OK(Drop(st, Subtree(st, op.p)))

Rename(st, src, dst, u) ==
  LET t(q)  == IF IsPrefixOf(src, q) THEN dst \o SubSeq(q, Len(src) + 1, Len(q)) ELSE q
      back(q) == IF IsPrefixOf(dst, q) THEN src \o SubSeq(q, Len(dst) + 1, Len(q)) ELSE q
      dom   == {t(q) : q \in Paths(st)}
  IN [st EXCEPT !.tree = [q \in dom |-> IF q = dst THEN [st.tree[src] EXCEPT !.u = u] ELSE st.tree[back(q)]],
                !.h.p = IF st.h.o THEN t(@) ELSE @]

Move(st, op) ==
  IF \/ op.p = <<>> \/ op.q = <<>>
     \/ op.p \notin Paths(st) \/ op.q \in Paths(st)
     \/ ~IsDir(st, Parent(op.q))
     \/ IsPrefixOf(op.p, op.q)                 \* a storage cannot move inside itself
     \/ ~NameOk(Base(op.q))
     \/ Collides(st, op.q, op.u, op.p)
  THEN ERR(st)
  ELSE OK(Rename(st, op.p, op.q, op.u))

Exists(st, op) ==      \* a path that runs through a stream is an error, not "absent"
  IF \E i \in 1..(Len(op.p) - 1) : IsStream(st, SubSeq(op.p, 1, i)) THEN ERR(st)
  ELSE OKV(st, IF op.p \in Paths(st) THEN <<1>> ELSE <<0>>)

SetMeta(st, op) ==
  IF op.p \notin Paths(st) \/ op.p = <<>> THEN ERR(st)
  ELSE OK([st EXCEPT !.tree[op.p].m = op.m, !.tree[op.p].c = op.c])

Reopen(st, op) == OK([st EXCEPT !.h = NoH])

Apply(st, op) ==
  CASE op.o = "mkdir"    -> Mkdir(st, op)
    [] op.o = "makedirs" -> Makedirs(st, op)
    [] op.o = "open"     -> Open(st, op)
    [] op.o = "touch"    -> Touch(st, op)
    [] op.o = "write"    -> Write(st, op)
    [] op.o = "read"     -> Read(st, op)
    [] op.o = "seek"     -> Seek(st, op)
    [] op.o = "truncate" -> Truncate(st, op)
    [] op.o = "remove"   -> Remove(st, op)
    [] op.o = "rmtree"   -> Rmtree(st, op)
    [] op.o = "move"     -> Move(st, op)
    [] op.o = "exists"   -> Exists(st, op)
    [] op.o = "setmeta"  -> SetMeta(st, op)
    [] op.o = "reopen"   -> Reopen(st, op)

-----------------------------------------------------------------------------
(* What must hold of every reachable state of the design *)
TreeClosed(st) ==
  /\ IsDir(st, <<>>)
  /\ \A p \in Paths(st) : p # <<>> => IsDir(st, Parent(p))
NamesUnique(st) ==
  \A p, q \in Paths(st) : (p # q /\ p # <<>> /\ q # <<>> /\ Parent(p) = Parent(q)) => st.tree[p].u # st.tree[q].u
StreamsAreLeaves(st) == \A p \in Paths(st) : st.tree[p].k = "s" => Children(st, p) = {}
HandleOk(st) == st.h.o => IsStream(st, st.h.p) /\ st.h.pos <= RLen(Data(st))
Canonical(st) ==
  \A p \in Paths(st) : LET d == st.tree[p].d IN
     /\ \A i \in 1..Len(d) : d[i][2] > 0
     /\ \A i \in 1..(Len(d) - 1) : d[i][1] # d[i + 1][1]
StOk(st) == TreeClosed(st) /\ NamesUnique(st) /\ StreamsAreLeaves(st) /\ HandleOk(st) /\ Canonical(st)

\* a refused operation changes nothing; an accepted one touches only what it names
Frame(st, op, st2, r) ==
  /\ r = "err" => st2 = st
  /\ op.o \in {"read", "exists", "reopen"} => st2.tree = st.tree
  /\ op.o \in {"write", "seek", "truncate"} =>
       \A p \in Paths(st) : p # st.h.p => p \in Paths(st2) /\ st2.tree[p] = st.tree[p]
  /\ op.o \in {"remove", "rmtree"} =>
       \A p \in Paths(st) : ~IsPrefixOf(op.p, p) => p \in Paths(st2) /\ st2.tree[p] = st.tree[p]
  /\ op.o = "move" /\ r = "ok" =>
       \A p \in Paths(st) :
         IF IsPrefixOf(op.p, p)
         THEN LET np == op.q \o SubSeq(p, Len(op.p) + 1, Len(p))
              IN  np \in Paths(st2) /\ st2.tree[np].d = st.tree[p].d /\ st2.tree[np].c = st.tree[p].c
         ELSE p \in Paths(st2) /\ st2.tree[p] = st.tree[p]
=============================================================================
