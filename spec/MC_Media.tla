------------------------------ MODULE MC_Media ------------------------------
(* All histories of links of small MXF files that share packages, whole and broken, and of small probed media. *)
EXTENDS Media
CONSTANTS Steps
VARIABLES st, last, prev, res, n
vars == <<st, last, prev, res, n>>
A0 == "" :> ""
Clip0(x) == [k |-> "clip", dd |-> "Sound", n |-> <<"5">>, src |-> <<x>>, slot |-> <<1>>, at |-> <<"0">>]
Seq0(g) == [k |-> "seq", dd |-> "Sound", n |-> <<>>, c |-> <<g>>]
Slot0(k, i, g) == [k |-> k, id |-> i, n |-> <<>>, r |-> "25/1", o |-> <<"0">>, p |-> <<>>, g |-> g]
Pcm(a) == [k |-> "pcm", a |-> a, fd |-> <<>>, loc |-> <<>>]
Good == [x \in Required("pcm") \cup {""} |-> "1"]
Pack(x, k, s, d) == [x |-> x, k |-> k, n |-> <<x>>, s |-> s, c |-> <<[n |-> "a", v |-> <<"b">>, a |-> <<>>], [n |-> "c", v |-> <<>>, a |-> <<>>]>>, d |-> d, t |-> "", m |-> <<>>, u |-> <<>>]
None == [k |-> "none", a |-> A0, fd |-> <<>>, loc |-> <<>>]
Packs == { Pack("m", "master", <<Slot0("timeline", 1, Seq0(Clip0("s"))), Slot0("static", 2, Clip0("s"))>>, None),
           Pack("s", "src", <<Slot0("timeline", 1, Clip0(""))>>, Pcm(Good)),
           Pack("u", "src", <<Slot0("timeline", 1, Seq0([k |-> "lost", dd |-> "Sound"]))>>, Pcm(Good)),
           Pack("v", "src", <<Slot0("event", 1, [k |-> "lost", dd |-> "Sound"])>>, Pcm(A0)),
           Pack("w", "src", <<Slot0("event", 1, [k |-> "lost", dd |-> "Sound"])>>, [k |-> "multi", a |-> ("SampleRate" :> "25/1" @@ A0), fd |-> <<Pcm(Good), Pcm(Good)>>, loc |-> <<>>]) }
Files == {q \in UNION {[1..k -> Packs] : k \in 1..2} : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Video == [t |-> "video", a |-> [width |-> "16", height |-> "9", aspect |-> "16/9", avg_frame_rate |-> "25/1", nb_frames |-> "3", pix_fmt |-> "yuv420p", codec_name |-> "h264", profile |-> "Main"]]
Audio(c) == [t |-> "audio", a |-> [sample_rate |-> "48000/1", duration_ts |-> "9", channels |-> c, bit_rate |-> "1", sample_fmt |-> "s16", codec_name |-> "pcm"]]
Cut(s, k) == [s EXCEPT !.a = [x \in DOMAIN s.a \ {k} |-> s.a[x]]]
Data == [t |-> "data", a |-> [codec_name |-> "d"]]
Streams == {Video, Audio(1), Audio(2), Data, Cut(Video, "nb_frames"), Cut(Audio(1), "channels")}
NoFile == [id |-> "", n |-> "", kind |-> "", c |-> <<>>]
Fmt == [id |-> "666d7420", n |-> "02000000", b |-> "0001"]
List == [id |-> "4c495354", n |-> "01000000", b |-> "66"]
Probes == {[f |-> "mov", s |-> s, b |-> NoFile] : s \in UNION {[1..k -> Streams] : k \in 0..3}}
     \cup {[f |-> f, s |-> <<Audio(2)>>, b |-> [id |-> "52494646", n |-> "00000000", kind |-> w, c |-> c]] : f \in {"wav", "aiff", "other"}, w \in {"57415645", "41564920"}, c \in {<<>>, <<Fmt>>, <<List, Fmt>>}}
Init == st = [x \in {} |-> 0] /\ last = [o |-> "none"] /\ prev = st /\ res = [r |-> "ok", v |-> <<>>] /\ n = 0
Do(op) == LET a == Apply(st, op) IN st' = a.st /\ res' = [r |-> a.r, v |-> a.v] /\ last' = op /\ prev' = st /\ n' = n + 1
Next ==
  /\ n < Steps
  /\ \/ \E pk \in Files, ama \in {0, 1} : Do([o |-> "mxf", pk |-> pk, ama |-> ama])
     \/ "M" \notin DOMAIN st /\ \E p \in Probes : Do([o |-> "media", p |-> p, n |-> "clip", x |-> <<"M", "S", "T">>])
Spec == Init /\ [][Next]_vars
\* mobs stay as they are
Others == \A x \in DOMAIN prev : x \in DOMAIN st /\ st[x] = prev[x]
\* a link that fails adds whole mobs or none
Failed == /\ last.o = "media" /\ res.r # "ok" => st = prev
          /\ last.o = "mxf" /\ res.r # "ok" => \A x \in DOMAIN st \ DOMAIN prev : \E i \in 1..Len(last.pk) : last.pk[i].x = x /\ Linkable(last.pk[i])
\* what is given is what is new
Given == res.r = "ok" /\ last.o # "none" => Range(res.v) = DOMAIN st \ DOMAIN prev
Whole0 == last.o = "mxf" /\ res.r = "ok" => \A i \in 1..Len(last.pk) : last.pk[i].x \in DOMAIN st
\* a master mob of media has a slot for each picture stream and channel, each leads to the slot of the same number and length down to the tape
Leads == "M" \in DOMAIN st => \A y \in {<<"M", "S">>, <<"S", "T">>} :
           /\ Len(st[y[1]].s) = Len(st[y[2]].s)
           /\ \A i \in 1..Len(st[y[1]].s) : LET s == st[y[1]].s[i]  w == st[y[2]].s[i]  c == s.g.c[1] IN
                c.src = <<y[2]>> /\ c.slot = <<w.id>> /\ s.r = w.r /\ c.n = s.g.n /\ s.g.n = w.g.n /\ s.g.dd = w.g.dd
Numbered == last.o = "media" /\ res.r = "ok" =>
  LET s == st["M"].s
      k == {i \in 1..Len(s) : s[i].g.dd = "Sound"}
  IN {s[i].p[1] : i \in k} = 1..Cardinality(k) /\ Len(s) = Len(Pictures(last.p)) + Cardinality(k)
Named == \A x \in DOMAIN st : st[x].d.k \in {"pcm", "cdci", "multi", "wave"} => "self" \in st[x].d.loc
View == <<st, prev, last, res, n>>
=============================================================================
