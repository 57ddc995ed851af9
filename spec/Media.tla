------------------------------- MODULE Media -------------------------------
(* Linking media that stays outside the file: MXF files, by the header they carry, and other media, by what a probe says of it.

   st maps the names of the mobs of a file to mobs [k, n, s, c, d]: kind, name, slots in order, comments and description.
   Numbers are strings, except track numbers; an optional value is a sequence of at most one value. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Ok(st, v) == [st |-> st, r |-> "ok", v |-> v]
Err(st) == [st |-> st, r |-> "err", v |-> ""]
Or(o, d) == IF o = <<>> THEN d ELSE o[1]
Range(s) == {s[i] : i \in 1..Len(s)}

\* ------------------------------------------------------------------- MXF
(* A package is [x, k, n, s, c, d, t, m, u]: with times, attributes like comments, and usage and application codes; a slot [k, id, n, r, o, p, g]: kind, number, name, edit rate, origin, track number, segment;
   a comment [n, v, a]: name, optional value (of a kind the file can have), attributes. *)
\* segments: what is required of each kind
RECURSIVE Whole(_)
Whole(g) == CASE g.k = "seq" -> \A i \in 1..Len(g.c) : Whole(g.c[i])
              [] g.k = "group" -> g.n # <<>> /\ \A i \in 1..Len(g.c) : Whole(g.c[i])
              [] g.k = "clip" -> TRUE
              [] g.k = "tc" -> g.n # <<>> /\ g.fps # <<>> /\ g.drop # <<>> /\ g.at # <<>>
              [] g.k = "pull" -> g.n # <<>> /\ g.phase # <<>> /\ Whole(g.c[1])
              [] g.k \in {"fill", "scope"} -> g.n # <<>>
              [] OTHER -> FALSE
\* a sequence of no stated length has length 0
RECURSIVE Segment(_)
Segment(g) == LET C(h) == [h EXCEPT !.c = [i \in 1..Len(h.c) |-> Segment(h.c[i])]] IN
              CASE g.k = "seq" -> C([g EXCEPT !.n = <<Or(g.n, "0")>>])
                [] g.k \in {"group", "pull"} -> C(g)
                [] g.k = "clip" -> [g EXCEPT !.dd = IF g.dd = "" THEN "Unknown" ELSE g.dd]
                [] OTHER -> g

\* descriptions [k, a, fd, loc, g]: kind, attributes, descriptions of tracks, locators, what contains the media
Kind(k) == CASE k \in {"cdci", "mpeg"} -> "cdci" [] k \in {"pcm", "aes3", "sound"} -> "pcm" [] OTHER -> k
Required(k) == CASE k = "cdci" -> {"ComponentWidth", "HorizontalSubsampling", "ImageAspectRatio", "StoredWidth", "VideoLineMap", "StoredHeight", "SampleRate", "FrameLayout"}
                 [] k = "rgba" -> {"ImageAspectRatio", "StoredWidth", "FrameLayout", "PixelLayout", "VideoLineMap", "StoredHeight", "SampleRate"}
                 [] k = "pcm" -> {"BlockAlign", "AverageBPS", "Channels", "QuantizationBits", "AudioSamplingRate", "SampleRate"}
                 [] k \in {"anc", "multi"} -> {"SampleRate"}
                 [] OTHER -> {}
Optional(k) == CASE k = "cdci" -> {"FrameSampleSize", "ResolutionID", "Compression", "VerticalSubsampling", "SampledWidth", "SampledHeight", "LinkedSlotID"}
                 [] k = "rgba" -> {"FrameSampleSize", "SampledWidth", "SampledHeight", "Compression", "LinkedSlotID"}
                 [] k \in {"pcm", "anc"} -> {"LinkedSlotID"}
                 [] OTHER -> {}
File(k) == k \in {"cdci", "rgba", "pcm", "anc", "multi"}
RECURSIVE Described(_)
Described(d) == d.k \in {"none", "tape", "import"} \/ (File(Kind(d.k)) /\ Required(Kind(d.k)) \subseteq DOMAIN d.a /\ \A i \in 1..Len(d.fd) : Described(d.fd[i]))
\* its own locators, and the file itself; a picture description not for AMA has the file only after locators of its own
Located(k, own, ama) == CASE k = "cdci" -> own \cup (IF ama = 1 \/ own # {} THEN {"self"} ELSE {})
                          [] k \in {"rgba", "pcm", "multi", "import"} -> {"self"}
                          [] OTHER -> {}
RECURSIVE Desc(_, _)
Desc(d, ama) ==
  LET k == Kind(d.k)
      a == IF d.k = "mpeg" THEN With(d.a, "ResolutionID", "4076") ELSE d.a
      b == IF File(k) /\ "Length" \notin DOMAIN a THEN With(a, "Length", "0") ELSE a
      g == IF k \in {"cdci", "rgba"} THEN {"AAFKLV"} ELSE {}
  IN [k |-> k, g |-> IF ama = 1 /\ k \in {"cdci", "rgba", "pcm", "multi"} THEN g \cup {"MXF"} ELSE g, a |-> [x \in {""} \cup (DOMAIN b \cap (Required(k) \cup Optional(k) \cup (IF File(k) THEN {"Length"} ELSE {}))) |-> b[x]],
      fd |-> IF k = "multi" THEN [i \in 1..Len(d.fd) |-> Desc(d.fd[i], ama)] ELSE <<>>,
      loc |-> Located(k, Range(d.loc), ama)]

Timeline(s) == s.k = "timeline"
RECURSIVE Comments(_)
Comments(c) == IF c = <<>> THEN <<>> ELSE (IF c[1].v = <<>> THEN <<>> ELSE <<[n |-> c[1].n, v |-> c[1].v, a |-> Comments(c[1].a)]>>) \o Comments(SubSeq(c, 2, Len(c)))
Slots(p) == LET t == SelectSeq(p.s, Timeline) IN [i \in 1..Len(t) |-> [id |-> t[i].id, n |-> t[i].n, r |-> t[i].r, o |-> <<Or(t[i].o, "0")>>, p |-> t[i].p, g |-> Segment(t[i].g)]]
Linkable(p) == Described(p.d) /\ \A i \in 1..Len(p.s) : Timeline(p.s[i]) => Whole(p.s[i].g)
Linked(p, ama) == [k |-> p.k, n |-> <<Or(p.n, "Mob")>>, s |-> Slots(p), c |-> Comments(p.c), d |-> Desc(p.d, ama), t |-> p.t, m |-> Comments(p.m), u |-> p.u]
\* packages in order: those the file has stay as they are; one that cannot be linked ends it, and leaves nothing of itself
RECURSIVE Link(_, _, _, _)
Link(st, pk, ama, new) == IF pk = <<>> THEN Ok(st, new)
                          ELSE LET p == pk[1]  rest == SubSeq(pk, 2, Len(pk)) IN
                               IF p.x \in DOMAIN st THEN Link(st, rest, ama, new)
                               ELSE IF ~Linkable(p) THEN Err(st)
                               ELSE Link(With(st, p.x, Linked(p, ama)), rest, ama, Append(new, p.x))

\* ----------------------------------------------------------- other media
(* A probe is [f, s, b]: format, streams, and the file as chunks.  A stream is [t, a]: type, and what the probe says of it. *)
\* the format chunk with the header of the file before it
RECURSIVE Chunk(_, _)
Chunk(cs, id) == IF cs = <<>> THEN <<>> ELSE IF cs[1].id = id THEN <<cs[1].id \o cs[1].n \o cs[1].b>> ELSE Chunk(SubSeq(cs, 2, Len(cs)), id)
Summary(b, id) == IF b.id = "" THEN <<>> ELSE LET c == Chunk(b.c, id) IN IF c = <<>> THEN <<>> ELSE <<b.id \o b.n \o b.kind \o c[1]>>
WaveSummary(b) == IF b.id = "52494646" /\ b.kind = "57415645" THEN Summary(b, "666d7420") ELSE <<>>
AiffSummary(b) == IF b.id = "464f524d" /\ b.kind \in {"41494646", "41494643"} THEN Summary(b, "434f4d4d") ELSE <<>>

Picture(s) == s.t = "video"
Sound(s) == s.t = "audio"
Pictures(p) == SelectSeq(p.s, Picture)
Sounds(p) == SelectSeq(p.s, Sound)
Rate(s) == IF Picture(s) THEN s.a.avg_frame_rate ELSE s.a.sample_rate
Length(s) == IF Picture(s) THEN s.a.nb_frames ELSE s.a.duration_ts
AVC == [Baseline |-> "04010202-0131-1001-060e-2b340401010d", Main |-> "04010202-0131-2001-060e-2b340401010d", Extended |-> "04010202-0131-3001-060e-2b340401010d",
        High |-> "04010202-0131-4001-060e-2b340401010d"]
    @@ ("Constrained Baseline" :> "04010202-0131-1101-060e-2b340401010d" @@ "High 10" :> "04010202-0131-5001-060e-2b340401010d"
        @@ "High 10 Intra" :> "04010202-0132-2001-060e-2b340401010a" @@ "High 4:2:2" :> "04010202-0131-6001-060e-2b340401010d"
        @@ "High 4:2:2 Intra" :> "04010202-0132-3001-060e-2b340401010a")
Compression(a) == CASE a.codec_name = "mjpeg" -> "0e040201-0205-0100-060e-2b3404010101"
                    [] a.codec_name = "h264" /\ a.profile \in DOMAIN AVC -> AVC[a.profile]
                    [] OTHER -> "04010202-0000-0000-060e-2b3404010101"
\* planar formats: <<horizontal, vertical subsampling, depth>>
Pixels == [yuv420p |-> <<"2", "2", "8">>, yuv422p |-> <<"2", "1", "8">>, yuv444p |-> <<"1", "1", "8">>, yuvj420p |-> <<"2", "2", "8">>, yuvj422p |-> <<"2", "1", "8">>,
           yuv420p10le |-> <<"2", "2", "10">>, yuv422p10le |-> <<"2", "1", "10">>, yuv444p10le |-> <<"1", "1", "10">>, yuv422p12le |-> <<"2", "1", "12">>,
           yuv444p12le |-> <<"1", "1", "12">>, yuv420p16le |-> <<"2", "2", "16">>, yuv444p16be |-> <<"1", "1", "16">>, yuva444p10le |-> <<"1", "1", "10">>]
\* sample formats: bits and bytes
Samples == [u8 |-> <<"8", "1">>, u8p |-> <<"8", "1">>, s16 |-> <<"16", "2">>, s16p |-> <<"16", "2">>, s32 |-> <<"32", "4">>, s32p |-> <<"32", "4">>,
            flt |-> <<"32", "4">>, fltp |-> <<"32", "4">>, dbl |-> <<"64", "8">>, dblp |-> <<"64", "8">>, s64 |-> <<"64", "8">>, s64p |-> <<"64", "8">>]
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
StreamDesc(s) ==
  LET a == s.a IN
  IF Picture(s)
  THEN [k |-> "cdci", fd |-> <<>>, loc |-> {"self"}, g |-> {},
        a |-> LET p == Pixels[a.pix_fmt] IN
              [ComponentWidth |-> p[3], HorizontalSubsampling |-> p[1], VerticalSubsampling |-> p[2], FrameLayout |-> "FullFrame", VideoLineMap |-> "[0, 0]",
               ImageAspectRatio |-> a.aspect, StoredWidth |-> a.width, StoredHeight |-> a.height, SampleRate |-> Rate(s), Compression |-> Compression(a), Length |-> Length(s)]
              @@ ("" :> "")]
  ELSE [k |-> "pcm", fd |-> <<>>, loc |-> {"self"}, g |-> {},
        a |-> LET q == At(Samples, a.sample_fmt, <<"0", "0">>) IN
              [SampleRate |-> Rate(s), AudioSamplingRate |-> Rate(s), Channels |-> ToString(a.channels), AverageBPS |-> a.bit_rate, QuantizationBits |-> q[1], BlockAlign |-> q[2],
               Compression |-> "04020202-0000-0000-060e-2b3404010101", Length |-> Length(s)] @@ ("" :> "")]
Media(s) == Picture(s) \/ Sound(s)
First(p) == IF Pictures(p) # <<>> THEN Pictures(p)[1] ELSE Sounds(p)[1]
MediaDesc(p) ==
  CASE p.f \in {"wav", "aiff"} ->
         [k |-> IF p.f = "wav" THEN "wave" ELSE "aifc", fd |-> <<>>, loc |-> {"self"}, g |-> {"AAF"},
          a |-> LET m == IF p.f = "wav" THEN WaveSummary(p.b) ELSE AiffSummary(p.b)
                IN [SampleRate |-> Rate(Sounds(p)[1]), Length |-> Length(Sounds(p)[1]), Summary |-> m[1]] @@ ("" :> "")]
    [] OTHER ->
         LET t == SelectSeq(p.s, Media)  ds == [i \in 1..Len(t) |-> StreamDesc(t[i])]
         IN IF Len(ds) = 1 THEN ds[1]
            ELSE [k |-> "multi", fd |-> ds, loc |-> {"self"}, g |-> {"Generic"}, a |-> [SampleRate |-> Rate(First(p)), Length |-> Length(First(p))] @@ ("" :> "")]
\* what is needed of each stream
Needs(p, s) == IF p.f \in {"wav", "aiff"} THEN {"sample_rate", "duration_ts", "channels"}
               ELSE IF Picture(s) THEN {"width", "height", "avg_frame_rate", "nb_frames", "pix_fmt", "codec_name"}
               ELSE {"sample_rate", "duration_ts", "channels", "bit_rate", "sample_fmt"}
Tracks(p) == IF p.f \in {"wav", "aiff"} THEN Sounds(p) ELSE SelectSeq(p.s, Media)
Probed(p) == Tracks(p) # <<>> /\ \A i \in 1..Len(Tracks(p)) : Needs(p, Tracks(p)[i]) \subseteq DOMAIN Tracks(p)[i].a
\* one slot for each picture stream, then one for each channel of each sound stream: <<stream, kind, track number>>
RECURSIVE Channels(_, _)
Channels(ss, n) == IF ss = <<>> THEN <<>>
                   ELSE [i \in 1..ss[1].a.channels |-> [s |-> ss[1], p |-> <<n + i>>]] \o Channels(SubSeq(ss, 2, Len(ss)), n + ss[1].a.channels)
Parts(p) == [i \in 1..Len(Pictures(p)) |-> [s |-> Pictures(p)[i], p |-> <<>>]] \o Channels(Sounds(p), 0)
Clip(dd, n, x, id) == [k |-> "clip", dd |-> dd, n |-> <<n>>, src |-> <<x>>, slot |-> <<id>>, at |-> <<"0">>]
\* slot i of a mob made for the probe refers to slot i of mob x
MediaSlots(p, x, named) == LET q == Parts(p) IN
  [i \in 1..Len(q) |-> LET dd == IF Picture(q[i].s) THEN "Picture" ELSE "Sound" IN
     [id |-> i, n |-> <<>>, r |-> Rate(q[i].s), o |-> <<"0">>, p |-> IF named THEN q[i].p ELSE <<>>,
      g |-> [k |-> "seq", dd |-> dd, n |-> <<Length(q[i].s)>>, c |-> <<Clip(dd, Length(q[i].s), x, IF x = "" THEN 0 ELSE i)>>]]]
NoDesc == [k |-> "none", a |-> ("" :> ""), fd |-> <<>>, loc |-> {}, g |-> {}]
Mob(k, n, s, c, d) == [k |-> k, n |-> <<n>>, s |-> s, c |-> c, d |-> d, t |-> "", m |-> <<>>, u |-> <<>>]
LinkMedia(st, p, n, x) ==
  IF p.f = "other" \/ (p.f = "wav" /\ WaveSummary(p.b) = <<>>) \/ (p.f = "aiff" /\ AiffSummary(p.b) = <<>>) THEN [st |-> st, r |-> "none", v |-> ""]
  ELSE IF ~Probed(p) THEN Err(st)
  ELSE LET c == IF Pictures(p) = <<>> THEN <<>> ELSE <<[n |-> "Video", v |-> <<Pictures(p)[1].a.codec_name>>, a |-> <<>>]>>
           tape == Mob("src", n \o " <TAPE MOB>", MediaSlots(p, "", FALSE), <<>>, [NoDesc EXCEPT !.k = "import"])
           src == Mob("src", n \o " <SOURCE MOB>", MediaSlots(p, x[3], TRUE), c, MediaDesc(p))
           master == Mob("master", n, MediaSlots(p, x[2], TRUE), <<>>, NoDesc)
       IN Ok(With(With(With(st, x[3], tape), x[2], src), x[1], master), x)

\* operational pattern of a label: 13 bytes that are the same for all, with any version, then complexities of items and of packages
Pattern(b) == IF SubSeq(b, 1, 7) # <<6, 14, 43, 52, 4, 1, 1>> \/ b[8] \notin 1..3 \/ SubSeq(b, 9, 12) # <<13, 1, 2, 1>> THEN ""
              ELSE IF b[13] = 16 THEN "OPAtom"
              ELSE IF b[13] \in 1..3 /\ b[14] \in 1..3 THEN "OP" \o ToString(b[13]) \o <<"a", "b", "c">>[b[14]] ELSE ""

Apply(st, op) ==
  CASE op.o = "mxf" -> Link(st, op.pk, op.ama, <<>>)
    [] op.o = "media" -> LinkMedia(st, op.p, op.n, op.x)
    [] op.o = "pattern" -> Ok(st, Pattern(op.b))
    [] op.o \in {"look", "reopen"} -> Ok(st, "")
    [] OTHER -> Err(st)
=============================================================================
