----------------------------- MODULE Mpeg4Audio -----------------------------
(***************************************************************************)
(* MPEG-4 audio, ISO 14496-3: AudioSpecificConfig (1.6.2.1),                *)
(* StreamMuxConfig (1.42), AudioMuxElement (1.41), AudioSyncStream (1.36), *)
(* ADTS (1.A.5), program config element (4.2), raw_data_block (4.3), in    *)
(* both directions where the code has both.                                *)
(* Refused because unsupported: object types other than AAC-LC, SBR and    *)
(* PS, audioMuxVersion 1, streams with different framing, CRC in ADTS,     *)
(* several blocks per ADTS frame, payloads of constant size.               *)
(***************************************************************************)
EXTENDS Syntax, M4Frames

\* ---- syntax tables
Asc == <<
  <<"u", "type", 5>>, <<"check", "type">>,
  <<"u", "fi", 4>>, <<"check", "fi">>, <<"if", "fi15", <<<<"u", "rate", 24>>>>>>,
  <<"u", "chan", 4>>, <<"check", "chan">>,
  <<"if", "extended", <<
     <<"u", "efi", 4>>, <<"check", "efi">>, <<"if", "efi15", <<<<"u", "erate", 24>>>>>>,
     <<"u", "core", 5>>, <<"check", "core">>>>>>,
  <<"f", "short">>, <<"f", "dep">>, <<"if", "dep", <<<<"u", "delay", 14>>>>>>,
  <<"f", "gaext">>, <<"check", "no_gaext">>>>

\* a config may end right after an AudioSpecificConfig: the layers so far are
\* then used, and the last one has a fullness of 255 ("cut")
Layer == <<
  <<"calc", "dead">>,
  <<"if", "alive", <<
     <<"if", "later", <<<<"f", "same">>>>>>, <<"if", "first", <<<<"def", "same", FALSE>>>>>>,
     <<"if", "own", Asc>>,
     <<"ext", "flt">>,
     <<"if", "flt0", <<<<"u", "full", 8>>>>>>,
     <<"if", "flt1", <<<<"u", "len", 9>>>>>>,
     <<"if", "flt345", <<<<"u", "celp", 6>>>>>>,
     <<"if", "flt67", <<<<"f", "hvxc">>>>>>>>>>>>
Prog == <<
  <<"calc", "pdead">>, <<"calc", "pfirst">>,
  <<"if", "palive", <<<<"u", "nlay", 3>>, <<"rep", "layers", "layers", Layer>>>>>>>>
Smc == <<
  <<"f", "version">>, <<"check", "version0">>, <<"f", "framing">>, <<"check", "framing">>,
  <<"u", "sub", 6>>, <<"u", "nprog", 4>>, <<"rep", "progs", "progs", Prog>>,
  <<"calc", "cut">>,
  <<"if", "uncut", <<
     <<"f", "other">>, <<"if", "other", <<<<"ext", "otherlen">>>>>>,
     <<"f", "crc">>, <<"if", "crc", <<<<"u", "crcsum", 8>>>>>>>>>>>>

Pce == <<
  <<"u", "tag", 4>>, <<"u", "otype", 2>>, <<"u", "fi", 4>>, <<"u", "front", 4>>, <<"u", "side", 4>>, <<"u", "back", 4>>,
  <<"u", "lfe", 2>>, <<"u", "assoc", 3>>, <<"u", "cc", 4>>,
  <<"f", "mono">>, <<"if", "mono", <<<<"u", "monoel", 4>>>>>>,
  <<"f", "stereo">>, <<"if", "stereo", <<<<"u", "stereoel", 4>>>>>>,
  <<"f", "matrix">>, <<"if", "matrix", <<<<"u", "matrixel", 3>>>>>>,
  <<"rep", "els", "els", <<<<"f", "cpe">>, <<"u", "eltag", 4>>>>>>,
  <<"rep", "lfes", "lfe", <<<<"u", "eltag", 4>>>>>>,
  <<"check", "channels">>>>

PrevOf(v) == IF "prev" \in DOMAIN v THEN v.prev ELSE <<>>
PceChannels(v) == v.front + v.side + v.back + Cardinality({i \in 1 .. Len(v.els) : v.els[i].cpe}) + v.lfe
MyCond(c, v) ==
  CASE c = "type" -> v.type \in {2, 5, 29}
    [] c = "fi" -> v.fi \notin {13, 14}
    [] c = "fi15" -> v.fi = 15
    [] c = "chan" -> v.chan <= 7
    [] c = "extended" -> v.type \in {5, 29}
    [] c = "efi" -> v.efi \notin {13, 14}
    [] c = "efi15" -> v.efi = 15
    [] c = "core" -> v.core = 2
    [] c = "no_gaext" -> ~v.gaext
    [] c = "alive" -> ~v.dead
    [] c = "palive" -> ~v.pdead
    [] c = "later" -> ~(v.pfirst /\ v.i = 1)
    [] c = "first" -> v.pfirst /\ v.i = 1
    [] c = "own" -> ~v.same
    [] c = "flt0" -> v.flt = 0 \* a cut one has -1
    [] c = "flt1" -> v.flt = 1
    [] c = "flt345" -> v.flt \in {3, 4, 5}
    [] c = "flt67" -> v.flt \in {6, 7}
    [] c = "version0" -> ~v.version
    [] c = "uncut" -> ~v.cut
    [] c = "channels" -> PceChannels(v) > 0
    [] OTHER -> v[c]
MyCount(c, v) ==
  CASE c = "layers" -> v.nlay + 1
    [] c = "progs" -> v.nprog + 1
    [] c = "els" -> v.front + v.side + v.back
    [] c = "lfe" -> v.lfe
IsCut(p) == p.pdead \/ \E l \in 1 .. Len(p.layers) : p.layers[l].dead \/ p.layers[l].flt = -1
MyCalc(n, v) ==
  CASE n = "dead" -> \E k \in 1 .. Len(PrevOf(v)) : PrevOf(v)[k].dead \/ PrevOf(v)[k].flt = -1
    [] n = "pdead" -> \E k \in 1 .. Len(PrevOf(v)) : IsCut(PrevOf(v)[k])
    [] n = "pfirst" -> v.i = 1
    [] n = "cut" -> \E k \in 1 .. Len(v.progs) : "pdead" \in DOMAIN v.progs[k] /\ IsCut(v.progs[k])

RECURSIVE Escaped(_, _)
Escaped(s, bits) == \* 8 bits at a time, most significant group first
  IF Left(s) < 9 THEN Bad(s)
  ELSE With(LAMBDA g : IF g[1] = 1 THEN Escaped([s EXCEPT !.p = @ + 9], bits \o Tail(g))
                       ELSE IF Len(bits) >= 32 THEN [Put(s, 9, "otherlen", <<0, 0>>) EXCEPT !.odd = TRUE]
                       ELSE Put(s, 9, "otherlen", Limbs32(bits \o Tail(g))), Field(s, 9))
MyExt(name, s) ==
  CASE name = "flt" -> IF Left(s) < 3 THEN Put(s, 0, "flt", -1) ELSE RdU(s, "flt", 3)
    [] name = "otherlen" -> Escaped(s, <<>>)
\* groups of 8 bits of a number, most significant first, at least one
Groups(l) == LET b == LimbBits(l)
                 z == IF \E k \in 1 .. 32 : b[k] = 1 THEN CHOOSE k \in 1 .. 32 : b[k] = 1 /\ \A j \in 1 .. k - 1 : b[j] = 0 ELSE 32
                 n == 4 - ((z - 1) \div 8)
             IN [g \in 1 .. n |-> SubSeq(b, 8 * (4 - n + g - 1) + 1, 8 * (4 - n + g))]
MyExtEnc(name, v) ==
  CASE name = "flt" -> ToBits(v.flt, 3)
    [] name = "otherlen" -> LET g == Groups(v.otherlen) IN Flat([k \in 1 .. Len(g) |-> <<IF k < Len(g) THEN 1 ELSE 0>> \o g[k]])

\* ---- AudioSpecificConfig
Or(v, n, d) == IF n \in DOMAIN v THEN v[n] ELSE d
AscView(v) ==
  [type |-> 2, rate |-> RateOf(v.fi, Or(v, "rate", 0)), chan |-> v.chan, count |-> Channels(v.chan),
   etype |-> IF v.type = 2 THEN 0 ELSE v.type, erate |-> IF v.type = 2 THEN 0 ELSE RateOf(v.efi, Or(v, "erate", 0)),
   short |-> v.short, dep |-> v.dep, delay |-> Or(v, "delay", 0)]
\* the channel configuration wanted by the caller: chan, or count when chan is 0
AscVals(x) ==
  [type |-> IF x.etype = 0 THEN x.type ELSE x.etype, fi |-> RateIdx(x.rate), rate |-> x.rate, chan |-> WantedChan(x),
   efi |-> RateIdx(x.erate), erate |-> x.erate, core |-> x.type, short |-> x.short, dep |-> x.dep, delay |-> x.delay, gaext |-> FALSE]

\* ---- StreamMuxConfig
LayerView(l) ==
  [asc |-> IF l.same THEN <<>> ELSE <<AscView(l)>>, flt |-> IF l.flt = -1 THEN 0 ELSE l.flt,
   full |-> IF l.flt = -1 THEN 255 ELSE Or(l, "full", 0), len |-> Or(l, "len", 0), celp |-> Or(l, "celp", 0), hvxc |-> Or(l, "hvxc", FALSE)]
Alive(ls) == SelectSeq(ls, LAMBDA l : ~l.dead)
SmcView(v) ==
  [sub |-> v.sub,
   progs |-> LET ps == SelectSeq(v.progs, LAMBDA p : ~p.pdead)
             IN [k \in 1 .. Len(ps) |-> LET ls == Alive(ps[k].layers) IN [j \in 1 .. Len(ls) |-> LayerView(ls[j])]],
   other |-> Or(v, "other", FALSE), otherlen |-> Or(v, "otherlen", <<0, 0>>), crc |-> Or(v, "crc", FALSE), crcsum |-> Or(v, "crcsum", 0)]
LayerVals(l) == [same |-> l.asc = <<>>, flt |-> l.flt, full |-> l.full, len |-> l.len, celp |-> l.celp, hvxc |-> l.hvxc]
                @@ (IF l.asc = <<>> THEN NoValues ELSE AscVals(l.asc[1]))
SmcVals(x) ==
  [version |-> FALSE, framing |-> TRUE, sub |-> x.sub, nprog |-> Len(x.progs) - 1, cut |-> FALSE,
   progs |-> [k \in 1 .. Len(x.progs) |->
     [nlay |-> Len(x.progs[k]) - 1, layers |-> [j \in 1 .. Len(x.progs[k]) |-> LayerVals(x.progs[k][j])]]],
   other |-> x.other, otherlen |-> x.otherlen, crc |-> x.crc, crcsum |-> x.crcsum]
SmcBits(x) == Encode(Smc, SmcVals(x))
AllAscs(x) == UNION {UNION {{x.progs[k][j].asc[n] : n \in 1 .. Len(x.progs[k][j].asc)} : j \in 1 .. Len(x.progs[k])} : k \in 1 .. Len(x.progs)}

\* ---- AudioMuxElement
\* the layers of all programs in order, as <<program, layer>>
Slots(c) == Flat([k \in 1 .. Len(c.progs) |-> [j \in 1 .. Len(c.progs[k]) |-> <<k, j>>]])
FltOf(c, sl) == c.progs[sl[1]][sl[2]].flt
RECURSIVE MuxLen(_, _)
MuxLen(s, n) == IF Left(s) < 8 THEN Bad(s)
                ELSE With(LAMBDA x : IF x = 255 THEN MuxLen([s EXCEPT !.p = @ + 8], n + 255)
                                     ELSE [s EXCEPT !.p = @ + 8, !.v.lens = Append(@, n + x)], Val(Field(s, 8)))
Lens(c, s) == FoldLeft(LAMBDA x, sl : IF ~x.ok THEN x ELSE IF FltOf(c, sl) = 0 THEN MuxLen(x, 0) ELSE Bad(x),
                       [s EXCEPT !.v.lens = <<>>], Slots(c))
GetBytes(s, n) == [k \in 1 .. n |-> Val(SubSeq(s.b, s.p + 8 * (k - 1) + 1, s.p + 8 * k))]
Data(s) == FoldLeft(LAMBDA x, n : IF ~x.ok THEN x ELSE IF Left(x) < 8 * n THEN Bad(x)
                                  ELSE [x EXCEPT !.p = @ + 8 * n, !.v.data = Append(@, GetBytes(x, n))],
                    [s EXCEPT !.v.data = <<>>], s.v.lens)
Shape(c, data) == \* by program and layer
  FoldLeft(LAMBDA a, k : Append(a, SubSeq(data, 1 + FoldLeft(LAMBDA n, j : n + Len(c.progs[j]), 0, [j \in 1 .. k - 1 |-> j]),
                                         FoldLeft(LAMBDA n, j : n + Len(c.progs[j]), 0, [j \in 1 .. k |-> j]))),
           <<>>, [k \in 1 .. Len(c.progs) |-> k])
SubFrame(c, s) == IF ~s.ok THEN s
                  ELSE With(LAMBDA x : IF ~x.ok THEN x
                                       ELSE With(LAMBDA y : IF ~y.ok THEN y ELSE [y EXCEPT !.v.out = Append(@, Shape(c, y.v.data))], Data(x)),
                            Lens(c, s))
Frames(c, s) == FoldLeft(LAMBDA x, i : SubFrame(c, x), [s EXCEPT !.v = [out |-> <<>>, lens |-> <<>>, data |-> <<>>]],
                         [i \in 1 .. c.sub + 1 |-> i])
AmeWith(c, s, same) ==
  With(LAMBDA f : IF f.odd THEN [odd |-> TRUE] ELSE IF ~f.ok \/ c.other \/ Left(f) >= 8 THEN [odd |-> FALSE, r |-> [err |-> TRUE]]
                  ELSE [odd |-> FALSE, r |-> [same |-> same, cfg |-> c, data |-> f.v.out]],
       Frames(c, s))
Ame(e) ==
  LET s == Begin(BitsOf(e.buf)) IN
  IF ~e.present THEN (IF e.given = <<>> THEN [odd |-> FALSE, r |-> [err |-> TRUE]] ELSE AmeWith(e.given[1], s, FALSE))
  ELSE IF Left(s) < 1 THEN [odd |-> FALSE, r |-> [err |-> TRUE]]
  ELSE IF s.b[1] = 1 THEN (IF e.given = <<>> THEN [odd |-> FALSE, r |-> [err |-> TRUE]] ELSE AmeWith(e.given[1], [s EXCEPT !.p = 1], TRUE))
  ELSE With(LAMBDA d : IF d.odd THEN [odd |-> TRUE] ELSE IF ~d.ok THEN [odd |-> FALSE, r |-> [err |-> TRUE]]
                       ELSE AmeWith(SmcView(d.v), d, FALSE), Dec(Smc, [s EXCEPT !.p = 1]))
LenBits(n) == Flat([k \in 1 .. (n \div 255) |-> ToBits(255, 8)]) \o ToBits(n % 255, 8)
ByteBits(b) == [k \in 1 .. 8 * Len(b) |-> Bit(b, k - 1)]
AmeBits(e) ==
  LET c == e.given[1] IN
  (IF e.present THEN IF e.same THEN <<1>> ELSE <<0>> \o SmcBits(c) ELSE <<>>)
  \o Flat([i \in 1 .. c.sub + 1 |->
       LET d == Flat(e.data[i]) IN Flat([k \in 1 .. Len(d) |-> LenBits(Len(d[k]))]) \o Flat([k \in 1 .. Len(d) |-> ByteBits(d[k])])])

\* ---- raw data blocks
PceView(v) == [tag |-> v.tag, otype |-> v.otype, fi |-> v.fi, front |-> v.front, side |-> v.side, back |-> v.back, lfe |-> v.lfe,
               assoc |-> v.assoc, cc |-> v.cc, channels |-> PceChannels(v)]
ParsePce(b) ==
  IF Len(b) < 4 THEN Bad(Begin(<<>>))
  ELSE With(LAMBDA s : IF Val(SubSeq(s.b, 1, 3)) # 5 THEN Bad(s) ELSE Dec(Pce, [s EXCEPT !.p = 3]), Begin(BitsOf(b)))
\* channels of the first element that has some; -1 if there is none
AlignUp(n) == ((n + 7) \div 8) * 8
RECURSIVE Count1(_)
Count1(s) ==
  IF Left(s) < 3 THEN -1
  ELSE LET id == Val(Field(s, 3))
           t  == [s EXCEPT !.p = @ + 3]
       IN CASE id \in {0, 1, 3} -> IF Left(t) < 4 THEN -1 ELSE IF id = 1 THEN 2 ELSE 1
            [] id = 5 -> With(LAMBDA d : IF d.ok THEN PceChannels(d.v) ELSE -1, Dec(Pce, t))
            [] id = 4 -> IF Left(t) < 13 THEN -1
                         ELSE LET n == Val(SubSeq(t.b, t.p + 6, t.p + 13))
                                  u == [t EXCEPT !.p = @ + 13]
                              IN IF n = 255 /\ Left(u) < 8 THEN -1
                                 ELSE LET q == IF n = 255 THEN u.p + 8 ELSE u.p
                                          m == IF n = 255 THEN 255 + Val(Field(u, 8)) ELSE n
                                          a == IF t.b[t.p + 5] = 1 THEN AlignUp(q) ELSE q
                                      IN Count1([t EXCEPT !.p = a + 8 * m])
            [] id = 6 -> IF Left(t) < 4 THEN -1
                         ELSE LET n == Val(Field(t, 4))
                                  u == [t EXCEPT !.p = @ + 4]
                              IN IF n < 15 THEN Count1([u EXCEPT !.p = @ + 8 * n])
                                 ELSE IF Left(u) < 8 THEN -1
                                 ELSE Count1([u EXCEPT !.p = @ + 8 + 8 * (14 + Val(Field(u, 8)))])
            [] OTHER -> -1

StartStates(cfg) == {0}
Fail == [err |-> TRUE]
Crashed(r) == "panic" \in DOMAIN r \/ "hang" \in DOMAIN r
Outcomes(s, e) ==
  LET keep(x) == {[st |-> s, res |-> x]}
      parsed(d, View(_)) == IF d.odd THEN keep(IF Crashed(e.r) THEN Fail ELSE e.r) ELSE IF ~d.ok THEN keep(Fail) ELSE keep(View(d.v))
  IN
  CASE e.op = "asc" -> With(LAMBDA d : parsed(d, AscView), Dec(Asc, Begin(BitsOf(e.buf))))
    [] e.op = "asc_enc" -> IF WantedChan(e.v) = -1 THEN keep(Fail) ELSE keep([buf |-> Bytes(Encode(Asc, AscVals(e.v)))])
    [] e.op = "smc" -> With(LAMBDA d : IF d.ok /\ Left(d) >= 8 THEN keep(Fail) ELSE parsed(d, SmcView), Dec(Smc, Begin(BitsOf(e.buf))))
    [] e.op = "smc_enc" -> IF \E a \in AllAscs(e.v) : WantedChan(a) = -1 THEN keep(Fail) ELSE keep([buf |-> Bytes(SmcBits(e.v))])
    [] e.op = "ame" -> With(LAMBDA x : IF x.odd THEN keep(IF Crashed(e.r) THEN Fail ELSE e.r) ELSE keep(x.r), Ame(e))
    [] e.op = "ame_enc" -> keep([buf |-> Bytes(AmeBits(e))])
    [] e.op = "ass" -> keep(Ass(e.buf, <<>>))
    [] e.op = "ass_enc" -> IF \E k \in 1 .. Len(e.els) : Len(e.els[k]) > 8191 THEN keep(Fail) ELSE keep([buf |-> AssEnc(e.els)])
    [] e.op = "adts" -> keep(Adts(e.buf, <<>>))
    [] e.op = "adts_enc" -> IF \A k \in 1 .. Len(e.pkts) : AdtsEncodable(e.pkts[k])
                            THEN keep([buf |-> Flat([k \in 1 .. Len(e.pkts) |-> AdtsOne(e.pkts[k])])]) ELSE keep(Fail)
    [] e.op = "pce" -> With(LAMBDA d : parsed(d, PceView), ParsePce(e.buf))
    [] e.op = "count" -> With(LAMBDA n : keep(IF n = -1 THEN Fail ELSE [n |-> n]), Count1(Begin(BitsOf(e.buf))))
=============================================================================
