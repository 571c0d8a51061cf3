------------------------------ MODULE GenPmp4 -------------------------------
EXTENDS Pmp4, Mp4Vals
Boxes == <<"ftyp", "moov", "mvhd", "trak", "tkhd", "edts", "elst", "mdia", "mdhd", "hdlr", "minf", "vmhd", "smhd", "dinf", "dref", "url ", "stbl", "stsd", "stts", "stss", "ctts", "stsc", "stsz", "stco", "mdat",
  "colr", "pasp", "av01", "av1C", "vp09", "vpcC", "hvc1", "hvcC", "avc1", "avcC", "mp4v", "mp4a", "esds", "Opus", "dOps", "fLaC", "dfLa", "ac-3", "dac3", "ec-3", "dec3", "ipcm", "pcmC", "c608">>
Alts == <<"colr", "mdat", "long", "stss", "noctts", "v0", "same", "noedts", "short", "sei", "order", "hev1", "obu1", "obu2", "complete", "flacmore">>
Lay(i, j) ==
  LET n == Pick(i, j, <<2, 6, 20, 1000>>) m == Pick(i, j + 1, <<2, 6, 20, 1000>>)
  IN [big |-> Sub(i, j + 10, Boxes, n), free |-> Sub(i, j + 20, Boxes, m), junk |-> Pick(i, j + 2, Junks), v1 |-> Sub(i, j + 30, <<"tkhd", "mdhd", "mvhd", "elst">>, 3),
      alt |-> Sub(i, j + 40, Alts, Pick(i, j + 3, <<2, 3, 8>>)) \o (IF Ch(i, j + 4, 15) THEN <<"co64">> ELSE <<>>),
      cut |-> Pick(i, j + 5, <<0, 1, 2, 3, 5>>), cut2 |-> Pick(i, j + 6, <<1, 1, 2, 3, 4>>), order |-> Pick(i, j + 7, <<"rounds", "turn", "back">>), gap |-> Pick(i, j + 8, <<0, 0, 0, 3>>), tables |-> Pick(i, j + 9, <<"a", "b">>)]
Scales == <<90000, 48000, 44100, 1000, 1, 12288, 10000000, 30, 3>>
Offs == <<0, 1, -1, 3000, -3000, 2147483647, -2147483647 - 1>>
\* kind: 1 everything the same, 2 groups of pictures, 3 random
Samples(i, j, ts) ==
  LET n == Pick(i, j, <<0, 1, 2, 3, 5, 8, 12, 20>>)
      kd == Pick(i, j + 1, <<1, 2, 2, 3, 3>>)
      size == Pick(i, j + 3, <<0, 1, 4, 10>>)
      unit == Pick(i, j + 4, <<ts, ts \div 25, (ts * 2) \div 45, 1024, 1>>)
      dur(k) == LET x == CASE kd = 1 -> unit [] kd = 2 -> IF Ch(i, j + k, 8) THEN unit + 1 ELSE unit [] OTHER -> IF Ch(i, j + k, 3) THEN R(i, j + k + 500, unit + 2) ELSE unit
                IN IF x > 50 * ts THEN ts ELSE x
  IN [k \in 1 .. n |-> [dur |-> dur(k), off |-> IF kd = 1 THEN 0 ELSE IF kd = 2 THEN ((k * 3) % 4) * unit ELSE Pick(i, j + 10 * k + 3, Offs),
        ns |-> IF kd = 1 THEN FALSE ELSE IF kd = 2 THEN k % 5 # 1 ELSE Ch(i, j + 10 * k + 4, 2),
        data |-> Rb(i, j + 31 * k, IF kd # 1 /\ Ch(i, j + 10 * k + 6, 2) THEN Pick(i, j + 10 * k + 5, <<0, 0, 1, 7, 30, 100>>) ELSE size)]]
\* zero: a time scale of zero
Track(i, j, k, id) ==
  LET ts == Pick(i, j, Scales)
      ss == Samples(i, j + 100, ts)
      len == Sum(Durs(ss))
      off == Pick(i, j + 1, <<0, 0, ts, ts \div 3, -(ts \div 7), -(ts \div 25), 1, -1, 3 * ts>>)
  IN [id |-> id, ts |-> IF Ch(i, j + 3, 40) THEN 0 ELSE ts, off |-> IF off + len < 0 /\ ~Ch(i, j + 2, 10) THEN -len ELSE off, codec |-> Codec(i, j + 5000, k), samples |-> ss]
Light == <<"opus", "flac", "mp1a", "ac3", "lpcm", "vp9", "mjpeg", "eac3", "mp4v">>
Case(i) ==
  LET n == Pick(i, 1, <<1, 1, 2, 2, 3, 4>>)
      ids == Pick(i, 2, << <<1, 2, 3, 4>>, <<1, 2, 3, 4>>, <<4, 1, 2, 3>>, <<256, 1, 65536, 2>> >>)
      ts == [k \in 1 .. n |-> Track(i, 10000 * k, IF k = 1 /\ Ch(i, 20, 2) THEN Kinds[(i % 14) + 1] ELSE IF Ch(i, 50 + k, 12) THEN "c608" ELSE Pick(i, 30 + k, Light), ids[k])]
      kn == KnownOf([k \in 1 .. n |-> ts[k].codec])
      valid == \A k \in 1 .. n : IF Unknown(kn, ts[k].codec) THEN FALSE ELSE Valid(kn, ts[k].codec)
      um(l) == [op |-> "unmarshal", lay |-> l, buf |-> File(kn, l, ts)]
      lacks == LackOf(ts[1].codec)
      lack == LET x == IF Ch(i, 605, 2) THEN PlainFile ELSE Lay(i, 600) IN [x EXCEPT !.alt = @ \o <<lacks[((i \div 14) % Len(lacks)) + 1]>>]
      bad == LET x == IF Ch(i, 606, 2) THEN PlainFile ELSE Lay(i, 700) IN [x EXCEPT !.alt = @ \o <<Pick(i, 607, HeadDefects \o TableDefects \o TableDefects)>> \o (IF Ch(i, 608, 2) THEN <<"early">> ELSE <<>>)]
      c608 == \E k \in 1 .. n : ts[k].codec.k = "c608"
      zero == \E k \in 1 .. n : ts[k].ts = 0
      cut(l) == LET b == File(kn, l, ts) IN [op |-> "after", lay |-> l, buf |-> b, n |-> IF Ch(i, 70, 4) THEN -1 ELSE R(i, 71, Len(b)) + 1]
      l4 == Lay(i, 500)
  IN [cfg |-> [tracks |-> ts, known |-> kn],
      ops |-> (IF zero \/ c608 THEN <<>> ELSE <<[op |-> "marshal"], [op |-> "round"], [op |-> "fail"]>>)
              \o (IF valid THEN <<um(PlainFile), um(Lay(i, 200)), um(Lay(i, 300)), cut(l4), um(lack), um(bad)>> ELSE <<>>)]
Of(c, id, ts, off, ss) == [tracks |-> <<[id |-> id, ts |-> ts, off |-> off, codec |-> c, samples |-> ss]>>, known |-> <<>>]
Opus == [k |-> "opus", ch |-> 2]
OneSample == [dur |-> 960, off |-> 0, ns |-> FALSE, data |-> <<1, 2, 3>>]
HugeCase(q) == [cfg |-> Of(Opus, 1, 48000, 0, <<>>), ops |-> <<[op |-> "huge", sizes |-> q]>>]
\* the longest presentation, from the length of its header
Limit(n) == LET f == File(<<>>, PlainFile, Of(Opus, 1, 48000, 0, [k \in 1 .. n |-> [dur |-> 1, off |-> 0, ns |-> FALSE, data |-> <<>>]]).tracks) IN 1048575 - Len(f)
Pat(n, dur, off, size, gop) == [n |-> n, dur |-> dur, off |-> off, size |-> size, gop |-> gop]
WideCase(q) == [cfg |-> [tracks |-> [k \in 1 .. Len(q) |-> [id |-> k, ts |-> 1000, off |-> 0, codec |-> Opus, samples |-> <<>>]], known |-> <<>>], ops |-> <<[op |-> "wide", pats |-> q]>>]
\* numbers that need more than 8, 12 and 16 bits in every table: samples, sync samples, chunks, runs, sizes, offsets
WideCases == <<
   WideCase(<<Pat(300, <<40>>, <<0>>, <<7>>, 7), Pat(301, <<39, 41>>, <<0>>, <<3, 0, 5>>, 1)>>),
   WideCase(<<Pat(5003, <<1, 2>>, <<0, 3, -1>>, <<1, 2>>, 50), Pat(2500, <<3, 1, 1>>, <<0>>, <<4>>, 1)>>),
   WideCase(<<Pat(70001, <<1, 1, 2>>, <<5, 0>>, <<1, 0, 2>>, 9)>>),
   WideCase(<<Pat(70003, <<1>>, <<0>>, <<1>>, 1), Pat(70001, <<1>>, <<0>>, <<2>>, 69999)>>),
   WideCase(<<Pat(9000, <<10, 30, 10, 10>>, <<0>>, <<2, 1>>, 2), Pat(9000, <<20>>, <<70000, -70000>>, <<1>>, 3), Pat(7000, <<70000, 1>>, <<1>>, <<3>>, 300)>>),
   WideCase(<<Pat(70, <<100>>, <<0>>, <<70000, 255, 256, 65535, 65536, 4096>>, 10), Pat(20, <<400>>, <<0>>, <<1100000, 16>>, 3)>>),
   WideCase(<<Pat(3, <<1>>, <<0>>, <<17000000, 1>>, 1), Pat(6, <<1>>, <<0>>, <<1, 17000001>>, 2)>>) >>
ASSUME ndJsonSerialize(IOEnv.OUT, WideCases \o <<
   [cfg |-> Of(Opus, 1, 48000, -480, <<OneSample>>) @@ [finding |-> "elst", strict |-> 1], ops |-> <<[op |-> "marshal"]>>],
   [cfg |-> Of(Opus, 3, 48000, 0, <<OneSample>>) @@ [finding |-> "next-id", strict |-> 1], ops |-> <<[op |-> "marshal"]>>],
   \* 3 * (2^31 - 1)
   [cfg |-> Of(Opus, 1, 90000, 0, [k \in 1 .. 3 |-> [OneSample EXCEPT !.dur = 2147483647]]) @@ [finding |-> "long"], ops |-> <<[op |-> "long", total |-> <<0, 0, 0, 1, 127, 255, 255, 253>>]>>],
   HugeCase(<< <<1023, 5>>, <<1023, 7>>, <<1023, 0>>, <<1023, 1>> >>), HugeCase(<< <<1023, 0>>, <<1023, 0>>, <<1023, 0>>, <<1023, 0>>, <<3, Limit(5)>> >>), HugeCase(<< <<1023, 0>>, <<1023, 0>>, <<1023, 0>>, <<1023, 0>>, <<3, Limit(5) + 1>> >>),
   HugeCase(<< <<1023, 0>>, <<1023, 0>>, <<1023, 0>>, <<1023, 0>>, <<4, 0>> >>), HugeCase(<< <<1023, 0>>, <<1023, 0>>, <<1023, 0>>, <<1023, 0>>, <<1023, 0>>, <<1, 1>> >>),
   \* nothing, and a time scale of zero
   [cfg |-> [tracks |-> <<>>, known |-> <<>>], ops |-> <<[op |-> "marshal"], [op |-> "unmarshal", lay |-> PlainFile, buf |-> File(<<>>, PlainFile, <<>>)]>>] >>)
Total == IF "SMALL" \in DOMAIN IOEnv THEN 60 ELSE IF Deep THEN 3000 ELSE 250
One(i) == Case(i)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
