---------------------------- MODULE GenFmp4Init -----------------------------
EXTENDS Fmp4Init, Mp4Vals
Boxes == <<"ftyp", "moov", "mvhd", "trak", "tkhd", "edts", "elst", "mdia", "mdhd", "hdlr", "minf", "vmhd", "smhd", "dinf", "dref", "url ", "stbl", "stsd", "stts", "stsc", "stsz", "stco",
  "mvex", "trex", "mehd", "udta", "titl", "btrt", "colr", "pasp", "sidx", "av01", "av1C", "vp09", "vpcC", "hvc1", "hev1", "hvcC", "avc1", "avcC", "mp4v", "mp4a", "esds", "Opus", "dOps", "fLaC", "dfLa",
  "ac-3", "dac3", "ec-3", "dec3", "ipcm", "pcmC", "c608">>
Alts == <<"bare", "colr", "edts", "mehd", "brand", "first", "ffmpeg", "next", "hev1", "short", "sei", "order", "avcext", "obu1", "obu2", "complete", "flacmore">>
Lay(i, j) ==
  LET n == Pick(i, j, <<2, 6, 20, 1000>>) m == Pick(i, j + 1, <<2, 6, 20, 1000>>)
  IN [big |-> Sub(i, j + 10, Boxes, n), free |-> Sub(i, j + 20, Boxes, m), junk |-> Pick(i, j + 2, Junks), v1 |-> Sub(i, j + 30, <<"tkhd", "mdhd", "mvhd">>, 3),
      alt |-> Sub(i, j + 40, Alts, Pick(i, j + 3, <<3, 8>>))]
Track(i, j, k) ==
  [id |-> Pick(i, j, <<1, 1, 2, 3, 255, 256, 65535, 16909060>>), ts |-> IF Ch(i, j + 1, 30) THEN Z(4) ELSE IF Ch(i, j + 2, 3) THEN Rb(i, j + 3, 4) ELSE Pick(i, j + 4, U32s),
   avg |-> IF Ch(i, j + 5, 2) THEN Z(4) ELSE Rb(i, j + 6, 4), max |-> IF Ch(i, j + 7, 2) THEN Z(4) ELSE Rb(i, j + 8, 4), codec |-> Codec(i, j + 100, k)]
Titles(i, j) == IF Ch(i, j, 2) THEN <<>> ELSE [k \in 1 .. R(i, j + 1, 3) + 1 |-> [lang |-> Pick(i, j + 10 * k, << <<85, 196>>, <<21, 199>>, <<0, 0>>, <<127, 255>> >>), text |-> Rb(i, j + 10 * k + 1, Pick(i, j + 10 * k + 2, <<0, 1, 20>>))]]
Case(i) ==
  LET n == Pick(i, 1, <<1, 1, 1, 2, 3, 5>>)
      ts == [k \in 1 .. n |-> Track(i, 1000 * k, IF k = 1 THEN Kinds[(i % 14) + 1] ELSE IF Ch(i, 50 + k, 10) THEN "c608" ELSE Pick(i, 30 + k, Kinds))]
      us == Titles(i, 60)
      kn == KnownOf([k \in 1 .. n |-> ts[k].codec])
      valid == \A k \in 1 .. n : IF Unknown(kn, ts[k].codec) THEN FALSE ELSE Valid(kn, ts[k].codec)
      um(l) == [op |-> "unmarshal", lay |-> l, buf |-> Init(kn, l, ts, us)]
      lacks == LackOf(ts[1].codec)
      lack == LET x == IF Ch(i, 605, 2) THEN Plain ELSE Lay(i, 600) IN [x EXCEPT !.alt = @ \o <<lacks[((i \div 14) % Len(lacks)) + 1]>>]
      bad == LET x == IF Ch(i, 606, 2) THEN Plain ELSE Lay(i, 700) IN [x EXCEPT !.alt = @ \o <<Pick(i, 607, HeadDefects)>> \o (IF Ch(i, 608, 2) THEN <<"early">> ELSE <<>>)]
      c608 == \E k \in 1 .. n : ts[k].codec.k = "c608"
  IN [cfg |-> [tracks |-> ts, udta |-> us, known |-> kn],
      ops |-> (IF c608 THEN <<>> ELSE <<[op |-> "marshal"], [op |-> "round"]>>)
              \o (IF valid THEN <<um(Plain), um(Lay(i, 200)), um(Lay(i, 300)), um(Lay(i, 400)), um(lack), um(bad)>> ELSE <<>>)]
OneTrack(c, w) == [cfg |-> [tracks |-> <<[id |-> 1, ts |-> <<0, 1, 95, 144>>, avg |-> Z(4), max |-> Z(4), codec |-> c]>>, udta |-> <<>>, known |-> KnownOf(<<c>>), finding |-> w, strict |-> 1], ops |-> <<[op |-> IF w = "lpcm-rate" THEN "round" ELSE "marshal"]>>]
Wrong(x) == [k |-> "h265", vps |-> <<64, 1, 12>>, sps |-> x.buf, pps |-> <<68, 1, 7>>]
HvcFinding == \* always the same one
  LET q == SelectSeq(KH265, LAMBDA x : IF x.ok THEN x.base = 1 ELSE FALSE) IN IF q = <<>> THEN <<>> ELSE <<OneTrack(Wrong(q[1]), "hvcc-constraints")>>
\* every configuration of MPEG-4 audio of the catalog
AacCase(x) ==
  LET c == [k |-> "aac", cfg |-> x.v]
      ts == <<[id |-> 1, ts |-> <<0, 0, 187, 128>>, avg |-> Z(4), max |-> Z(4), codec |-> c]>>
      kn == KnownOf(<<c>>)
  IN [cfg |-> [tracks |-> ts, udta |-> <<>>, known |-> kn], ops |-> <<[op |-> "marshal"], [op |-> "round"], [op |-> "unmarshal", lay |-> Plain, buf |-> Init(kn, Plain, ts, <<>>)]>>]
AacCases == IF "SMALL" \in DOMAIN IOEnv THEN <<>> ELSE [k \in 1 .. Len(KAsc) |-> AacCase(KAsc[k])]
ASSUME ndJsonSerialize(IOEnv.OUT, AacCases \o << [cfg |-> [tracks |-> <<>>, udta |-> <<>>, known |-> <<>>], ops |-> <<[op |-> "marshal"], [op |-> "round"], [op |-> "unmarshal", lay |-> Plain, buf |-> Init(<<>>, Plain, <<>>, <<>>)]>>],
   OneTrack([k |-> "lpcm", le |-> FALSE, depth |-> 24, rate |-> 96000, ch |-> 2], "lpcm-rate") >> \o HvcFinding)
Total == IF "SMALL" \in DOMAIN IOEnv THEN 70 ELSE IF Deep THEN 4000 ELSE 300
One(i) == Case(i)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
