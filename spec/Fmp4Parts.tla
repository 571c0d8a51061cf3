------------------------------ MODULE Fmp4Parts -----------------------------
(***************************************************************************)
(* fmp4.Parts: movie fragments (ISO 14496-12, 8.8), and fmp4.Sample.       *)
(*                                                                         *)
(* A part is [seq, tracks]; a track is [id, base, samples]; a sample is    *)
(* [dur, off, ns, data].  seq, dur: 4 bytes; base: 8 bytes; off: signed.   *)
(*                                                                         *)
(* A layout has, besides the fields of module Mp4,                         *)
(*   cut    number of samples of each run (0: a single run per track)      *)
(*   mix    the runs of the tracks alternate in the file                   *)
(*   head   bytes at the beginning of mdat that belong to nobody           *)
(*   pre    what precedes the first part, and stands between parts         *)
(* and alternatives                                                        *)
(*   dur, size, flags   track defaults where possible                      *)
(*   first              first_sample_flags where possible                  *)
(*   cto                composition offsets even if zero                   *)
(*   v0                 version 0 of trun and tfdt where possible          *)
(*   dep                sample flags carry further information             *)
(*   desc               a sample description index in tfhd                 *)
(*   noff               runs after the first do not carry their offset     *)
(* or defects, which are refused: mfhd or mdat, or tfhd or tfdt of the     *)
(* first or the last track of each part, is missing (-) or repeated (+)    *)
(***************************************************************************)
EXTENDS Mp4
V == INSTANCE Avcc
N0 == INSTANCE Nalu

\* sums of sizes
RECURSIVE SumLen(_)
SumLen(ss) == IF ss = <<>> THEN 0 ELSE Len(ss[1].data) + SumLen(Tail(ss))
Data(ss) == Flat([k \in 1 .. Len(ss) |-> ss[k].data])

\* ---- runs of a track
RECURSIVE Chop(_, _)
Chop(ss, n) == IF n = 0 \/ Len(ss) <= n THEN <<ss>> ELSE <<SubSeq(ss, 1, n)>> \o Chop(SubSeq(ss, n + 1, Len(ss)), n)

Flags(l, x) == IF Mem("dep", l.alt) THEN (IF x.ns THEN <<1, 1, 0, 0>> ELSE <<2, 0, 0, 0>>) ELSE (IF x.ns THEN <<0, 1, 0, 0>> ELSE Z(4))
Same(ss, P(_)) == \A k \in 1 .. Len(ss) : P(ss[k]) = P(ss[1])
\* which fields have a default for the whole track
Def(l, t) ==
  LET ss == t.samples
      runs == Chop(ss, l.cut)
      d == ss[Len(ss)].ns
  IN IF ss = <<>> THEN [dur |-> FALSE, size |-> FALSE, flags |-> FALSE]
     ELSE [dur |-> Mem("dur", l.alt) /\ Same(ss, LAMBDA x : x.dur), size |-> Mem("size", l.alt) /\ Same(ss, LAMBDA x : Len(x.data)),
           flags |-> Mem("flags", l.alt) /\ \A k \in 1 .. Len(runs) : \A m \in 1 .. Len(runs[k]) : runs[k][m].ns = d \/ (m = 1 /\ Mem("first", l.alt))]
Bit1(b, v) == IF b THEN v ELSE 0
Tfhd(l, t) ==
  LET d == Def(l, t) IN
  Full(l, "tfhd", 0, 131072 + Bit1(Mem("desc", l.alt), 2) + Bit1(d.dur, 8) + Bit1(d.size, 16) + Bit1(d.flags, 32),
       B4(t.id) \o (IF Mem("desc", l.alt) THEN B4(1) ELSE <<>>) \o (IF d.dur THEN t.samples[1].dur ELSE <<>>)
       \o (IF d.size THEN B4(Len(t.samples[1].data)) ELSE <<>>) \o (IF d.flags THEN Flags(l, t.samples[Len(t.samples)]) ELSE <<>>))
Tfdt(l, t) == IF Mem("v0", l.alt) /\ SubSeq(t.base, 1, 4) = Z(4) THEN Full(l, "tfdt", 0, 0, SubSeq(t.base, 5, 8)) ELSE Full(l, "tfdt", 1, 0, t.base)
\* the library writes sample flags if some sample is not a sync sample
Trun(l, t, run, offset, plain) ==
  LET d == Def(l, t)
      first == d.flags /\ Mem("first", l.alt) /\ run # <<>>
      fl == IF plain THEN \E k \in 1 .. Len(run) : run[k].ns ELSE ~d.flags
      cto == Mem("cto", l.alt) \/ \E k \in 1 .. Len(run) : run[k].off # 0
      ver == IF Mem("v0", l.alt) /\ \A k \in 1 .. Len(run) : run[k].off >= 0 THEN 0 ELSE 1
      ent(x) == (IF d.dur THEN <<>> ELSE x.dur) \o (IF d.size THEN <<>> ELSE B4(Len(x.data))) \o (IF fl THEN Flags(l, x) ELSE <<>>)
                \o (IF cto THEN BI(x.off) ELSE <<>>)
  IN Full(l, "trun", ver, Bit1(offset # <<>>, 1) + Bit1(first, 4) + Bit1(~d.dur, 256) + Bit1(~d.size, 512) + Bit1(fl, 1024) + Bit1(cto, 2048),
          B4(Len(run)) \o offset \o (IF first THEN Flags(l, run[1]) ELSE <<>>) \o Flat([k \in 1 .. Len(run) |-> ent(run[k])]))

\* ---- the order of the data: pairs <<track, run>>
RECURSIVE Rounds(_, _)
Rounds(counts, r) ==
  IF \A k \in 1 .. Len(counts) : counts[k] < r THEN <<>>
  ELSE SelectSeq([k \in 1 .. Len(counts) |-> <<k, r>>], LAMBDA x : counts[x[1]] >= r) \o Rounds(counts, r + 1)
InTurn(counts) == Flat([k \in 1 .. Len(counts) |-> [r \in 1 .. counts[k] |-> <<k, r>>]])
RECURSIVE Before(_, _, _)
\* bytes of the runs ahead of <<k, r>> in the order
Before(order, runs, x) == IF order[1] = x THEN 0 ELSE SumLen(runs[order[1][1]][order[1][2]]) + Before(Tail(order), runs, x)

Defects == <<"-mfhd", "-mdat", "-tfhd1", "-tfhdn", "-tfdt1", "-tfdtn", "+mfhd", "+tfhd1", "+tfhdn", "+tfdt1", "+tfdtn">>
\* box b once, or as the defects of names n say
Reps(l, ns, b) == IF \E k \in 1 .. Len(ns) : Mem("-" \o ns[k], l.alt) THEN <<>>
                   ELSE IF \E k \in 1 .. Len(ns) : Mem("+" \o ns[k], l.alt) THEN b \o b ELSE b
Part(l, p) ==
  LET plain == l.alt = <<>> /\ l.cut = 0
      ts == p.tracks
      runs == [k \in 1 .. Len(ts) |-> Chop(ts[k].samples, l.cut)]
      counts == [k \in 1 .. Len(ts) |-> Len(runs[k])]
      order == IF l.mix THEN Rounds(counts, 1) ELSE InTurn(counts)
      Which(x, k) == (IF k = 1 THEN <<x \o "1">> ELSE <<>>) \o (IF k = Len(ts) THEN <<x \o "n">> ELSE <<>>)
      moof(base) ==
        Box(l, "moof", Reps(l, <<"mfhd">>, Full(l, "mfhd", 0, 0, p.seq)) \o Flat([k \in 1 .. Len(ts) |->
          Box(l, "traf", Reps(l, Which("tfhd", k), Tfhd(l, ts[k])) \o Reps(l, Which("tfdt", k), Tfdt(l, ts[k])) \o Flat([r \in 1 .. counts[k] |->
            Trun(l, ts[k], runs[k][r], IF r > 1 /\ Mem("noff", l.alt) THEN <<>> ELSE B4(base + Before(order, runs, <<k, r>>)), plain)]))]))
      n == Len(moof(0)) + (IF Mem("mdat", l.big) THEN 16 ELSE 8) + l.head
  IN moof(n) \o Reps(l, <<"mdat">>, Box(l, "mdat", Z(l.head) \o Flat([o \in 1 .. Len(order) |-> Data(runs[order[o][1]][order[o][2]])])))

Pre(l, kind) ==
  CASE kind = "none" -> <<>>
    [] kind = "styp" -> Full(l, "styp", 109, 7566440, B4(1))
    [] kind = "sidx" -> Full(l, "sidx", 0, 0, B4(1) \o B4(1000) \o Z(12))
    [] kind = "init" -> Ftyp(l, "iso2", <<"isom">>) \o Box(l, "moov", Mvhd(l, Z(4), B4(2)) \o Box(l, "mvex", Full(l, "trex", 0, 0, B4(1) \o B4(1) \o Z(12))))
    [] kind = "emsg" -> Full(l, "emsg", 1, 0, B4(1000) \o Z(16) \o <<117, 0, 118, 0, 1, 2>>)
    [] kind = "prft" -> Full(l, "prft", 0, 0, B4(1) \o Z(12))
    [] kind = "junk" -> Junk(l)
PlainPart == Plain @@ [cut |-> 0, mix |-> FALSE, head |-> 0, pre |-> "none"]
Parts(l, ps) == IF ps = <<>> THEN Pre(l, l.pre) ELSE Flat([k \in 1 .. Len(ps) |-> Pre(l, l.pre) \o Part(l, ps[k])])

MaxRun == 19200
Fail == [err |-> TRUE]
Crashed(r) == "panic" \in DOMAIN r \/ "hang" \in DOMAIN r \/ "big" \in DOMAIN r
TooMany(ps) == \E k \in 1 .. Len(ps) : \E m \in 1 .. Len(ps[k].tracks) : Len(ps[k].tracks[m].samples) > MaxRun
\* runs whose offset is implied are not supported
Implied(l, ps) == IF l.cut = 0 \/ ~Mem("noff", l.alt) THEN FALSE ELSE \E k \in 1 .. Len(ps) : \E m \in 1 .. Len(ps[k].tracks) : Len(ps[k].tracks[m].samples) > l.cut

Defective(l, ps) ==
  LET has(X0) == \E k \in 1 .. Len(X0) : Mem(X0[k], l.alt) IN
  IF ps = <<>> THEN FALSE
  ELSE has(<<"-mfhd", "-mdat", "+mfhd">>) \/ (has(Defects) /\ \E k \in 1 .. Len(ps) : ps[k].tracks # <<>>)

StartStates(cfg) == {cfg}
Outcomes(s, e) ==
  LET keep(x) == {[st |-> s, res |-> x]}
      any == IF Crashed(e.r) THEN keep(Fail) ELSE IF PrintT("UNSPECIFIED") THEN keep(e.r) ELSE {}
  IN
  CASE e.op = "marshal" -> keep([buf |-> Parts(PlainPart, s.parts)])
    [] e.op = "round" -> IF TooMany(s.parts) THEN keep(Fail) ELSE keep([parts |-> s.parts])
    [] e.op = "unmarshal" ->
         IF "damaged" \in DOMAIN e THEN any
         ELSE IF e.buf # Parts(e.lay, s.parts) THEN any
         ELSE IF Implied(e.lay, s.parts) \/ Defective(e.lay, s.parts) THEN keep(Fail)
         ELSE keep([parts |-> s.parts])
    \* samples
    [] e.op = "fill" ->
         IF e.codec = "av1" THEN LET b == A1!Encode(e.au) IN
           IF "err" \in DOMAIN b THEN keep(Fail) ELSE keep([off |-> e.off, ns |-> ~N0!AV1RA(e.au), data |-> b.buf])
         ELSE keep([off |-> e.off, ns |-> IF e.codec = "h264" THEN ~N0!H264RA(e.au) ELSE ~N0!H265RA(e.au), data |-> V!Encode(e.au)])
    [] e.op = "get" ->
         IF e.codec = "av1" THEN LET d == A1!Decode(e.buf) IN IF "err" \in DOMAIN d THEN keep(Fail) ELSE keep([au |-> d.obus])
         ELSE LET d == V!Decode(e.buf) IN IF "err" \in DOMAIN d THEN keep(Fail) ELSE keep([au |-> d.nalus])
=============================================================================
