------------------------------ MODULE Fmp4Init ------------------------------
(***************************************************************************)
(* fmp4.Init: initialization segments of fragmented MP4 files.             *)
(*                                                                         *)
(* A track is [id, ts, avg, max, codec]; ts, avg, max: 4 bytes.            *)
(***************************************************************************)
EXTENDS Mp4

Rate(t, r) == IF r # Z(4) THEN r ELSE IF Video(t.codec) THEN B4(1000000) ELSE B4(128825)
Btrt(l, max, avg) == Box(l, "btrt", Z(4) \o max \o avg)
Trak(kn, l, t) ==
  LET c == t.codec
      max == Rate(t, t.max)
      avg == Rate(t, t.avg)
      tail == IF Mem("bare", l.alt) THEN <<>>
              ELSE IF Mem("colr", l.alt) THEN Box(l, "pasp", B4(1) \o B4(1)) \o Box(l, "colr", Codes["zzzz"] \o <<1, 2>>) \o Btrt(l, max, avg)
              ELSE Btrt(l, max, avg)
      stbl == Times(l, "stsd", Full(l, "stsd", 0, 0, B4(1) \o Entry(kn, l, c, t.id, max, avg, tail)))
              \o Full(l, "stts", 0, 0, Z(4)) \o Full(l, "stsc", 0, 0, Z(4)) \o Full(l, "stsz", 0, 0, Z(8)) \o Full(l, "stco", 0, 0, Z(4))
      edts == IF Mem("edts", l.alt) THEN Box(l, "edts", Full(l, "elst", 0, 0, B4(1) \o Z(8) \o B2(1) \o Z(2))) ELSE <<>>
  IN Box(l, "trak", Times(l, "tkhd", Tkhd(kn, l, c, B4(t.id), Z(4))) \o edts
       \o Times(l, "mdia", Box(l, "mdia", Times(l, "mdhd", Mdhd(l, t.ts, Z(4))) \o Hdlr(l, c)
            \o Times(l, "minf", Box(l, "minf", Mhd(l, c) \o Dinf(l) \o Times(l, "stbl", Box(l, "stbl", stbl)))))))
Trex(l, t) == Full(l, "trex", 0, 0, B4(t.id) \o B4(1) \o Z(12))
\* user data: 3GPP titles [lang, text]
Titl(l, u) == Full(l, "titl", 0, 0, u.lang \o u.text)
Udta(l, us) == IF us = <<>> THEN <<>> ELSE Box(l, "udta", Flat([k \in 1 .. Len(us) |-> Titl(l, us[k])]))
Init(kn, l, ts, us) ==
  LET traks == Flat([k \in 1 .. Len(ts) |-> Trak(kn, LayOf(l, ts, k), ts[k])])
      mvex == Box(l, "mvex", (IF Mem("mehd", l.alt) THEN Full(l, "mehd", 0, 0, B4(5000)) ELSE <<>>) \o Flat([k \in 1 .. Len(ts) |-> Trex(l, ts[k])]))
      mvhd == Times(l, "mvhd", Mvhd(l, Z(4), <<255, 255, 255, 255>>))
  IN Times(l, "ftyp", IF Mem("brand", l.alt) THEN Ftyp(l, "iso2", <<"isom", "hlsf">>) ELSE Ftyp(l, "mp42", <<"mp41", "mp42", "isom", "hlsf">>))
     \o Times(l, "moov", Box(l, "moov", IF Mem("first", l.alt) THEN mvhd \o Udta(l, us) \o mvex \o traks
                       ELSE IF Mem("ffmpeg", l.alt) THEN mvhd \o mvex \o traks \o Udta(l, us)
                       ELSE mvhd \o traks \o mvex \o Udta(l, us)))
     \o (IF Mem("next", l.alt) THEN Box(l, "sidx", Z(4) \o B4(1) \o B4(1000) \o Z(12)) ELSE <<>>)

Supported(ts) == SelectSeq(ts, LAMBDA t : t.codec.k # "c608")
\* the result of reading: bit rates are not returned
Tracks(kn, ts) == LET s == Supported(ts) IN [k \in 1 .. Len(s) |-> [id |-> s[k].id, ts |-> s[k].ts, codec |-> View(kn, s[k].codec)]]

Fail == [err |-> TRUE]
Crashed(r) == "panic" \in DOMAIN r \/ "hang" \in DOMAIN r \/ "big" \in DOMAIN r
\* what the library may write: rates that do not fit are written modulo 65536;
\* the constraint flags of H265 are those of the SPS, or what the library writes
\* (in strict cases, only the former)
Written(s) == {Init(s.known, Plain, s.tracks, s.udta)}
              \cup (IF "strict" \in DOMAIN s THEN {} ELSE {Init(s.known, [Plain EXCEPT !.alt = <<"raw">>], s.tracks, s.udta)})
Readable(s) == Supported(s.tracks) # <<>> /\ \A k \in 1 .. Len(s.tracks) : s.tracks[k].ts # Z(4)
Read(s) == [tracks |-> Tracks(s.known, s.tracks), udta |-> s.udta]
\* the rate of these is only in the sample entry, which has 16 bits for it
Wide(t) == IF t.codec.k \in {"lpcm", "mp1a", "ac3", "eac3"} THEN t.codec.rate > 65535 ELSE FALSE
StartStates(cfg) == {cfg}
Outcomes(s, e) ==
  LET keep(x) == {[st |-> s, res |-> x]}
      any == IF Crashed(e.r) THEN keep(Fail) ELSE IF PrintT("UNSPECIFIED") THEN keep(e.r) ELSE {}
      odd == \E k \in 1 .. Len(s.tracks) : Unknown(s.known, s.tracks[k].codec)
      ok == \A k \in 1 .. Len(s.tracks) : Valid(s.known, s.tracks[k].codec)
  IN
  CASE odd -> any
    [] e.op = "marshal" -> IF ok THEN {[st |-> s, res |-> [buf |-> b]] : b \in Written(s)} ELSE keep(Fail)
    [] e.op = "round" -> \* what is written is read back
         IF ~ok THEN keep(Fail)
         ELSE IF ~Readable(s) THEN any
         ELSE IF "strict" \notin DOMAIN s /\ \E k \in 1 .. Len(s.tracks) : Wide(s.tracks[k]) THEN any
         ELSE keep(Read(s))
    [] e.op = "unmarshal" -> \* buf: a layout of the same tracks, possibly damaged
         IF "damaged" \in DOMAIN e THEN any
         ELSE IF ~ok THEN any
         ELSE IF \E k \in 1 .. Len(s.tracks) : Wide(s.tracks[k]) THEN any
         ELSE IF Mem("titl", e.lay.free) /\ e.lay.junk # "zzzz" THEN any
         ELSE IF e.buf # Init(s.known, e.lay, s.tracks, s.udta) THEN any
         ELSE IF ~Readable(s) \/ \E k \in 1 .. Len(HeadDefects) : Mem(HeadDefects[k], e.lay.alt) THEN keep(Fail)
         ELSE IF \E k \in 1 .. Len(s.tracks) : Lacks(e.lay, s.tracks[k].codec) THEN keep(Fail)
         ELSE keep(Read(s))
=============================================================================
