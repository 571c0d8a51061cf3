-------------------------------- MODULE Mp4 ---------------------------------
(***************************************************************************)
(* ISO base media file format (ISO 14496-12): boxes, and the sample        *)
(* descriptions of every codec (ISO 14496-14, 14496-15, the AV1, VP9,      *)
(* Opus and FLAC bindings, ETSI TS 102 366, ISO 23003-5).                  *)
(*                                                                         *)
(* Everything here is an encoder: it says which bytes stand for a value    *)
(* in a given layout.  A layout l is a record                              *)
(*   big    names of the boxes with a 64-bit size                          *)
(*   free   names of the boxes followed by a box that means nothing        *)
(*   junk   the kind of that box                                           *)
(*   v1     names of the full boxes in their 64-bit version                *)
(*   alt    other alternatives, by name                                    *)
(* Plain is the layout that the library writes.                            *)
(*                                                                         *)
(* 32-bit and 64-bit numbers are sequences of bytes.                       *)
(***************************************************************************)
EXTENDS Bits, TLC

S == INSTANCE StreamDesc
A1 == INSTANCE Av1Stream

Codes == [
  ftyp |-> <<102, 116, 121, 112>>,
  moov |-> <<109, 111, 111, 118>>,
  mvhd |-> <<109, 118, 104, 100>>,
  trak |-> <<116, 114, 97, 107>>,
  tkhd |-> <<116, 107, 104, 100>>,
  edts |-> <<101, 100, 116, 115>>,
  elst |-> <<101, 108, 115, 116>>,
  mdia |-> <<109, 100, 105, 97>>,
  mdhd |-> <<109, 100, 104, 100>>,
  hdlr |-> <<104, 100, 108, 114>>,
  minf |-> <<109, 105, 110, 102>>,
  vmhd |-> <<118, 109, 104, 100>>,
  smhd |-> <<115, 109, 104, 100>>,
  dinf |-> <<100, 105, 110, 102>>,
  dref |-> <<100, 114, 101, 102>>,
  stbl |-> <<115, 116, 98, 108>>,
  stsd |-> <<115, 116, 115, 100>>,
  stts |-> <<115, 116, 116, 115>>,
  stss |-> <<115, 116, 115, 115>>,
  ctts |-> <<99, 116, 116, 115>>,
  stsc |-> <<115, 116, 115, 99>>,
  stsz |-> <<115, 116, 115, 122>>,
  stco |-> <<115, 116, 99, 111>>,
  co64 |-> <<99, 111, 54, 52>>,
  mvex |-> <<109, 118, 101, 120>>,
  trex |-> <<116, 114, 101, 120>>,
  mehd |-> <<109, 101, 104, 100>>,
  udta |-> <<117, 100, 116, 97>>,
  moof |-> <<109, 111, 111, 102>>,
  mfhd |-> <<109, 102, 104, 100>>,
  traf |-> <<116, 114, 97, 102>>,
  tfhd |-> <<116, 102, 104, 100>>,
  tfdt |-> <<116, 102, 100, 116>>,
  trun |-> <<116, 114, 117, 110>>,
  mdat |-> <<109, 100, 97, 116>>,
  free |-> <<102, 114, 101, 101>>,
  skip |-> <<115, 107, 105, 112>>,
  sidx |-> <<115, 105, 100, 120>>,
  styp |-> <<115, 116, 121, 112>>,
  emsg |-> <<101, 109, 115, 103>>,
  prft |-> <<112, 114, 102, 116>>,
  btrt |-> <<98, 116, 114, 116>>,
  colr |-> <<99, 111, 108, 114>>,
  pasp |-> <<112, 97, 115, 112>>,
  av01 |-> <<97, 118, 48, 49>>,
  av1C |-> <<97, 118, 49, 67>>,
  vp09 |-> <<118, 112, 48, 57>>,
  vpcC |-> <<118, 112, 99, 67>>,
  hvc1 |-> <<104, 118, 99, 49>>,
  hev1 |-> <<104, 101, 118, 49>>,
  hvcC |-> <<104, 118, 99, 67>>,
  avc1 |-> <<97, 118, 99, 49>>,
  avc3 |-> <<97, 118, 99, 51>>,
  avcC |-> <<97, 118, 99, 67>>,
  mp4v |-> <<109, 112, 52, 118>>,
  mp4a |-> <<109, 112, 52, 97>>,
  esds |-> <<101, 115, 100, 115>>,
  Opus |-> <<79, 112, 117, 115>>,
  dOps |-> <<100, 79, 112, 115>>,
  fLaC |-> <<102, 76, 97, 67>>,
  dfLa |-> <<100, 102, 76, 97>>,
  dac3 |-> <<100, 97, 99, 51>>,
  dec3 |-> <<100, 101, 99, 51>>,
  ipcm |-> <<105, 112, 99, 109>>,
  pcmC |-> <<112, 99, 109, 67>>,
  c608 |-> <<99, 54, 48, 56>>,
  vide |-> <<118, 105, 100, 101>>,
  soun |-> <<115, 111, 117, 110>>,
  titl |-> <<116, 105, 116, 108>>,
  meta |-> <<109, 101, 116, 97>>,
  gmhd |-> <<103, 109, 104, 100>>,
  sgpd |-> <<115, 103, 112, 100>>,
  isom |-> <<105, 115, 111, 109>>,
  iso2 |-> <<105, 115, 111, 50>>,
  mp41 |-> <<109, 112, 52, 49>>,
  mp42 |-> <<109, 112, 52, 50>>,
  hlsf |-> <<104, 108, 115, 102>>,
  iods |-> <<105, 111, 100, 115>>,
  uuid |-> <<117, 117, 105, 100>>,
  zzzz |-> <<122, 122, 122, 122>>,
  tx3g |-> <<116, 120, 51, 103>>]
  @@ ("url " :> <<117, 114, 108, 32>>) @@ ("ac-3" :> <<97, 99, 45, 51>>) @@ ("ec-3" :> <<101, 99, 45, 51>>)

B1(v) == <<v % 256>>
B2(v) == <<(v \div 256) % 256, v % 256>>
B3(v) == <<(v \div 65536) % 256, (v \div 256) % 256, v % 256>>
B4(v) == <<(v \div 16777216) % 256, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>
Z(n) == [k \in 1 .. n |-> 0]
Mem(x, q) == \E k \in 1 .. Len(q) : q[k] = x
\* signed
BI(v) == IF v >= 0 THEN B4(v) ELSE LET c == -(v + 1) IN [k \in 1 .. 4 |-> 255 - B4(c)[k]]

Plain == [big |-> <<>>, free |-> <<>>, junk |-> "free", v1 |-> <<>>, alt |-> <<>>]

\* ---- boxes
Raw(code, big, p) ==
  IF big THEN B4(1) \o code \o Z(4) \o B4(Len(p) + 16) \o p
  ELSE B4(Len(p) + 8) \o code \o p
Junk(l) == Raw(Codes[l.junk], FALSE, <<1, 2, 3>>)
Box(l, n, p) == Raw(Codes[n], Mem(n, l.big), p) \o (IF Mem(n, l.free) THEN Junk(l) ELSE <<>>)
Full(l, n, ver, flags, p) == Box(l, n, <<ver>> \o B3(flags) \o p)

Unity == B4(65536) \o Z(12) \o B4(65536) \o Z(12) \o B4(1073741824)

\* ---- codecs
Video(c) == c.k \in {"av1", "vp9", "h265", "h264", "mp4v", "mp1v", "mjpeg"}
\* what is known about a parameter set, by its own specification (cfg.known)
Known(kn, kind, buf) == LET m == {x \in {kn[i] : i \in 1 .. Len(kn)} : x.kind = kind /\ x.buf = buf} IN IF m = {} THEN <<>> ELSE <<CHOOSE x \in m : TRUE>>
KnownAsc(kn, v) == LET m == {x \in {kn[i] : i \in 1 .. Len(kn)} : x.kind = "asc" /\ x.v = v} IN IF m = {} THEN <<>> ELSE <<CHOOSE x \in m : TRUE>>
\* the video parameter set of the codec, if it has one
ParamKind(c) == IF c.k = "av1" THEN "av1" ELSE c.k
Param(c) == IF c.k = "av1" THEN c.seq ELSE c.sps
HasParam(c) == c.k \in {"av1", "h264", "h265"}
InfoOf(kn, c) == Known(kn, ParamKind(c), Param(c))
\* nothing is known about the parameter set: the outcome is unspecified
Unknown(kn, c) == IF HasParam(c) THEN Param(c) # <<>> /\ InfoOf(kn, c) = <<>> ELSE IF c.k = "aac" THEN KnownAsc(kn, c.cfg) = <<>> ELSE FALSE
Rates3 == {48000, 44100, 32000}
\* parameters that make up a sample description
Valid(kn, c) ==
  CASE c.k = "av1" -> c.seq # <<>> /\ InfoOf(kn, c)[1].ok
    [] c.k = "h265" -> c.vps # <<>> /\ c.sps # <<>> /\ c.pps # <<>> /\ InfoOf(kn, c)[1].ok
    [] c.k = "h264" -> c.sps # <<>> /\ c.pps # <<>> /\ InfoOf(kn, c)[1].ok
    [] c.k \in {"vp9", "mjpeg"} -> c.w # 0
    [] c.k \in {"mp4v", "mp1v"} -> c.config # <<>>
    [] c.k = "flac" -> "si" \in DOMAIN c
    [] c.k = "aac" -> c.cfg.count # 0 \/ c.cfg.chan \in 1 .. 7
    [] c.k \in {"ac3", "eac3"} -> c.rate \in Rates3
    [] OTHER -> TRUE
SizeOf(kn, c) ==
  IF HasParam(c) THEN LET i == InfoOf(kn, c)[1] IN <<i.w, i.h>>
  ELSE IF c.k \in {"vp9", "mjpeg"} THEN <<c.w, c.h>> ELSE <<800, 600>>

VisualEntry(kn, l, c) == Z(6) \o B2(1) \o Z(16) \o (IF Mem("nosize", l.alt) THEN Z(4) ELSE B2(SizeOf(kn, c)[1]) \o B2(SizeOf(kn, c)[2]))
  \o B4(4718592) \o B4(4718592) \o Z(4) \o B2(1) \o Z(32) \o B2(24) \o <<255, 255>>
AudioEntry(ch, bits, rate) == Z(6) \o B2(1) \o Z(8) \o B2(ch) \o B2(bits) \o Z(4) \o B2(rate) \o Z(2)

\* ISO 14496-1 descriptors, sizes on 4 bytes
Descr(tag, p) == LET n == Len(p) IN <<tag, 128 + (n \div 2097152), 128 + ((n \div 16384) % 128), 128 + ((n \div 128) % 128), n % 128>> \o p
Short(tag, p) == <<tag, Len(p)>> \o p
Esds(l, id, oti, stream, max, avg, spec) ==
  LET d(t, p) == IF Mem("short", l.alt) /\ Len(p) < 100 THEN Short(t, p) ELSE Descr(t, p)
  IN Full(l, "esds", 0, 0,
       d(3, B2(id) \o <<0>>
            \o d(4, <<oti, stream * 4 + 1>> \o Z(3) \o max \o avg \o (IF spec = <<>> \/ Mem("nospec", l.alt) THEN <<>> ELSE d(5, spec)))
            \o d(6, <<2>>)))

Bool(b) == IF b THEN 1 ELSE 0
\* alternatives that leave out what a codec needs, or have more than is supported: not readable
LackOf(c) ==
  <<"none", "twice">> \o
  (CASE c.k = "av1" -> <<"noseq">>
     [] c.k = "h264" -> <<"nosps", "nopps", "twosps", "twopps", "emptypps">>
     [] c.k = "h265" -> <<"novps", "nosps", "nopps", "twosps", "twopps", "emptypps">>
     [] c.k \in {"vp9", "mjpeg"} -> <<"nosize">>
     [] c.k \in {"mp4v", "mp1v", "aac"} -> <<"nospec">>
     [] c.k = "flac" -> <<"shortfl">>
     [] c.k = "eac3" -> <<"multi">>
     [] OTHER -> <<>>)
\* alternatives "-x", "+x": box x is missing, or there twice (in the last track; in the first one with "early")
Times(l, n, b) == IF Mem("-" \o n, l.alt) THEN <<>> ELSE IF Mem("+" \o n, l.alt) THEN b \o b ELSE b
HeadDefects == <<"-ftyp", "-moov", "-mvhd", "-tkhd", "-mdia", "-mdhd", "-minf", "-stbl", "-stsd", "+ftyp", "+moov", "+mvhd", "+tkhd", "+mdia", "+mdhd", "+minf", "+stsd">>
TableDefects == <<"-stts", "-stsc", "-stsz", "-stco", "+stts", "+stsc", "+elst">>
BadTrack(l, ts) == IF Mem("early", l.alt) THEN 1 ELSE Len(ts)
\* the layout of track k
LayOf(l, ts, k) == IF k = BadTrack(l, ts) THEN l ELSE [l EXCEPT !.alt = SelectSeq(@, LAMBDA a : ~Mem(a, HeadDefects \o TableDefects))]
Lacks(l, c) == IF c.k = "c608" THEN FALSE ELSE \E k \in 1 .. Len(LackOf(c)) : Mem(LackOf(c)[k], l.alt)
Av1C(kn, l, c) ==
  LET i == InfoOf(kn, c)[1] IN
  Box(l, "av1C", <<129, i.profile * 32 + i.level, i.tier * 128 + Bool(i.high) * 64 + Bool(i.twelve) * 32 + Bool(i.mono) * 16 + Bool(i.subx) * 8 + Bool(i.suby) * 4 + i.csp, 0>>
                 \* other OBUs beside the sequence header: metadata, padding
                 \o A1!Encode((IF Mem("obu1", l.alt) THEN <<<<40, 1, 4, 0, 128>>>> ELSE <<>>) \o (IF Mem("noseq", l.alt) THEN <<<<42, 1, 0>>>> ELSE <<c.seq>>) \o (IF Mem("obu2", l.alt) THEN <<<<120, 128>>>> ELSE <<>>)).buf)
\* alternative "raw": six bytes of the SPS which are not the constraint flags, and two temporal layers;
\* what the library writes (finding hvcc-constraints)
HvcC(kn, l, c) ==
  LET i == InfoOf(kn, c)[1]
      set(t, p) == LET n == Bool((Mem("twosps", l.alt) /\ t = 33) \/ (Mem("twopps", l.alt) /\ t = 34)) one == B2(Len(p)) \o p IN
                   <<t + (IF Mem("complete", l.alt) THEN 128 ELSE 0)>> \o B2(1 + n) \o (IF n = 1 THEN one ELSE <<>>) \o one
      no(t) == CASE t = 32 -> Mem("novps", l.alt) [] t = 33 -> Mem("nosps", l.alt) [] OTHER -> Mem("nopps", l.alt)
      arr(t, p) == IF no(t) THEN <<>> ELSE set(t, IF t = 34 /\ Mem("emptypps", l.alt) THEN <<>> ELSE p)
      extra == IF Mem("sei", l.alt) THEN <<39>> \o B2(2) \o B2(3) \o <<78, 1, 5>> \o B2(2) \o <<78, 1>> ELSE <<>>
      order == IF Mem("order", l.alt) THEN arr(34, c.pps) \o arr(33, c.sps) \o extra \o arr(32, c.vps) ELSE arr(32, c.vps) \o arr(33, c.sps) \o arr(34, c.pps) \o extra
  IN Box(l, "hvcC", <<1, i.head>> \o i.compat \o (IF Mem("raw", l.alt) THEN SubSeq(c.sps, 8, 13) ELSE i.constr) \o <<i.level, 240, 0, 252, 252 + i.chroma, 248 + i.dl, 248 + i.dc, 0, 0, IF Mem("raw", l.alt) THEN 19 ELSE 11, (IF extra = <<>> THEN 3 ELSE 4) - Bool(no(32)) - Bool(no(33)) - Bool(no(34))>>
                 \o order)
AvcC(kn, l, c) ==
  LET one(x) == B2(Len(x)) \o x
      sets(b, n, x) == IF Mem("no" \o n, l.alt) THEN <<b>> ELSE IF Mem("two" \o n, l.alt) THEN <<b + 2>> \o one(x) \o one(x) ELSE <<b + 1>> \o one(x)
  IN Box(l, "avcC", <<1>> \o InfoOf(kn, c)[1].p3 \o <<255>> \o sets(224, "sps", c.sps) \o sets(0, "pps", IF Mem("emptypps", l.alt) THEN <<>> ELSE c.pps)
                 \* the fields of the high profiles; the library does not write them
                 \o (IF Mem("avcext", l.alt) /\ InfoOf(kn, c)[1].p3[1] \in {100, 110, 122, 144} THEN <<253, 248, 248, 0>> ELSE <<>>))
VpcC(l, c) == Full(l, "vpcC", 1, 0, <<c.profile, 10, c.depth * 16 + c.chroma * 2 + Bool(c.range), 0, 0, 0, 0, 0>>)
DOps(l, c) == Box(l, "dOps", <<0, c.ch>> \o B2(312) \o B4(48000) \o <<0, 0, 0>>)
DfLa(l, c) == Full(l, "dfLa", 0, 0, IF Mem("shortfl", l.alt) THEN <<128, 0, 0>>
  \* other metadata blocks beside the stream information
  ELSE IF Mem("flacmore", l.alt) THEN <<0, 0, 0, 34>> \o S!FlacEnc(c.si) \o <<1, 0, 0, 2, 0, 0, 132, 0, 0, 8>> \o Z(8)
  ELSE <<128, 0, 0, 34>> \o S!FlacEnc(c.si))
FsCod(rate) == CASE rate = 48000 -> 0 [] rate = 44100 -> 1 [] OTHER -> 2
Pack(bits) == [k \in 1 .. Len(bits) \div 8 |-> Val(SubSeq(bits, 8 * k - 7, 8 * k))]
Dac3(l, c) == Box(l, "dac3", Pack(ToBits(FsCod(c.rate), 2) \o ToBits(c.bsid, 5) \o ToBits(c.bsmod, 3) \o ToBits(c.acmod, 3) \o ToBits(Bool(c.lfe), 1) \o ToBits(c.brc, 5) \o ToBits(0, 5)))
Dec3(l, c) ==
  LET sub == ToBits(FsCod(c.rate), 2) \o ToBits(16, 5) \o <<0>> \o ToBits(Bool(c.asvc), 1) \o ToBits(c.bsmod, 3) \o ToBits(c.acmod, 3)
  \o ToBits(Bool(c.lfe), 1) \o ToBits(0, 3) \o ToBits(c.ndep, 4) \o (IF c.ndep > 0 THEN ToBits(c.chanloc, 9) ELSE <<0>>)
      multi == Mem("multi", l.alt)
  IN Box(l, "dec3", Pack(ToBits(c.drate, 13) \o ToBits(Bool(multi), 3) \o sub \o (IF multi THEN sub ELSE <<>>)))
PcmC(l, c) == Full(l, "pcmC", 0, 0, <<Bool(c.le), c.depth>>)
AacCh(c) == IF c.cfg.count # 0 THEN c.cfg.count ELSE IF c.cfg.chan = 7 THEN 8 ELSE c.cfg.chan

\* sample entry; max, avg: bit rates; tail: boxes after the configuration
Entry(kn, l, c, id, max, avg, tail) ==
  LET cf(conf) == IF Mem("none", l.alt) THEN <<>> ELSE IF Mem("twice", l.alt) THEN conf \o conf ELSE conf
      v(n, conf) == Box(l, n, VisualEntry(kn, l, c) \o cf(conf) \o tail)
      a(n, ch, bits, rate, conf) == Box(l, n, AudioEntry(ch, bits, rate) \o cf(conf) \o tail)
      es(oti, st, spec) == Esds(l, id, oti, st, max, avg, spec)
  IN
  CASE c.k = "av1" -> v("av01", Av1C(kn, l, c))
    [] c.k = "vp9" -> v("vp09", VpcC(l, c))
    [] c.k = "h265" -> v(IF Mem("hev1", l.alt) THEN "hev1" ELSE "hvc1", HvcC(kn, l, c))
    [] c.k = "h264" -> v("avc1", AvcC(kn, l, c))
    [] c.k = "mp4v" -> v("mp4v", es(32, 4, c.config))
    [] c.k = "mp1v" -> v("mp4v", es(97, 4, c.config))
    [] c.k = "mjpeg" -> v("mp4v", es(108, 4, <<>>))
    [] c.k = "opus" -> a("Opus", c.ch, 16, 48000, DOps(l, c))
    [] c.k = "flac" -> a("fLaC", c.si.ch, c.si.depth, c.si.rate, DfLa(l, c))
    [] c.k = "aac" -> a("mp4a", AacCh(c), 16, c.cfg.rate, es(64, 5, KnownAsc(kn, c.cfg)[1].buf))
    [] c.k = "mp1a" -> a("mp4a", c.ch, 16, c.rate, es(107, 5, <<>>))
    [] c.k = "ac3" -> a("ac-3", c.ch, 16, c.rate, Dac3(l, c))
    [] c.k = "eac3" -> a("ec-3", c.ch, 16, c.rate, Dec3(l, c))
    [] c.k = "lpcm" -> a("ipcm", c.ch, c.depth, c.rate, PcmC(l, c))
    \* closed captions: not supported, no track
    [] c.k = "c608" -> Box(l, "c608", Z(6) \o B2(1))

\* what reading a sample entry gives
View(kn, c) == CASE c.k = "av1" -> [c EXCEPT !.seq = A1!Decode(A1!Encode(<<c.seq>>).buf).obus[1]]
             [] c.k = "ac3" -> c @@ [fscod |-> FsCod(c.rate)]
             [] c.k = "aac" -> [c EXCEPT !.cfg = KnownAsc(kn, c.cfg)[1].out]
             [] c.k = "eac3" -> IF c.ndep > 0 THEN c ELSE [c EXCEPT !.chanloc = 0]
             [] OTHER -> c

\* ---- track headers
Tkhd(kn, l, c, id, dur) ==
  LET times == IF Mem("tkhd", l.v1) THEN Z(16) \o id \o Z(8) \o dur ELSE Z(8) \o id \o Z(4) \o dur
      size == IF Video(c) THEN B2(SizeOf(kn, c)[1]) \o Z(2) \o B2(SizeOf(kn, c)[2]) \o Z(2) ELSE Z(8)
  IN Full(l, "tkhd", IF Mem("tkhd", l.v1) THEN 1 ELSE 0, 3,
          times \o Z(8) \o Z(2) \o (IF Video(c) THEN B2(0) \o B2(0) ELSE B2(1) \o B2(256)) \o Z(2) \o Unity \o size)
Mdhd(l, ts, dur) == Full(l, "mdhd", IF Mem("mdhd", l.v1) THEN 1 ELSE 0, 0,
  (IF Mem("mdhd", l.v1) THEN Z(16) \o ts \o Z(4) \o dur ELSE Z(8) \o ts \o dur) \o <<85, 196>> \o Z(2))
Hdlr(l, c) == Full(l, "hdlr", 0, 0, Z(4) \o (IF Video(c) THEN Codes["vide"] ELSE Codes["soun"]) \o Z(12)
  \o (IF Video(c) THEN <<86, 105, 100, 101, 111>> ELSE <<83, 111, 117, 110, 100>>) \o <<72, 97, 110, 100, 108, 101, 114, 0>>)
Mhd(l, c) == IF Video(c) THEN Full(l, "vmhd", 0, 1, Z(8)) ELSE Full(l, "smhd", 0, 0, Z(4))
Dinf(l) == Box(l, "dinf", Full(l, "dref", 0, 0, B4(1) \o Full(l, "url ", 0, 1, <<>>)))
Mvhd(l, dur, next) == Full(l, "mvhd", IF Mem("mvhd", l.v1) THEN 1 ELSE 0, 0,
  (IF Mem("mvhd", l.v1) THEN Z(16) \o B4(1000) \o Z(4) \o dur ELSE Z(8) \o B4(1000) \o dur) \o B4(65536) \o B2(256) \o Z(10) \o Unity \o Z(24) \o next)
Ftyp(l, major, brands) == Box(l, "ftyp", Codes[major] \o B4(1) \o Flat([k \in 1 .. Len(brands) |-> Codes[brands[k]]]))
=============================================================================
