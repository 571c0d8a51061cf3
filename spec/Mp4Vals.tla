------------------------------ MODULE Mp4Vals -------------------------------
(* Values for the containers: codecs of every kind, layouts.               *)
(* The parameter sets come from their own specifications (CATALOG).        *)
EXTENDS Mp4, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
Rnd(i, j) == LET a == (i * 7919 + j * 31337 + (Seed % 1000) * 4111 + 54321) % 32749 IN (((a * a + 7 * j + i) % 32719) * 61 + a) % 256
R(i, j, m) == (Rnd(i, j) * 65536 + Rnd(i, j + 5003) * 256 + Rnd(i, j + 10007)) % m
Rb(i, j, n) == [k \in 1 .. n |-> Rnd(i, j + 7 * k)]
Pick(i, j, X0) == X0[(R(i, j, Len(X0))) + 1]
Ch(i, j, n) == R(i, j, n) = 0

Catalog == ndJsonDeserialize(IOEnv.CATALOG)
OfKind(kind) == SelectSeq(Catalog, LAMBDA x : x.kind = kind)
KH264 == OfKind("h264")
KH265 == OfKind("h265")
KAv1 == OfKind("av1")
KAsc == OfKind("asc")
\* mostly valid ones
Some(i, j, q) == IF Ch(i, j, 12) THEN Pick(i, j + 1, q) ELSE Pick(i, j + 2, SelectSeq(q, LAMBDA x : IF x.kind = "asc" THEN TRUE ELSE x.ok))

Kinds == <<"av1", "vp9", "h265", "h264", "mp4v", "mp1v", "mjpeg", "opus", "flac", "aac", "mp1a", "ac3", "eac3", "lpcm">>
Limb(i, j) == R(i, j, 256) * 256 + R(i, j + 1, 256)
Codec(i, j, k) ==
  LET b == [k |-> k]
      f(n) == Ch(i, j + n, 2)
      o(n, m) == R(i, j + n, m)
      size(n) == Pick(i, j + n, <<1, 320, 1920, 4096, 65535>>)
      nal(n) == IF Ch(i, j + n, 25) THEN <<>> ELSE Rb(i, j + n + 1, Pick(i, j + n + 2, <<1, 2, 7, 30>>))
      rate(n, q) == Pick(i, j + n, q)
  IN
  CASE k = "av1" -> b @@ [seq |-> IF Ch(i, j, 60) THEN <<>> ELSE Some(i, j, KAv1).buf]
    [] k = "vp9" -> b @@ [w |-> IF Ch(i, j, 25) THEN 0 ELSE size(1), h |-> size(2), profile |-> o(3, 4), depth |-> Pick(i, j + 4, <<8, 10, 12>>), chroma |-> o(5, 8), range |-> f(6)]
    [] k = "h265" -> b @@ [vps |-> nal(1), sps |-> IF Ch(i, j + 20, 60) THEN <<>> ELSE Some(i, j + 21, KH265).buf, pps |-> nal(30)]
    [] k = "h264" -> b @@ [sps |-> IF Ch(i, j + 20, 60) THEN <<>> ELSE Some(i, j + 21, KH264).buf, pps |-> nal(30)]
    [] k \in {"mp4v", "mp1v"} -> b @@ [config |-> IF Ch(i, j, 15) THEN <<>> ELSE Rb(i, j + 1, Pick(i, j + 2, <<1, 12, 50, 99, 130, 300>>))]
    [] k = "mjpeg" -> b @@ [w |-> IF Ch(i, j, 25) THEN 0 ELSE size(1), h |-> size(2)]
    [] k = "opus" -> b @@ [ch |-> o(1, 8) + 1]
    [] k = "flac" -> IF Ch(i, j, 15) THEN b
                     ELSE b @@ [si |-> [minb |-> o(1, 65536), maxb |-> o(2, 65536), minf |-> o(3, 16777216), maxf |-> o(4, 16777216),
                            rate |-> rate(5, <<1, 8000, 44100, 48000, 65535>>), ch |-> o(6, 8) + 1, depth |-> Pick(i, j + 7, <<4, 8, 16, 24, 32>>),
                            total |-> <<0, o(8, 16), Limb(i, j + 9), Limb(i, j + 11)>>, md5 |-> Rb(i, j + 12, 16)]]
    [] k = "aac" -> b @@ [cfg |-> Some(i, j, KAsc).v]
    [] k = "mp1a" -> b @@ [rate |-> rate(1, <<8000, 22050, 44100, 48000>>), ch |-> o(2, 2) + 1]
    [] k = "ac3" -> b @@ [rate |-> rate(1, <<48000, 44100, 32000, 48000, 44100, 32000, 24000>>), ch |-> o(2, 6) + 1, bsid |-> o(3, 32), bsmod |-> o(4, 8), acmod |-> o(5, 8), lfe |-> f(6), brc |-> o(7, 32)]
    [] k = "eac3" -> b @@ [rate |-> rate(1, <<48000, 44100, 32000, 48000, 44100, 32000, 0>>), ch |-> o(2, 8) + 1, drate |-> o(3, 8192), asvc |-> f(4), bsmod |-> o(5, 8), acmod |-> o(6, 8), lfe |-> f(7),
                           ndep |-> Pick(i, j + 8, <<0, 0, 1, 8, 15>>), chanloc |-> o(9, 512)]
    [] k = "lpcm" -> b @@ [le |-> f(1), depth |-> Pick(i, j + 2, <<8, 16, 24, 32>>), rate |-> rate(3, <<8000, 44100, 48000, 65535>>), ch |-> Pick(i, j + 4, <<1, 2, 6, 8, 255>>)]
    [] k = "c608" -> b

\* the entries of the catalog that are about these codecs
KnownOf(cs) == SelectSeq(Catalog, LAMBDA x : \E n \in 1 .. Len(cs) :
  IF x.kind = "asc" THEN cs[n].k = "aac" /\ cs[n].cfg = x.v
  ELSE cs[n].k = x.kind /\ Param(cs[n]) = x.buf)

U32s == << <<0, 1, 95, 144>>, <<0, 0, 187, 128>>, <<0, 0, 0, 1>>, <<255, 255, 255, 255>>, <<0, 0, 3, 232>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>> >>
Junks == <<"free", "skip", "zzzz", "uuid", "styp">>
Sub(i, j, names, n) == SelectSeq(names, LAMBDA x : R(i, j + 13 * (CHOOSE k \in 1 .. Len(names) : names[k] = x), n) = 0)
=============================================================================
