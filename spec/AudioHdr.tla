------------------------------ MODULE AudioHdr ------------------------------
(***************************************************************************)
(* Audio frame headers: AC-3 (ATSC A/52 5.3), E-AC-3 (ETSI TS 102 366      *)
(* Annex E), MPEG-1/2 audio (ISO 11172-3 2.4.1.3, ISO 13818-3), Opus table *)
(* of contents byte (RFC 6716 3.1).                                        *)
(* MPEG audio layer I and 2.5 are refused because unsupported.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fail == [err |-> TRUE]
Hi(b, n) == b \div 2 ^ (8 - n)             \* n most significant bits
At(b, from, n) == (b \div 2 ^ (8 - from - n)) % 2 ^ n   \* n bits from position from

\* ---- AC-3
Kbps == <<32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 576, 640>>
\* 1536 samples per frame; 44.1 kHz frames have one padding word when the code is odd
Ac3Words(fs, code) == LET k == Kbps[code \div 2 + 1] IN
  IF fs = 0 THEN 2 * k ELSE IF fs = 2 THEN 3 * k ELSE ((k * 320) \div 147) + (code % 2)
Ac3(b) ==
  IF Len(b) < 5 THEN Fail
  ELSE LET fs == b[5] \div 64
           code == b[5] % 64
       IN IF b[1] # 11 \/ b[2] # 119 \/ fs = 3 \/ code >= 38 THEN Fail
          ELSE [fscod |-> fs, code |-> code, rate |-> <<48000, 44100, 32000>>[fs + 1], size |-> 2 * Ac3Words(fs, code)]
\* full bandwidth channels by acmod
Full(m) == <<2, 1, 2, 3, 3, 4, 4, 5>>[m + 1]
Bsi(b) ==
  IF Len(b) < 2 \/ b[1] \div 8 > 8 THEN Fail
  ELSE LET m == At(b[2], 0, 3)
           skip == (IF m % 2 = 1 /\ m # 1 THEN 2 ELSE 0) + (IF m >= 4 THEN 2 ELSE 0) + (IF m = 2 THEN 2 ELSE 0)
           lfe == At(b[2], 3 + skip, 1)
       IN [bsid |-> b[1] \div 8, bsmod |-> b[1] % 8, acmod |-> m, lfe |-> lfe = 1, channels |-> Full(m) + lfe]

\* ---- E-AC-3
Eac3(b) ==
  LET fs == At(b[5], 0, 2)
      s2 == At(b[5], 2, 2)
      m == At(b[5], 4, 3)
      size == (b[3] % 8) * 256 + b[4]
  IN IF Len(b) < 6 \/ b[1] # 11 \/ b[2] # 119 \/ (fs = 3 /\ s2 = 3) \/ b[6] \div 8 # 16 THEN Fail
     ELSE [strmtyp |-> b[3] \div 64, sub |-> At(b[3], 2, 3), frmsiz |-> size, fscod |-> fs, fscod2 |-> IF fs = 3 THEN s2 ELSE 0,
           blkcod |-> IF fs = 3 THEN 3 ELSE s2, acmod |-> m, lfe |-> b[5] % 2 = 1, size |-> 2 * (size + 1),
           rate |-> IF fs = 3 THEN <<24000, 22050, 16000>>[s2 + 1] ELSE <<48000, 44100, 32000>>[fs + 1],
           channels |-> Full(m) + (b[5] % 2), blocks |-> IF fs = 3 THEN 6 ELSE <<1, 2, 3, 6>>[s2 + 1]]

\* ---- MPEG audio
L2 == <<32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384>>
L3 == <<32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320>>
Lsf == <<8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160>>
Mpa(b) ==
  LET lsf == At(b[2], 4, 1) = 0
      layer == 4 - At(b[2], 5, 2)
      bi == b[3] \div 16
      si == At(b[3], 4, 2)
      kbps == IF lsf THEN Lsf[bi] ELSE IF layer = 2 THEN L2[bi] ELSE L3[bi]
      rate == IF lsf THEN <<22050, 24000, 16000>>[si + 1] ELSE <<44100, 48000, 32000>>[si + 1]
      samples == IF lsf /\ layer = 3 THEN 576 ELSE 1152
      pad == At(b[3], 6, 1)
  IN IF Len(b) < 4 \/ b[1] # 255 \/ b[2] < 240 \/ layer \notin {2, 3} \/ bi \in {0, 15} \/ si = 3 THEN Fail
     ELSE [mpeg2 |-> lsf, layer |-> layer, bitrate |-> 1000 * kbps, rate |-> rate, padding |-> pad = 1, mode |-> b[4] \div 64,
           samples |-> samples, len |-> ((samples \div 8) * 1000 * kbps) \div rate + pad]

\* ---- Opus, in units of 1/48000 s
OpusFrame(c) == IF c < 12 THEN <<480, 960, 1920, 2880>>[(c % 4) + 1] ELSE IF c < 16 THEN <<480, 960>>[(c % 2) + 1]
                ELSE <<120, 240, 480, 960>>[(c % 4) + 1]
OpusDur(p) ==
  IF p = <<>> THEN 0
  ELSE LET n == IF p[1] % 4 = 0 THEN 1 ELSE IF p[1] % 4 \in {1, 2} THEN 2 ELSE IF Len(p) < 2 THEN 0 ELSE p[2] % 64
       IN n * OpusFrame(p[1] \div 8)

StartStates(cfg) == {0}
Outcomes(s, e) ==
  LET keep(x) == {[st |-> s, res |-> x]}
      \* headers cut after their last element may be refused
      short(n, x) == keep(x) \cup (IF Len(e.buf) < n THEN keep(Fail) ELSE {})
  IN
  CASE e.op = "ac3" -> keep(Ac3(e.buf))
    [] e.op = "bsi" -> keep(Bsi(e.buf))
    [] e.op = "eac3" -> IF Len(e.buf) < 6 THEN keep(Fail) ELSE short(8, Eac3(e.buf))
    [] e.op = "mpa" -> IF Len(e.buf) < 4 THEN keep(Fail) ELSE short(5, Mpa(e.buf))
    [] e.op = "opus" -> LET d == OpusDur(e.buf) IN keep([d |-> d, us |-> (d * 125) \div 6])
=============================================================================
