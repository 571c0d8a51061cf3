----------------------------- MODULE StreamDesc -----------------------------
(***************************************************************************)
(* Stream descriptions: FLAC STREAMINFO (RFC 9639 8.2), Opus               *)
(* identification header (RFC 7845 5.1), JPEG marker segments (ITU-T T.81  *)
(* annex B), MPEG-4 Visual configurations (ISO 14496-2 6.2).               *)
(* And G.711 companding (ITU-T G.711).                                     *)
(*                                                                         *)
(* The code reads and writes the multi-byte fields of the Opus header in   *)
(* network order, while RFC 7845 requires little endian; operation         *)
(* "opusid_rfc" is specified as the RFC does (see known_findings.jsonl),   *)
(* the others as deployed.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fail == [err |-> TRUE]
Be(b, i, n) == IF n = 1 THEN b[i] ELSE IF n = 2 THEN b[i] * 256 + b[i + 1] ELSE (b[i] * 256 + b[i + 1]) * 256 + b[i + 2]
B1(v) == <<v % 256>>
B2(v) == <<(v \div 256) % 256, v % 256>>
B3(v) == <<(v \div 65536) % 256, (v \div 256) % 256, v % 256>>
Cut(b, i, n) == SubSeq(b, i, i + n - 1)

\* ---- FLAC
Flac(b) ==
  IF Len(b) < 34 THEN Fail
  ELSE [minb |-> Be(b, 1, 2), maxb |-> Be(b, 3, 2), minf |-> Be(b, 5, 3), maxf |-> Be(b, 8, 3),
        rate |-> b[11] * 4096 + b[12] * 16 + (b[13] \div 16), ch |-> ((b[13] \div 2) % 8) + 1,
        depth |-> (b[13] % 2) * 16 + (b[14] \div 16) + 1,
        total |-> <<0, b[14] % 16, Be(b, 15, 2), Be(b, 17, 2)>>, md5 |-> Cut(b, 19, 16)]
FlacEnc(v) ==
  B2(v.minb) \o B2(v.maxb) \o B3(v.minf) \o B3(v.maxf) \o
  <<v.rate \div 4096, (v.rate \div 16) % 256, (v.rate % 16) * 16 + (v.ch - 1) * 2 + ((v.depth - 1) \div 16),
    ((v.depth - 1) % 16) * 16 + v.total[2]>> \o B2(v.total[3]) \o B2(v.total[4]) \o v.md5

\* ---- Opus
Magic == <<79, 112, 117, 115, 72, 101, 97, 100>>
Opus(b) ==
  IF Len(b) < 19 \/ Cut(b, 1, 8) # Magic \/ b[9] # 1 THEN Fail
  ELSE [ch |-> b[10], skip |-> Be(b, 11, 2), rate |-> <<Be(b, 13, 2), Be(b, 15, 2)>>, gain |-> Be(b, 17, 2),
        family |-> b[19], table |-> Cut(b, 20, Len(b) - 19)]
OpusEnc(v) == Magic \o <<1, v.ch>> \o B2(v.skip) \o B2(v.rate[1]) \o B2(v.rate[2]) \o B2(v.gain) \o <<v.family>> \o v.table
Rev(b) == [i \in 1 .. Len(b) |-> b[Len(b) + 1 - i]]
OpusEncRfc(v) == Magic \o <<1, v.ch>> \o Rev(B2(v.skip)) \o Rev(B2(v.rate[1]) \o B2(v.rate[2])) \o Rev(B2(v.gain)) \o <<v.family>> \o v.table

\* ---- JPEG: payloads of marker segments, after marker and length
RECURSIVE Dqt(_)
Dqt(b) == IF b = <<>> THEN <<>> ELSE <<[id |-> b[1] % 16, data |-> Cut(b, 2, 64)]>> \o Dqt(Cut(b, 66, Len(b) - 65))
DqtOk(b) == Len(b) % 65 = 0 /\ \A k \in 0 .. (Len(b) \div 65) - 1 : b[65 * k + 1] < 16
RECURSIVE Concat(_)
Concat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Concat(Tail(l))
Segment(code, payload) == <<255, code>> \o B2(Len(payload) + 2) \o payload
DqtEnc(t) == Segment(219, Concat([k \in 1 .. Len(t) |-> <<t[k].id>> \o t[k].data]))
Dri(b) == IF Len(b) # 2 THEN Fail ELSE [interval |-> Be(b, 1, 2)]
\* three components, of which the first is subsampled 2x1 (type 0) or 2x2 (type 1)
Sof(b) ==
  IF Len(b) # 15 \/ b[1] # 8 \/ b[6] # 3 \/ b[8] \notin {33, 34} \/ b[11] # 17 \/ b[14] # 17 THEN Fail
  ELSE [type |-> b[8] - 33, width |-> Be(b, 4, 2), height |-> Be(b, 2, 2)]
\* types 64 and 65 (RFC 2435): 0 and 1 with restart markers
SofEnc(v) == LET q == IF v.tables = 2 THEN 1 ELSE 0 IN
  Segment(192, <<8>> \o B2(v.height) \o B2(v.width) \o <<3, 0, 33 + (v.type % 64), 0, 1, 17, q, 2, 17, q>>)
SosEnc == Segment(218, <<3, 0, 0, 1, 17, 2, 17, 0, 63, 0>>)
DhtEnc(v) == Segment(196, <<v.class * 16 + v.num>> \o v.codes \o v.symbols)

\* ---- MPEG-4 Visual: start codes
IsCode(b, k) == b[k] = 0 /\ b[k + 1] = 0 /\ b[k + 2] = 1
\* values of the start codes from position k
RECURSIVE Codes(_, _)
Codes(b, k) == IF k + 3 > Len(b) THEN {} ELSE IF IsCode(b, k) THEN {b[k + 3]} \cup Codes(b, k + 4) ELSE Codes(b, k + 1)
M4vOk(b) ==
  LET vals == Codes(b, 5) IN
  /\ Len(b) >= 4 /\ IsCode(b, 1) /\ b[4] = 176
  /\ \A v \in vals : v <= 31 \/ v \in 32 .. 47 \/ v \in {178, 181}
  /\ \E v \in vals : v <= 31
  /\ \E v \in vals : v \in 32 .. 47
\* a start code prefix at the very end
M4vCut(b) == Len(b) >= 7 /\ Cut(b, Len(b) - 2, 3) = <<0, 0, 1>>

\* ---- G.711
Alaw(c) ==
  LET inv(x, m) == LET bit(v, k) == (v \div 2 ^ k) % 2
                       RECURSIVE go(_) go(k) == IF k = 8 THEN 0 ELSE go(k + 1) + (IF bit(x, k) # bit(m, k) THEN 2 ^ k ELSE 0)
                   IN go(0)
      v == inv(c, 85)
      m == v % 16
      e == (v \div 16) % 8
      a == IF e = 0 THEN (2 * m + 1) * 8 ELSE (2 * m + 33) * 2 ^ (e + 2)
  IN IF v >= 128 THEN a ELSE -a
Mulaw(c) ==
  LET v == 255 - c
      a == ((v % 16) * 8 + 132) * 2 ^ ((v \div 16) % 8) - 132
  IN IF v >= 128 THEN -a ELSE a
AT == [c \in 0 .. 255 |-> Alaw(c)]
UT == [c \in 0 .. 255 |-> Mulaw(c)]
Lin(s) == B2((s + 65536) % 65536)
Samp(hi, lo) == IF hi >= 128 THEN hi * 256 + lo - 65536 ELSE hi * 256 + lo
Dist(x, y) == IF x > y THEN x - y ELSE y - x
\* values in order
AV == {AT[c] : c \in 0 .. 255}
UV == {UT[c] : c \in 0 .. 255}
\* next value above and below, if any
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Up(V, T) == [c \in 0 .. 255 |-> LET S == {y \in V : y > T[c]} IN IF S = {} THEN T[c] ELSE MinOf(S)]
Dn(V, T) == [c \in 0 .. 255 |-> LET S == {y \in V : y < T[c]} IN IF S = {} THEN T[c] ELSE MaxOf(S)]
AUp == Up(AV, AT)
ADn == Dn(AV, AT)
UUp == Up(UV, UT)
UDn == Dn(UV, UT)
\* the code of a sample is the nearest, when samples are rounded down to 14 bits, with an error of less than one 14-bit step
Near(T, U, D, s, c) == LET q == 4 * (s \div 4) IN Dist(T[c], q) < Dist(U[c], q) + 4 /\ Dist(T[c], q) < Dist(D[c], q) + 4
\* a sample which is exactly the value of a code keeps its value
Exact(T, V, s, c) == s \in V => T[c] = s
EncOk(mu, b, r) ==
  /\ Len(r) = Len(b) \div 2
  /\ \A k \in 1 .. Len(r) : LET s == Samp(b[2 * k - 1], b[2 * k]) IN
       /\ r[k] \in 0 .. 255
       /\ IF mu THEN Near(UT, UUp, UDn, s, r[k]) /\ Exact(UT, UV, s, r[k]) ELSE Near(AT, AUp, ADn, s, r[k]) /\ Exact(AT, AV, s, r[k])

StartStates(cfg) == {0}
Outcomes(s, e) ==
  LET keep(x) == {[st |-> s, res |-> x]}
      enc(x) == keep([buf |-> x])
      tab(T) == enc(Concat([k \in 1 .. Len(e.buf) |-> Lin(T[e.buf[k]])]))
      g(mu) == IF Len(e.buf) % 2 # 0 THEN keep(Fail)
               ELSE IF "enc" \in DOMAIN e.r /\ EncOk(mu, e.buf, e.r.enc) THEN keep(e.r) ELSE keep([expected |-> "nearest codes"])
  IN
  CASE e.op = "flac" -> keep(Flac(e.buf))
    [] e.op = "flac_enc" -> enc(FlacEnc(e.v))
    [] e.op = "opusid" -> keep(Opus(e.buf))
    [] e.op = "opusid_enc" -> enc(OpusEnc(e.v))
    [] e.op = "opusid_rfc" -> enc(OpusEncRfc(e.v))
    [] e.op = "dqt" -> IF DqtOk(e.buf) THEN keep([tables |-> Dqt(e.buf)]) ELSE keep(Fail)
    [] e.op = "dqt_enc" -> enc(e.pre \o DqtEnc(e.tables))
    [] e.op = "dri" -> keep(Dri(e.buf))
    [] e.op = "sof" -> keep(Sof(e.buf))
    [] e.op = "sof_enc" -> enc(e.pre \o SofEnc(e.v))
    [] e.op = "sos" -> IF Len(e.buf) = 10 THEN keep([ok |-> TRUE]) ELSE keep(Fail)
    [] e.op = "sos_enc" -> enc(e.pre \o SosEnc)
    [] e.op = "soi_enc" -> enc(e.pre \o <<255, 216>>)
    [] e.op = "dht_enc" -> enc(e.pre \o DhtEnc(e.v))
    [] e.op = "m4v" -> (IF M4vOk(e.buf) /\ ~M4vCut(e.buf) THEN {} ELSE keep(Fail)) \cup (IF M4vOk(e.buf) THEN keep([ok |-> TRUE]) ELSE {})
    [] e.op = "alaw" -> tab(AT)
    [] e.op = "mulaw" -> tab(UT)
    [] e.op = "alaw_enc" -> g(FALSE)
    [] e.op = "mulaw_enc" -> g(TRUE)
=============================================================================
