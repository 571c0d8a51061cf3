---------------------------- MODULE GenStreamDesc ---------------------------
EXTENDS StreamDesc, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
Rnd(i, j) == LET a == (i * 7919 + j * 31337 + (Seed % 1000) * 4111 + 12345) % 32749 IN (((a * a + 7 * j + i) % 32719) * 61 + a) % 256
R(i, j, m) == (Rnd(i, j) * 65536 + Rnd(i, j + 50) * 256 + Rnd(i, j + 100)) % m
Rb(i, j, n) == [k \in 1 .. n |-> Rnd(i, j + 7 * k)]
C(ops) == [cfg |-> [x |-> 0], ops |-> ops]
O(op, b) == [op |-> op, buf |-> b]
Cuts(op, b) == [k \in 1 .. Len(b) + 1 |-> O(op, SubSeq(b, 1, k - 1))]
Set(b, k, v) == [b EXCEPT ![k] = v]
Ones(n) == [k \in 1 .. n |-> 255]
\* numbers at the edges
Pick(i, j, S) == S[(Rnd(i, j) % Len(S)) + 1]
E16(i, j) == Pick(i, j, <<0, 1, 255, 256, 32767, 32768, 65535, R(i, j, 65536), R(i, j + 3, 65536)>>)
E24(i, j) == Pick(i, j, <<0, 1, 255, 256, 65535, 65536, 8388608, 16777215, R(i, j, 16777216), R(i, j + 3, 16777216)>>)
E8(i, j) == Pick(i, j, <<0, 1, 127, 128, 255, Rnd(i, j + 3), Rnd(i, j + 4)>>)
FV(i) == [minb |-> E16(i, 1), maxb |-> E16(i, 2), minf |-> E24(i, 3), maxf |-> E24(i, 4),
          rate |-> Pick(i, 5, <<0, 1, 15, 16, 4095, 4096, 44100, 48000, 96000, 655350, 1048575, R(i, 6, 1048576), R(i, 7, 1048576)>>), ch |-> (Rnd(i, 8) % 8) + 1,
          depth |-> (Rnd(i, 9) % 32) + 1, total |-> <<0, Rnd(i, 10) % 16, E16(i, 11), E16(i, 12)>>, md5 |-> Rb(i, 13, 16)]
OV(i) == [ch |-> E8(i, 1), skip |-> E16(i, 2), rate |-> <<E16(i, 3), E16(i, 4)>>, gain |-> E16(i, 5), family |-> E8(i, 6),
          table |-> Rb(i, 7, Rnd(i, 8) % 9)]
Flacs(i) == C(<<[op |-> "flac_enc", v |-> FV(i)], O("flac", Rb(i, 200, 34)), O("flac", FlacEnc(FV(i + 31)))>>)
Opuses(i) == C(<<[op |-> "opusid_enc", v |-> OV(i)], O("opusid", OpusEnc(OV(i + 77))), O("opusid", Magic \o <<1>> \o Rb(i, 200, 10 + (Rnd(i, 9) % 6)))>>)
T(i, j) == [id |-> Rnd(i, j) % 16, data |-> Rb(i, j + 100, 64)]
Sof1 == <<8, 1, 2, 3, 4, 3, 9, 34, 9, 9, 17, 9, 9, 17, 9>>
Jpegs(i) ==
  LET ts == [j \in 1 .. (i % 5) |-> T(i, j)] IN
  C(<<[op |-> "dqt_enc", pre |-> Rb(i, 1, i % 3), tables |-> ts], O("dqt", Concat([k \in 1 .. Len(ts) |-> <<ts[k].id>> \o ts[k].data])),
      O("dqt", Concat([k \in 1 .. Len(ts) |-> <<ts[k].id>> \o ts[k].data]) \o Rb(i, 500, (i % 70) + 1)),
      O("dqt", <<Rnd(i, 3) % (IF i % 2 = 0 THEN 16 ELSE 256)>> \o T(i, 1).data),
      O("dri", Rb(i, 2, i % 4)), O("dri", Rb(i, 2, 2)),
      O("sof", [k \in 1 .. 15 |-> IF k \in {2, 3, 4, 5, 7, 9, 10, 12, 13, 15} THEN Rnd(i, k) ELSE IF k = 8 THEN 33 + (i % 2) ELSE Sof1[k]]),
      O("sof", Set(Sof1, (i % 15) + 1, Rnd(i, 9))),
      [op |-> "sof_enc", pre |-> Rb(i, 1, i % 4), v |-> [type |-> (i % 2) + 64 * ((i \div 8) % 2), width |-> E16(i, 2), height |-> E16(i, 3), tables |-> (i \div 2) % 4]],
      [op |-> "sos_enc", pre |-> Rb(i, 1, i % 4)], [op |-> "soi_enc", pre |-> Rb(i, 1, i % 4)],
      [op |-> "dht_enc", pre |-> Rb(i, 1, i % 4),
       v |-> [class |-> i % 2, num |-> (i \div 2) % 4, codes |-> Rb(i, 50, IF i % 8 = 0 THEN 0 ELSE 16), symbols |-> Rb(i, 90, IF i % 7 = 0 THEN 300 ELSE Rnd(i, 4))]]>>)
Sc(v) == <<0, 0, 1, v>>
Unit(i, j) == LET k == Rnd(i, j) % 16 IN
  Sc(IF k < 3 THEN Rnd(i, j + 1) % 32 ELSE IF k < 6 THEN 32 + (Rnd(i, j + 1) % 16) ELSE IF k < 8 THEN 181 ELSE IF k < 10 THEN 178 ELSE IF k = 10 THEN Rnd(i, j + 1) ELSE IF k = 11 THEN 176
     ELSE IF k = 12 THEN 48 ELSE 0)
  \o (IF k % 3 = 0 THEN <<>> ELSE IF k % 3 = 1 THEN Rb(i, j + 2, Rnd(i, j + 3) % 5) ELSE [x \in 1 .. (Rnd(i, j + 4) % 6) |-> Rnd(i, j + x) % 2])
M4(i) == Sc(IF i % 40 = 39 THEN 181 ELSE 176) \o <<1>> \o Concat([j \in 1 .. (i % 6) |-> Unit(i, 10 * j)]) \o (IF i % 9 = 0 THEN SubSeq(Sc(3), 1, i % 5) ELSE <<>>)
M4s(i) == C([k \in 1 .. 20 |-> O("m4v", M4(20 * i + k))])
M4all(i) == C([k \in 1 .. 16 |-> O("m4v", Sc(176) \o Sc(5) \o Sc(37) \o Sc(16 * i - 17 + k))]
              \o [k \in 1 .. 16 |-> O("m4v", Sc(176) \o Sc(16 * i - 17 + k) \o Sc(37) \o <<7>>)] \o [k \in 1 .. 16 |-> O("m4v", Sc(176) \o Sc(5) \o Sc(16 * i - 17 + k) \o <<9>>)])
F0 == FlacEnc(FV(3))
Fixed == <<
  C(Cuts("flac", F0 \o <<1>>)), C(Cuts("opusid", OpusEnc(OV(5)))),
  C([k \in 1 .. 12 |-> O("opusid", Set(OpusEnc(OV(9)), k, 254))]),
  [cfg |-> [finding |-> "opusid-rfc"], ops |-> <<[op |-> "opusid_rfc", v |-> [ch |-> 2, skip |-> 312, rate |-> <<0, 48000>>, gain |-> 0, family |-> 0, table |-> <<>>]]>>],
  C(Cuts("sof", Sof1 \o <<0>>)), C(Cuts("sos", <<3, 0, 0, 1, 17, 2, 17, 0, 63, 0, 0>>)), C(Cuts("dqt", <<1>> \o Rb(4, 1, 64) \o <<2>> \o Rb(5, 1, 64))),
  C(Cuts("m4v", Sc(176) \o <<1>> \o Sc(181) \o <<9>> \o Sc(0) \o Sc(32) \o <<1, 2, 3>> \o Sc(178))) >>
N == IF Deep THEN 4000 ELSE 300
Total == Len(Fixed) + 16 + 4 * N
One(i) == IF i <= Len(Fixed) THEN Fixed[i] ELSE IF i <= Len(Fixed) + 16 THEN M4all(i - Len(Fixed))
          ELSE LET k == i - Len(Fixed) - 16
                   n == (k \div 4) + 1
               IN CASE k % 4 = 0 -> Flacs(n) [] k % 4 = 1 -> Opuses(n) [] k % 4 = 2 -> Jpegs(n) [] k % 4 = 3 -> M4s(n)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
