---------------------------- MODULE GenTsWriter -----------------------------
(* Tracks of every codec, and sequences of units written to them. *)
EXTENDS TsWriter, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
Rnd(i, j) == LET a == (i * 7919 + j * 31337 + (Seed % 1000) * 4111 + 54321) % 32749 IN (((a * a + 7 * j + i) % 32719) * 61 + a) % 256
R(i, j, m) == (Rnd(i, j) * 65536 + Rnd(i, j + 5003) * 256 + Rnd(i, j + 10007)) % m
Rb(i, j, n) == [k \in 1 .. n |-> Rnd(i, j + 7 * k)]
Pick(i, j, X0) == X0[(R(i, j, Len(X0))) + 1]
Ch(i, j, n) == R(i, j, n) = 0
Nz(i, j, n) == [k \in 1 .. n |-> (Rnd(i, j + 7 * k) % 255) + 1]

Codecs == <<"h264", "h265", "mpeg4v", "mpeg1v", "opus", "aac", "latm", "mp1a", "ac3", "eac3", "klvs", "klva", "dvb">>
OpusDs == << S!Simple(0), S!Simple(1), S!Simple(5), S!Simple(128), S!Simple(131),
  [code |-> 129, count |-> 2, family |-> 0, streams |-> 0, coupled |-> 0, map |-> <<>>],
  [code |-> 129, count |-> 3, family |-> 1, streams |-> 2, coupled |-> 1, map |-> <<0, 2, 1>>],
  [code |-> 129, count |-> 6, family |-> 1, streams |-> 4, coupled |-> 2, map |-> <<0, 4, 1, 2, 3, 5>>] >>
Trk0(i, j, c, pid) ==
  LET b == [codec |-> c, pid |-> pid, lang |-> IF Ch(i, j, 3) THEN [k \in 1 .. 3 |-> 97 + R(i, j + k, 26)] ELSE <<>>] IN
  CASE c = "opus" -> IF Ch(i, j + 5, 3) THEN b @@ [chan |-> R(i, j + 6, 8) + 1, desc |-> <<>>] ELSE b @@ [chan |-> 0, desc |-> <<Pick(i, j + 7, OpusDs)>>]
    [] c = "aac" -> b @@ [type |-> Pick(i, j + 5, <<2, 2, 2, 1, 4, 5>>), rate |-> IF Ch(i, j + 6, 12) THEN 44101 ELSE Pick(i, j + 6, M!Rates), chan |-> Pick(i, j + 7, <<1, 2, 6, 7, 0>>), count |-> Pick(i, j + 8, <<1, 2, 8, 6>>)]
    [] c \in {"ac3", "eac3"} -> b @@ [chan |-> R(i, j + 5, 8) + 1]
    [] c = "dvb" -> b @@ [items |-> Rb(i, j + 5, 8 * (R(i, j + 6, 3) + 1))]
    [] OTHER -> b
\* sizes around what fits into packets
Size(i, j) == Pick(i, j, <<1, 2, 20, 140, 150, 160, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 184, 300, 345, 350, 355, 360, R(i, j + 1, 200) + 1, R(i, j + 2, 600) + 1>>)
MpaHeads == << <<255, 251, 144, 0>>, <<255, 253, 16, 196>>, <<255, 243, 48, 0>>, <<255, 251, 0, 0>>, <<255, 250, 160, 4>> >>
Data(i, j, c, first) ==
  LET n == Pick(i, j, <<1, 1, 2, 3>>)
      nalu(k, hs) == <<Pick(i, j + 10 * k, hs)>> \o Nz(i, j + 50 * k, Size(i, j + 10 * k + 1) - 1)
  IN CASE c = "h264" -> [k \in 1 .. n |-> nalu(k, IF k = 1 THEN <<9, 1, 1, 7, 101, 5, 25>> ELSE <<1, 6, 101, 8, 1>>)]
       [] c = "h265" -> [k \in 1 .. n |-> nalu(k, IF k = 1 THEN <<70, 2, 2, 64, 38, 42>> ELSE <<2, 78, 40, 2, 68>>)]
       [] c \in {"mpeg4v", "mpeg1v"} -> <<(IF Ch(i, j + 1, 2) THEN <<0, 0, 1, Pick(i, j + 2, <<179, 184, 182, 0>>)>> ELSE <<>>) \o Rb(i, j + 3, Size(i, j + 4)) \o (IF Ch(i, j + 5, 3) THEN <<0, 0, 1, Pick(i, j + 6, <<179, 184>>)>> ELSE <<>>)>>
       [] c = "mp1a" -> [k \in 1 .. n |-> (IF k = 1 /\ Ch(i, j + 1, IF first THEN 3 ELSE 5) THEN Pick(i, j + 2, MpaHeads) ELSE <<255, 251, 144, 0>>) \o Rb(i, j + 30 * k, Size(i, j + 3 * k))]
       [] c \in {"opus", "latm", "aac"} -> IF Ch(i, j + 7, 30) THEN <<>> ELSE [k \in 1 .. n |-> Rb(i, j + 30 * k, Size(i, j + 3 * k) - (IF c = "aac" THEN 0 ELSE 1))]
       [] c = "klvs" -> <<Rb(i, j + 1, Size(i, j + 2))>>
       [] OTHER -> <<Rb(i, j + 1, IF Ch(i, j + 3, 20) THEN 0 ELSE Size(i, j + 2))>>
T0(i, j) == Pick(i, j, <<<<0, 0, 0>>, <<7, 32767, 32767>>, <<0, 0, 8999>>, <<0, 0, 9000>>, <<0, 1, 5000>>, <<3, 0, 100>>, <<R(i, j + 1, 8), R(i, j + 2, 32768), R(i, j + 3, 32768)>>, <<R(i, j + 1, 8), R(i, j + 2, 32768), R(i, j + 3, 32768)>>>>)
Pids == <<0, 0, 0, 0, 256, 257, 300, 8000, 33, 511>>
Tracks0(i) ==
  IF Ch(i, 1, 25) THEN [k \in 1 .. 12 |-> Trk0(i, 100 * k, Pick(i, 20 + k, Codecs), 0)]
  ELSE [k \in 1 .. Pick(i, 2, <<1, 1, 2, 2, 3, 4>>) |-> Trk0(i, 100 * k, IF k = 1 THEN Codecs[(i % 13) + 1] ELSE Pick(i, 20 + k, Codecs), IF k > 1 /\ Ch(i, 10 + k, 2) THEN 0 ELSE Pick(i, 30 + k, Pids))]
Write(i, j, ts, k, first) ==
  LET t == T0(i, j + 1) IN
  [op |-> "write", t |-> k, pts |-> t, dts |-> IF Ch(i, j + 2, 2) THEN t ELSE IF Ch(i, j + 5, 3) THEN Minus(t, Pick(i, j + 6, <<1, 1, 2, 3, 90>>)) ELSE T0(i, j + 3), k |-> Pick(i, j + 4, <<0, 0, 0, -1, 1>>), data |-> Data(i, j + 10, ts[k].codec, first)]
Case(i) ==
  LET ts == Tracks0(i)
      n == IF Ch(i, 3, 15) THEN 60 ELSE Pick(i, 4, <<1, 3, 5, 8>>)
      \* mostly one track
      which(k) == IF n = 60 /\ ~Ch(i, 500 + k, 8) THEN 1 ELSE R(i, 600 + k, Len(ts)) + 1
      ops == Flat([k \in 1 .. n |-> (IF Ch(i, 700 + k, 10) THEN <<[op |-> "tables"]>> ELSE <<>>) \o
                IF n = 60 /\ ts[which(k)].codec \in {"h264", "h265"} /\ ~Ch(i, 800 + k, 20)
                THEN <<[op |-> "write", t |-> which(k), pts |-> <<0, 1, k>>, dts |-> <<0, 1, k>>, k |-> 0, data |-> <<<<2, k>>>>]>>
                ELSE <<Write(i, 1000 + 300 * k, ts, which(k), k = 1)>>])
  IN [cfg |-> [tracks |-> ts] @@ (IF Ch(i, 5, 6) THEN [limit |-> R(i, 6, 1500), once |-> R(i, 7, 2)] ELSE [tracks |-> ts]),
      ops |-> <<[op |-> "init"]>> \o ops]
Strict(c) == [cfg |-> [tracks |-> <<[codec |-> c, pid |-> 0, lang |-> <<>>, chan |-> 6]>>, finding |-> "component-type"], ops |-> <<[op |-> "init"], [op |-> "tables", strict |-> 1]>>]
ASSUME ndJsonSerialize(IOEnv.OUT, << [cfg |-> [tracks |-> <<>>], ops |-> <<[op |-> "init"], [op |-> "tables"]>>], Strict("ac3"), Strict("eac3") >>)
Total == IF Deep THEN 6000 ELSE 400
One(i) == Case(i)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
