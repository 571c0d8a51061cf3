---------------------------- MODULE GenFmp4Parts ----------------------------
EXTENDS Fmp4Parts, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
Rnd(i, j) == LET a == (i * 7919 + j * 31337 + (Seed % 1000) * 4111 + 54321) % 32749 IN (((a * a + 7 * j + i) % 32719) * 61 + a) % 256
R(i, j, m) == (Rnd(i, j) * 65536 + Rnd(i, j + 5003) * 256 + Rnd(i, j + 10007)) % m
Rb(i, j, n) == [k \in 1 .. n |-> Rnd(i, j + 7 * k)]
Pick(i, j, X0) == X0[(R(i, j, Len(X0))) + 1]
Ch(i, j, n) == R(i, j, n) = 0
Sub(i, j, names, n) == SelectSeq(names, LAMBDA x : R(i, j + 13 * (CHOOSE k \in 1 .. Len(names) : names[k] = x), n) = 0)

Boxes == <<"moof", "mfhd", "traf", "tfhd", "tfdt", "trun", "mdat", "sidx", "styp", "emsg", "moov", "mvhd", "mvex", "trex">>
\* junk after trun only: the run must follow its headers anyway
Alts == <<"dur", "size", "flags", "first", "cto", "v0", "dep", "desc">>
Lay(i, j) ==
  LET n == Pick(i, j, <<2, 4, 1000>>) m == Pick(i, j + 1, <<2, 4, 1000>>)
  IN [big |-> Sub(i, j + 10, Boxes, n), free |-> Sub(i, j + 20, Boxes, m), junk |-> Pick(i, j + 2, <<"free", "skip", "zzzz", "sgpd">>), v1 |-> <<>>,
      alt |-> Sub(i, j + 40, Alts, Pick(i, j + 3, <<2, 2, 5>>)) \o (IF Ch(i, j + 4, 15) THEN <<"noff">> ELSE <<>>) \o (IF Ch(i, j + 9, 8) THEN <<Pick(i, j + 14, Defects)>> ELSE <<>>),
      cut |-> Pick(i, j + 5, <<0, 1, 2, 3, 7>>), mix |-> Ch(i, j + 6, 2), head |-> Pick(i, j + 7, <<0, 0, 5>>), pre |-> Pick(i, j + 8, <<"none", "styp", "sidx", "init", "emsg", "prft", "junk">>)]
MinInt == -2147483647 - 1
Offs == <<0, 1, -1, 3000, -3000, 2147483647, MinInt>>
Durs == << <<0, 0, 11, 184>>, Z(4), <<255, 255, 255, 255>>, <<0, 1, 95, 144>> >>
\* kind: 1 everything the same, 2 the first is a sync sample, 3 random
Samples(i, j) ==
  LET n == Pick(i, j, <<0, 1, 1, 2, 3, 4, 6, 9>>)
      kd == Pick(i, j + 1, <<1, 2, 2, 3, 3>>)
      ns == Ch(i, j + 2, 2)
      size == Pick(i, j + 3, <<0, 1, 4, 10>>)
      offs == Pick(i, j + 4, <<1, 2, 3>>)
  IN [k \in 1 .. n |->
       [dur |-> IF kd < 3 THEN Durs[1] ELSE IF Ch(i, j + 10 * k, 2) THEN Durs[1] ELSE Pick(i, j + 10 * k + 1, Durs \o <<Rb(i, j + k, 4)>>),
        off |-> IF offs = 1 THEN 0 ELSE IF offs = 2 THEN R(i, j + 10 * k + 2, 4) * 1000 ELSE Pick(i, j + 10 * k + 3, Offs),
        ns |-> IF kd = 1 THEN ns ELSE IF kd = 2 THEN k > 1 ELSE Ch(i, j + 10 * k + 4, 2),
        data |-> Rb(i, j + 31 * k, IF kd = 3 /\ Ch(i, j + 10 * k + 6, 2) THEN Pick(i, j + 10 * k + 5, <<0, 1, 7, 30, 300>>) ELSE size)]]
Track(i, j) == [id |-> Pick(i, j, <<1, 2, 3, 256, 2147483647>>),
  base |-> Pick(i, j + 1, << Z(8), Z(5) \o <<1, 95, 144>>, Z(4) \o <<255, 255, 255, 255>>, Z(3) \o <<1, 0, 0, 0, 0>>, [k \in 1 .. 8 |-> 255], Rb(i, j + 2, 8) >>), samples |-> Samples(i, j + 100)]
PartOf(i, j) == [seq |-> Pick(i, j, << Z(4), <<0, 0, 0, 1>>, <<255, 255, 255, 255>>, Rb(i, j + 1, 4) >>), tracks |-> [k \in 1 .. Pick(i, j + 2, <<0, 1, 1, 1, 2, 2, 3>>) |-> Track(i, j + 1000 * k)]]
Nal(i, j, hs) == IF Ch(i, j, 15) THEN <<>> ELSE <<Pick(i, j + 1, hs)>> \o Rb(i, j + 2, Pick(i, j + 3, <<0, 1, 3, 20>>))
Au(i, j, hs) == [k \in 1 .. Pick(i, j, <<0, 1, 1, 2, 4>>) |-> Nal(i, j + 10 * k, hs)]
Heads(c) == CASE c = "h264" -> <<101, 5, 65, 1, 6, 9, 133>> [] c = "h265" -> <<38, 40, 42, 2, 64, 44, 166>> [] OTHER -> <<8, 48, 10, 50, 18>>
Fill(i, j) == LET c == Pick(i, j, <<"h264", "h265", "av1">>) IN [op |-> "fill", codec |-> c, off |-> IF c = "av1" THEN 0 ELSE Pick(i, j + 1, Offs), au |-> Au(i, j + 2, Heads(c))]
Get(i, j) ==
  LET c == Pick(i, j, <<"h264", "h265", "av1">>)
      au == Au(i, j + 2, Heads(c))
      b == IF c = "av1" THEN A1!Encode(au) ELSE [buf |-> V!Encode(au)]
  IN [op |-> "get", codec |-> c, buf |-> IF "err" \in DOMAIN b THEN Rb(i, j + 1, 6) ELSE IF Ch(i, j + 3, 4) THEN SubSeq(b.buf, 1, (Len(b.buf) * 2) \div 3) ELSE b.buf]
Case(i) ==
  LET ps == [k \in 1 .. Pick(i, 1, <<0, 1, 1, 1, 2, 3>>) |-> PartOf(i, 10000 * k)]
      um(l) == [op |-> "unmarshal", lay |-> l, buf |-> Parts(l, ps)]
  IN [cfg |-> [parts |-> ps], ops |-> <<[op |-> "marshal"], [op |-> "round"], um(PlainPart), um(Lay(i, 200)), um(Lay(i, 300)), um(Lay(i, 400)), Fill(i, 500), Get(i, 600)>>]
Many(n) == [cfg |-> [parts |-> <<[seq |-> <<0, 0, 0, 1>>, tracks |-> <<[id |-> 1, base |-> Z(8), samples |-> [k \in 1 .. n |-> [dur |-> <<0, 0, 0, 1>>, off |-> 0, ns |-> FALSE, data |-> <<>>]]]>>]>>], ops |-> <<[op |-> "round"]>>]
ASSUME ndJsonSerialize(IOEnv.OUT, <<Many(19200), Many(19201)>>)
Total == IF "SMALL" \in DOMAIN IOEnv THEN 100 ELSE IF Deep THEN 8000 ELSE 700
One(i) == Case(i)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
