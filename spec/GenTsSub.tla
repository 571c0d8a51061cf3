------------------------------ MODULE GenTsSub ------------------------------
EXTENDS TsSub, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
Rnd(i, j) == LET a == (i * 7919 + j * 31337 + (Seed % 1000) * 4111 + 12345) % 32749 IN (((a * a + 7 * j + i) % 32719) * 61 + a) % 256
R(i, j, m) == (Rnd(i, j) * 65536 + Rnd(i, j + 50) * 256 + Rnd(i, j + 100)) % m
Rb(i, j, n) == [k \in 1 .. n |-> Rnd(i, j + 7 * k)]
Pick(i, j, S) == S[(Rnd(i, j) % Len(S)) + 1]
C(ops) == [cfg |-> [x |-> 0], ops |-> ops]
O(op, b) == [op |-> op, buf |-> b]
V(op, v) == [op |-> op, v |-> v]
Cuts(op, b) == [k \in 1 .. Len(b) + 1 |-> O(op, SubSeq(b, 1, k - 1))]
N(i, j) == Pick(i, j, <<0, 0, 1, 2, 3, 254, 255, 256, Rnd(i, j + 1)>>)
N8(i, j) == Pick(i, j, <<0, 0, 1, 2, 3, 5, 17, 255>>)
One0(x, c) == IF c THEN <<x>> ELSE <<>>
CellV(i) == [service |-> Rnd(i, 1), seq |-> Rnd(i, 2), frag |-> i % 4, cfg |-> (i \div 4) % 2 = 1, rai |-> (i \div 8) % 2 = 1, data |-> Rb(i, 3, Pick(i, 4, <<0, 1, 2, 255, 256, 700, Rnd(i, 5)>>))]
MdescV(i) ==
  LET a == i % 2 = 1 m == (i \div 2) % 2 = 1 f == Pick(i, 1, <<0, 1, 2, 3, 4, 7, 1, 3>>) d == Rnd(i, 2) % 2 = 1 IN
  [app |-> IF a THEN 65535 ELSE R(i, 3, 65535), appid |-> One0(<<R(i, 4, 65536), R(i, 5, 65536)>>, a), format |-> IF m THEN 255 ELSE Rnd(i, 6) % 255,
   formatid |-> One0(<<R(i, 7, 65536), R(i, 8, 65536)>>, m), service |-> Rnd(i, 9), flags |-> f, dsmcc |-> One0(Rb(i, 10, N8(i, 11)), d),
   config |-> One0(Rb(i, 12, N8(i, 13)), f = 1), ident |-> One0(Rb(i, 14, N8(i, 15)), f = 3), cfgservice |-> One0(<<Rnd(i, 16)>>, f = 4), private |-> Rb(i, 17, N8(i, 18))]
MstdV(i) == [in |-> Pick(i, 1, <<0, 1, 65535, 65536, 4194303, R(i, 2, 4194304)>>), buf |-> Pick(i, 3, <<0, 255, 256, 4194303, R(i, 4, 4194304)>>), out |-> R(i, 5, 4194304)]
AuV(i) == [start |-> One0(Pick(i, 1, <<0, 8191, R(i, 2, 8192)>>), i % 2 = 1), end |-> One0(Pick(i, 3, <<1, 4096, R(i, 4, 8192)>>), (i \div 2) % 2 = 1), ext |-> One0(N8(i, 5), (i \div 4) % 2 = 1),
           packet |-> Rb(i, 6, Pick(i, 7, <<0, 1, 254, 255, 256, 509, 510, 511, 765, Rnd(i, 8)>>))]
Codes == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 128, 130, 131, 132, 133, 134, 135, 136>>
Expl(i, n, fam) ==
  LET s == IF n = 1 THEN 1 ELSE (R(i, 1, n)) + 1
      c == Rnd(i, 2) % (IF s > 100 THEN 10 ELSE s + 1)
  IN [code |-> 129, count |-> n, family |-> fam, streams |-> IF fam = 0 THEN 0 ELSE s, coupled |-> IF fam = 0 THEN 0 ELSE c,
      map |-> IF fam = 0 THEN <<>> ELSE [k \in 1 .. n |-> Rnd(i, 3 + k) % (s + c + 1)]]
DescV(i) == IF i <= 17 THEN [code |-> Codes[i], count |-> 0, family |-> 0, streams |-> 0, coupled |-> 0, map |-> <<>>]
            ELSE IF i <= 20 THEN Expl(i, (i % 2) + 1, 0)
            ELSE Expl(i, IF i % 4 = 0 THEN 1 ELSE IF i % 4 = 1 THEN (Rnd(i, 1) % 8) + 1 ELSE IF i % 4 = 2 THEN Pick(i, 2, <<2, 4, 8, 15, 16, 17, 32, 33>>) ELSE (Rnd(i, 1) % 100) + 1,
                      Pick(i, 3, <<1, 2, 255>>))
B1(op, i) == CASE op = "cell" -> CellEnc(CellV(i)) [] op = "mdesc" -> MdescEnc(MdescV(i)) [] op = "mstd" -> MstdEnc(MstdV(i)) [] op = "opusau" -> OpusAUEnc(AuV(i)) [] op = "opusdesc" -> OpusDescEnc(DescV(i))
Kinds == <<"cell", "mdesc", "mstd", "opusau", "opusdesc">>
Val1(op, i) == CASE op = "cell" -> CellV(i) [] op = "mdesc" -> MdescV(i) [] op = "mstd" -> MstdV(i) [] op = "opusau" -> AuV(i) [] op = "opusdesc" -> DescV(i)
\* set the byte k
Set(b, k, v) == [b EXCEPT ![k] = v]
Case(op, i) ==
  LET b == B1(op, i)
      w == IF Len(b) > 30 /\ i % 5 # 0 THEN <<O(op, SubSeq(b, 1, Len(b) - 1))>> ELSE IF Len(b) > 100 THEN <<O(op, SubSeq(b, 1, Rnd(i, 9) % Len(b)))>> ELSE Cuts(op, b)
  IN C(<<V(op \o "_enc", Val1(op, i)), O(op, b), O(op, b \o Rb(i, 77, (i % 3) + 1)), O(op, Set(b, (Rnd(i, 5) % (IF Len(b) < 12 THEN Len(b) ELSE 12)) + 1, Rnd(i, 6)))>> \o w
       \o (IF op = "opusau" THEN <<V("opusau_bad", Val1(op, i))>> ELSE <<>>))
\* every first byte of the descriptors and headers
Rows(i) == C([k \in 1 .. 16 |-> O("opusdesc", <<16 * (i - 1) + k - 1>> \o Rb(i, k, i % 4))] \o [k \in 1 .. 16 |-> O("mdesc", <<0, 1, 2, 3, 16 * (i - 1) + k - 1, 1, 9, 9, 9>>)]
               \o [k \in 1 .. 16 |-> O("opusau", <<127, 16 * (i - 1) + k - 1, 2, 1, 2, 3, 4, 5, 6, 7>>)] \o [k \in 1 .. 16 |-> O("cell", <<1, 2, 16 * (i - 1) + k - 1, 0, 2, 7, 8>>)])
M == IF Deep THEN 1500 ELSE 120
Total == 16 + 5 * M
One(i) == IF i <= 16 THEN Rows(i) ELSE LET k == i - 17 IN Case(Kinds[(k % 5) + 1], (k \div 5) + 1)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
