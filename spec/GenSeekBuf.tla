----------------------------- MODULE GenSeekBuf -----------------------------
(* Every history of three operations of an alphabet (four, in the thorough  *)
(* tier), and long random ones.                                             *)
EXTENDS SeekBuf, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
Rnd(i, j) == LET a == (i * 7919 + j * 31337 + (Seed % 1000) * 4111 + 54321) % 32749 IN (((a * a + 7 * j + i) % 32719) * 61 + a) % 256
R(i, j, m) == (Rnd(i, j) * 65536 + Rnd(i, j + 5003) * 256 + Rnd(i, j + 10007)) % m
W(p) == [op |-> "write", p |-> p]
K(w, d) == [op |-> "seek", whence |-> w, off |-> d]
Alpha == <<W(<<1>>), W(<<2, 3, 4>>), W(<<>>), K("start", 0), K("start", 1), K("start", 4), K("start", -1), K("current", -1), K("current", 2), K("end", -2), K("end", 0), K("end", 1), K("end", -9), [op |-> "reset"]>>
N == Len(Alpha)
First == W(<<9, 8, 7>>)
Exact == IF Deep THEN N * N * N * N ELSE N * N * N
Digit(i, k) == Alpha[((i \div (N ^ k)) % N) + 1]
Long(i) == [k \in 1 .. 30 |->
  LET c == R(i, 10 * k, 12) IN
  CASE c < 5 -> W([m \in 1 .. R(i, 10 * k + 1, 9) |-> Rnd(i, 10 * k + 2 * m)])
    [] c < 7 -> K("start", R(i, 10 * k + 3, 60) - 3)
    [] c < 9 -> K("current", R(i, 10 * k + 4, 30) - 15)
    [] c < 11 -> K("end", R(i, 10 * k + 5, 40) - 30)
    [] OTHER -> IF R(i, 10 * k + 6, 4) = 0 THEN [op |-> "reset"] ELSE W(<<>>)]
\* x: every byte stands for so many
Scale(i) == IF i % 5 # 0 THEN 1 ELSE <<7, 64, 4096, 30000>>[((i \div 5) % 4) + 1]
One(i) == [cfg |-> [x |-> Scale(i)], ops |-> IF i <= Exact THEN <<First>> \o [k \in 1 .. (IF Deep THEN 4 ELSE 3) |-> Digit(i - 1, k - 1)] ELSE Long(i)]
Total == Exact + (IF Deep THEN 3000 ELSE 300)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
