---------------------------- MODULE GenAudioHdr -----------------------------
(* Every header, or for long ones every value of every element. *)
EXTENDS AudioHdr, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
C(op, bs) == [cfg |-> [x |-> 0], ops |-> [k \in 1 .. Len(bs) |-> [op |-> op, buf |-> bs[k]]]]
B == 0 .. 255
\* one case has 256 headers, of consecutive values of one byte
Row(F(_)) == [k \in 1 .. 256 |-> F(k - 1)]
Ac3H(x, y) == <<11, 119, x, 255 - x, y, 8>>
Rnd(i, j) == LET a == (i * 7919 + j * 31337 + (Seed % 1000) * 4111 + 12345) % 32749 IN (((a * a + 7 * j + i) % 32719) * 61 + a) % 256
Cut(b) == [k \in 1 .. Len(b) + 1 |-> SubSeq(b, 1, k - 1)]
M0 == <<255, 251, 148, 100, 0>>
E0 == <<11, 119, 9, 255, 63, 135, 0, 0>>
Rows ==
  << [op |-> "ac3", n |-> 2], [op |-> "bsi", n |-> 89], [op |-> "mpa", n |-> 256], [op |-> "mpa2", n |-> 16],
     [op |-> "eac3", n |-> 40], [op |-> "eac3s", n |-> 16], [op |-> "eac3b", n |-> 4], [op |-> "eac3r", n |-> IF Deep THEN 2000 ELSE 100], [op |-> "opus", n |-> 66] >>
\* number of rows before row group k
RECURSIVE Before(_)
Before(k) == IF k = 0 THEN 0 ELSE Before(k - 1) + Rows[k].n
At1(g, i) ==
  CASE g.op = "ac3" -> C("ac3", Row(LAMBDA x : Ac3H(i, x)))
    [] g.op = "bsi" -> C("bsi", Row(LAMBDA x : <<IF i = 89 THEN 255 ELSE i - 1, x>>))
    [] g.op = "mpa" -> C("mpa", Row(LAMBDA x : <<255, (i - 1), x, (i * 37 + x * 11) % 256, 0>>))
    [] g.op = "mpa2" -> C("mpa", Row(LAMBDA x : <<255, 240 + i - 1, Rnd(i, x), x, 0>>))
    [] g.op = "eac3" -> C("eac3", Row(LAMBDA x : <<11, 119, Rnd(i, x), Rnd(i, x + 300), x, IF i <= 32 THEN 128 + (i % 8) ELSE 8 * (i - 20) + (i % 8), 0, 0>>))
    [] g.op = "eac3s" -> C("eac3", Row(LAMBDA x : IF i <= 8 THEN <<11, 119, x, 36 * i - 36, 63, 135, 0, 0>> ELSE <<11, 119, i * 13 + 20, x, 63, 135, 0, 0>>))
    [] g.op = "eac3b" -> C("eac3", Row(LAMBDA x : <<11, 119, 9, 255, <<63, 4, 130, 204>>[i], x, 0, 0>>))
    [] g.op = "eac3r" -> C("eac3", Row(LAMBDA x : <<11, 119, Rnd(i, x), Rnd(i, x + 300), Rnd(i, x + 600), 128 + (Rnd(i, x + 900) % 8), 0, 0>>))
    [] g.op = "opus" -> C("opus", Row(LAMBDA x : IF i = 66 THEN <<x>> ELSE IF i = 65 THEN <<x, 255, 1>> ELSE <<x, i - 1 + 64 * (i % 4), 7>>))
Total == Before(Len(Rows))
One(i) == LET k == CHOOSE k \in 1 .. Len(Rows) : Before(k - 1) < i /\ i <= Before(k) IN At1(Rows[k], i - Before(k - 1))
Extra == <<C("ac3", Cut(Ac3H(7, 30)) \o <<<<11, 118, 0, 0, 30>>, <<12, 119, 0, 0, 30>>, <<119, 11, 0, 0, 30>>>>), C("bsi", Cut(<<64, 235, 1>>)),
           C("eac3", Cut(E0) \o <<<<11, 118, 9, 255, 63, 135, 0, 0>>, <<10, 119, 9, 255, 63, 135, 0, 0>>>>),
           C("mpa", Cut(M0) \o <<<<254, 251, 148, 100, 0>>, <<127, 251, 148, 100, 0>>>>), C("opus", <<<<>>>>)>>
ASSUME ndJsonSerialize(IOEnv.OUT, Extra)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
