------------------------------- MODULE GenG711 -------------------------------
(* Every sample and every code. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Row(i) == [k \in 1 .. 512 |-> IF k % 2 = 1 THEN i ELSE (k \div 2) - 1]
O(op, b) == [op |-> op, buf |-> b]
C(ops) == [cfg |-> [x |-> 0], ops |-> ops]
Codes(r) == [k \in 1 .. 256 |-> (k * r) % 256]
Total == 260
One(i) == IF i <= 256 THEN C(<<O("alaw_enc", Row(i - 1)), O("mulaw_enc", Row(i - 1))>>)
          ELSE IF i < 260 THEN C(<<O("alaw", Codes(2 * i + 1)), O("mulaw", Codes(2 * i + 1))>>)
          ELSE C(<<O("alaw", <<>>), O("mulaw", <<>>), O("alaw_enc", <<>>), O("mulaw_enc", <<>>), O("alaw_enc", <<1>>), O("mulaw_enc", <<1, 2, 3>>)>>)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
