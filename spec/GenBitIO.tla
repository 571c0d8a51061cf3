------------------------------ MODULE GenBitIO ------------------------------
(* Exhaustive cases: every alignment x width for each reader, and every     *)
(* Golomb code word of a small buffer.                                      *)
EXTENDS BitIO, TLC, Json, IOUtils
B10 == <<165, 0, 255, 60, 129, 126, 24, 231, 195, 90>>
Deep == IOEnv.TIER = "thorough"
ReadCases == {[cfg |-> [buf |-> B10, pos |-> p], ops |-> <<[op |-> o, n |-> n], [op |-> "has", n |-> k]>>] :
                p \in 0 .. (IF Deep THEN 80 ELSE 24), n \in 0 .. 64, o \in {"read", "readu"}, k \in {1}}
ZeroEnd == {[cfg |-> [buf |-> SubSeq(B10, 1, l), pos |-> 8 * l], ops |-> <<[op |-> o, n |-> n]>>] :
                l \in 0 .. 4, n \in 0 .. 2, o \in {"read", "has", "readu"}}
G(z) == \* zeros, then a one, then ones/zeros
  {[cfg |-> [buf |-> [i \in 1 .. 9 |-> IF (8 * i) <= z THEN 0
                       ELSE IF 8 * (i - 1) > z THEN f
                       ELSE (2 ^ (7 - (z - 8 * (i - 1)))) + (IF f = 0 THEN 0 ELSE (2 ^ (7 - (z - 8 * (i - 1)))) - 1)],
             pos |-> 0],
    ops |-> <<[op |-> o, n |-> 0], [op |-> "flag", n |-> 0]>>] : f \in {0, 255, 170}, o \in {"ue", "se"}}
Golombs == UNION {G(z) : z \in 0 .. 35}
Small == {[cfg |-> [buf |-> <<a \div 16, (a % 16) * 16>>, pos |-> p], ops |-> <<[op |-> o, n |-> 0]>>] :
             a \in 0 .. (IF Deep THEN 4095 ELSE 255), p \in {0, 3}, o \in {"ue", "se"}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(ReadCases) \o SetToSeq(ZeroEnd) \o SetToSeq(Golombs) \o SetToSeq(Small))
=============================================================================
