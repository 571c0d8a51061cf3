------------------------------ MODULE MCBitIO -------------------------------
(* Design check: whatever sequence of fields is written into a zeroed       *)
(* buffer, reading the same widths back yields the values written; the      *)
(* Golomb decoder inverts the Golomb encoder.                               *)
EXTENDS BitIO, IOUtils
MaxBits == IF IOEnv.TIER = "thorough" THEN 10 ELSE 8
MaxWidth == 9
VARIABLES buf, pos, log
Init == buf = [i \in 1 .. (MaxBits + 7) \div 8 |-> 0] /\ pos = 0 /\ log = <<>>
Write(n, v) ==
  /\ pos + n <= MaxBits
  /\ buf' = WriteBits(buf, pos, ToBits(v, n))
  /\ pos' = pos + n
  /\ log' = Append(log, <<pos, n, v>>)
Next == \E n \in 1 .. MaxWidth : \E v \in {0, 1, 2 ^ (n - 1), 2 ^ n - 1} : v < 2 ^ n /\ Write(n, v)
ReadBack == \A k \in 1 .. Len(log) : U(buf, log[k][1], log[k][2]) = log[k][3]
CursorOK == pos = FoldLeft(LAMBDA a, x : a + x[2], 0, log)
TypeOK == \A i \in 1 .. Len(buf) : buf[i] \in 0 .. 255
(* Golomb *)
Enc(v) == LET w == Len(ToBits(v + 1, 20)) - (CHOOSE i \in 0 .. 19 : ToBits(v + 1, 20)[i + 1] = 1
                        /\ \A j \in 1 .. i : ToBits(v + 1, 20)[j] = 0)
          IN [i \in 1 .. w - 1 |-> 0] \o ToBits(v + 1, w)
Packed(bs) == WriteBits([i \in 1 .. 6 |-> 0], 3, bs)
ASSUME \A v \in 0 .. 300 : /\ GolombValid(Packed(Enc(v)), 3)
                           /\ Val(GolombBits(Packed(Enc(v)), 3)) = v
                           /\ GolombLen(Packed(Enc(v)), 3) = Len(Enc(v))
                           /\ LET g == GolombSigned(Packed(Enc(v)), 3)
                              IN (IF g.neg THEN -1 ELSE 1) * Val(g.mag)
                                   = (IF v % 2 = 1 THEN (v + 1) \div 2 ELSE -(v \div 2))
=============================================================================
