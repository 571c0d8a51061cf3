-------------------------------- MODULE Nalu --------------------------------
(***************************************************************************)
(* Removal of emulation prevention bytes (module Epb), and classification  *)
(* of access units as random access points.                                *)
(***************************************************************************)
EXTENDS Epb, FiniteSets

Bits(x, shift, n) == (x \div 2 ^ shift) % (2 ^ n)
Exists(au, P(_)) == \E i \in 1 .. Len(au) : Len(au[i]) > 0 /\ P(au[i][1])

H264RA(au) == Exists(au, LAMBDA h : Bits(h, 0, 5) = 5)                  \* IDR
H265RA(au) == Exists(au, LAMBDA h : Bits(h, 1, 6) \in {19, 20, 21})      \* IDR_W_RADL, IDR_N_LP, CRA
AV1RA(tu) == Exists(tu, LAMBDA h : Bits(h, 3, 4) = 1)                   \* sequence header
VP8RA(b) == Len(b) > 0 /\ b[1] % 2 = 0                                  \* key frame bit

StartStates(cfg) == {0}
Outcomes(s, e) ==
  {[st |-> s, res |->
     CASE e.op = "epb" -> [buf |-> RemoveEPB(e.buf)]
       [] e.op = "h264" -> [ra |-> H264RA(e.au)]
       [] e.op = "h265" -> [ra |-> H265RA(e.au)]
       [] e.op = "av1" -> [ra |-> AV1RA(e.au)]
       [] e.op = "av1first" ->
            IF Len(e.au) = 0 THEN [err |-> TRUE]
            ELSE IF Len(e.au[1]) = 0 THEN [err |-> TRUE]
            ELSE [ra |-> AV1RA(<<e.au[1]>>)]
       [] e.op = "vp8" -> [ra |-> VP8RA(e.buf)]]}
=============================================================================
