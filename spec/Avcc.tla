-------------------------------- MODULE Avcc --------------------------------
(***************************************************************************)
(* h264.AVCC: NAL units prefixed by their 32 bit length (ISO 14496-15).    *)
(* Zero lengths are skipped; anything that does not add up to the exact    *)
(* size of the buffer is refused.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MaxNALUs == 50
MaxSize == 8 * 1024 * 1024

Fail == [err |-> TRUE]

\* length field as a number; everything above the maximum is the same
Len32(b, i) ==
  IF b[i] > 0 THEN MaxSize + 1
  ELSE b[i + 1] * 65536 + b[i + 2] * 256 + b[i + 3]

\* <<ok, nalus>> of the rest of the buffer
RECURSIVE Rest(_, _)
Rest(b, i) ==
  IF Len(b) - i + 1 < 4 THEN <<FALSE, <<>>>>
  ELSE LET l == Len32(b, i)
           e == i + 4 + l
           u == IF l > 0 THEN <<SubSeq(b, i + 4, e - 1)>> ELSE <<>>
       IN IF e - 1 > Len(b) THEN <<FALSE, <<>>>>
          ELSE IF e - 1 = Len(b) THEN <<TRUE, u>>
          ELSE LET r == Rest(b, e) IN <<r[1], u \o r[2]>>

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Sizes(s) == [i \in 1 .. Len(s) |-> Len(s[i])]
Accept(sizes) == Len(sizes) > 0 /\ Len(sizes) <= MaxNALUs /\ Sum(sizes) <= MaxSize

Decode(b) ==
  LET r == Rest(b, 1)
  IN IF r[1] /\ Accept(Sizes(r[2])) THEN [nalus |-> r[2]] ELSE Fail

Encode(nalus) ==
  FlattenSeq([i \in 1 .. Len(nalus) |->
    LET l == Len(nalus[i]) IN <<0, l \div 65536, (l \div 256) % 256, l % 256>> \o nalus[i]])

DecodeSizes(sizes) ==
  LET n == SelectSeq(sizes, LAMBDA x : x > 0)
  IN IF Accept(n) THEN [sizes |-> n] ELSE Fail

StartStates(cfg) == {0}
Outcomes(s, e) ==
  {[st |-> s, res |->
     CASE e.op = "dec" -> Decode(e.buf)
       [] e.op = "enc" -> [buf |-> Encode(e.nalus)]
       [] e.op = "big" -> DecodeSizes(e.sizes)
       [] e.op = "bigenc" -> \* sizes only: encoded length, and decoding gives the units back
            [len |-> Sum(e.sizes) + 4 * Len(e.sizes), dec |-> DecodeSizes(e.sizes)]]}
=============================================================================
