------------------------------- MODULE AnnexB -------------------------------
(***************************************************************************)
(* h264.AnnexB: access units as byte streams of NAL units separated by     *)
(* start codes (ITU-T H.264 Annex B).                                      *)
(*                                                                         *)
(* The stream begins with a start code, 00 00 01 or 00 00 00 01.  After    *)
(* that, a NAL unit ends where the next 00 00 01 begins; one zero byte in  *)
(* front of it belongs to the start code.  Empty NAL units are dropped.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MaxNALUs == 50
MaxSize == 8 * 1024 * 1024

Fail == [err |-> TRUE]

IsSC3(b, i) == i + 2 <= Len(b) /\ b[i] = 0 /\ b[i + 1] = 0 /\ b[i + 2] = 1
InitialLen(b) ==
  IF Len(b) >= 4 /\ b[1] = 0 /\ IsSC3(b, 2) THEN 4
  ELSE IF IsSC3(b, 1) THEN 3 ELSE 0

\* first start code at or after position i, 0 when there is none
RECURSIVE FindSC(_, _)
FindSC(b, i) == IF i + 2 > Len(b) THEN 0 ELSE IF IsSC3(b, i) THEN i ELSE FindSC(b, i + 1)

RECURSIVE Split(_, _)
Split(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET k == FindSC(b, i) IN
       IF k = 0 THEN <<SubSeq(b, i, Len(b))>>
       ELSE LET e == IF k > i /\ b[k - 1] = 0 THEN k - 2 ELSE k - 1
            IN <<SubSeq(b, i, e)>> \o Split(b, k + 3)

NonEmpty(s) == SelectSeq(s, LAMBDA x : Len(x) > 0)
Sizes(s) == [i \in 1 .. Len(s) |-> Len(s[i])]
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

Accept(sizes) == Len(sizes) > 0 /\ Len(sizes) <= MaxNALUs /\ Sum(sizes) <= MaxSize

Decode(b) ==
  LET p == InitialLen(b)
      n == NonEmpty(Split(b, p + 1))
  IN IF p = 0 \/ ~Accept(Sizes(n)) THEN Fail ELSE [nalus |-> n]

Encode(nalus) == FlattenSeq([i \in 1 .. Len(nalus) |-> <<0, 0, 0, 1>> \o nalus[i]])

\* streams of zero-free NAL units of the given sizes, for the size limits
DecodeSizes(sizes) ==
  LET n == SelectSeq(sizes, LAMBDA x : x > 0)
  IN IF Accept(n) THEN [sizes |-> n] ELSE Fail

StartStates(cfg) == {0}
Outcomes(s, e) ==
  {[st |-> s, res |->
     CASE e.op = "dec" -> Decode(e.buf)
       [] e.op = "enc" -> [buf |-> Encode(e.nalus)]
       [] e.op = "big" -> DecodeSizes(e.sizes)]}
=============================================================================
