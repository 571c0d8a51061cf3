-------------------------------- MODULE Epb ---------------------------------
(* Emulation prevention of NAL units: ITU-T H.264 7.3.1 and 7.4.1 *)
EXTENDS Integers, Sequences, SequencesExt

\* the decoder of 7.3.1: 00 00 03 loses its last byte, scanning restarts after it.
\* Iterative: st = <<number of zeros just read (0..2), output>>
RemoveEPB(b) ==
  FoldLeft(LAMBDA st, x :
             IF st[1] = 2 /\ x = 3 THEN <<0, st[2]>>
             ELSE <<IF x = 0 THEN (IF st[1] < 2 THEN st[1] + 1 ELSE 2) ELSE 0, Append(st[2], x)>>,
           <<0, <<>>>>, b)[2]

\* the encoder of 7.4.1: after two zeros, a byte in 0..3 is preceded by 03;
\* a NAL unit does not end with a zero
AddEPB(b) ==
  LET r == FoldLeft(LAMBDA st, x :
             LET z == st[1] = 2 /\ x <= 3
                 o == IF z THEN <<3, x>> ELSE <<x>>
             IN <<IF x # 0 THEN 0 ELSE IF z THEN 1 ELSE st[1] + 1, st[2] \o o>>,
           <<0, <<>>>>, b)[2]
  IN r
=============================================================================
