------------------------------ MODULE MCRewind ------------------------------
(* Design: a recording reader over an arbitrary source (any chunking, any   *)
(* error), with a small recording limit.  The consumer sees, after the      *)
(* rewind, exactly the stream from its beginning.                           *)
EXTENDS Integers, Sequences
CONSTANTS Max, N
VARIABLES src, rec, mode, out, play
vars == <<src, rec, mode, out, play>>
Init == src = 0 /\ rec = <<>> /\ mode = "rec" /\ out = <<>> /\ play = <<>>
Bytes(a, b) == [i \in 1 .. b - a |-> a + i]
Record == \E k \in 0 .. N - src :
  /\ mode = "rec" /\ src' = src + k
  /\ IF src + k > Max
     THEN mode' = "broken" /\ UNCHANGED <<rec, out, play>>
     ELSE /\ rec' = Append(rec, Bytes(src, src + k))
          /\ out' = out \o Bytes(src, src + k)
          /\ UNCHANGED <<mode, play>>
Rewind == mode = "rec" /\ mode' = "play" /\ play' = rec /\ out' = <<>> /\ UNCHANGED <<src, rec>>
Replay == \E k \in 1 .. N :
  /\ mode = "play" /\ play # <<>>
  /\ LET h == Head(play) IN
     IF k < Len(h) THEN /\ out' = out \o SubSeq(h, 1, k)
                        /\ play' = <<SubSeq(h, k + 1, Len(h))>> \o Tail(play)
                   ELSE out' = out \o h /\ play' = Tail(play)
  /\ UNCHANGED <<src, rec, mode>>
Pass == \E k \in 0 .. N - src :
  /\ mode = "play" /\ play = <<>>
  /\ src' = src + k /\ out' = out \o Bytes(src, src + k)
  /\ UNCHANGED <<rec, mode, play>>
Next == (Len(rec) < 4 /\ Record) \/ Rewind \/ Replay \/ Pass
Exact == out = Bytes(0, Len(out))
NoLoss == mode = "play" /\ play = <<>> => Len(out) = src
Bounded == Len(out) <= N
=============================================================================
