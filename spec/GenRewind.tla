----------------------------- MODULE GenRewind ------------------------------
(* every small source script x reads before and after the rewind *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Segs == Seqs({1, 2, 3}, IF Deep THEN 3 ELSE 2)
Reads == Seqs({1, 2, 4}, 2)
R(q) == [i \in 1 .. Len(q) |-> [op |-> "read", n |-> q[i]]]
Gen == {[cfg |-> [segs |-> s, witherr |-> w, final |-> f],
         ops |-> R(a) \o <<[op |-> "rewind", n |-> 0]>> \o R(b) \o <<[op |-> "drain", n |-> d]>>] :
          s \in Segs, w \in BOOLEAN, f \in {"eof"}, a \in Reads, b \in Reads, d \in {1, 3}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Gen))
=============================================================================
