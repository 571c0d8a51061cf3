----------------------------- MODULE GenTimeDec -----------------------------
(* every sequence of up to 4 timestamps over the corners of the clock *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Corners == {<<0, 0>>, <<0, 1>>, <<65535, 65535>>, <<65536, 0>>, <<65536, 1>>, <<131071, 65535>>, <<98304, 7>>}
N == IF IOEnv.TIER = "thorough" THEN 5 ELSE 4
Gen == {[cfg |-> [old |-> FALSE], ops |-> [i \in 1 .. N |-> [op |-> "ts", t |-> f[i]]]] : f \in [1 .. N -> Corners]}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Gen))
=============================================================================
