------------------------------ MODULE GenAnnexB ------------------------------
(* every byte string over {0, 1, 5} of bounded length, after no prefix or   *)
(* after a start code                                                       *)
EXTENDS AnnexB, TLC, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
S(n) == UNION {[1 .. l -> {0, 1, 5}] : l \in 0 .. n}
D(b) == [cfg |-> [x |-> 0], ops |-> <<[op |-> "dec", buf |-> b]>>]
Raw == {D(b) : b \in S(IF Deep THEN 8 ELSE 6)}
Pre == {D(<<0, 0, 1>> \o b) : b \in S(IF Deep THEN 9 ELSE 7)}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Raw \cup Pre))
=============================================================================
