---------------------------- MODULE GenAv1Stream ----------------------------
EXTENDS Av1Stream, TLC, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
C(op) == [cfg |-> [x |-> 0], ops |-> <<op>>]
Hdr == {C([op |-> "obu", buf |-> <<h>>]) : h \in 0 .. 255} \cup {C([op |-> "obu", buf |-> <<>>])}
LebS == UNION {[1 .. l -> {0, 1, 127, 128, 255}] : l \in 0 .. (IF Deep THEN 6 ELSE 5)}
Long == {[i \in 1 .. l |-> IF i < l THEN IF i = k THEN 255 ELSE 128 ELSE x] : l \in 5 .. 9, k \in 0 .. 9, x \in {0, 1, 7, 15, 16, 127, 128}}
Leb == {C([op |-> "lebdec", buf |-> b]) : b \in LebS \cup Long}
P2 == {<<2 ^ (k - 16), 0>> : k \in 16 .. 31} \cup {<<0, 2 ^ k>> : k \in 0 .. 15} \cup
      {<<2 ^ (k - 16) - 1, 65535>> : k \in 16 .. 32} \cup {<<0, 2 ^ k - 1>> : k \in 0 .. 15}
Enc == {C([op |-> "lebenc", v |-> v]) : v \in P2}
One == {<<18>>, <<18, 0>>, <<10, 1, 7>>, <<10, 2, 7, 8>>, <<10, 129, 0, 7>>, <<50, 3, 1, 2, 3>>, <<16, 1>>, <<14, 1>>, <<138, 0>>}
Streams == {FlattenSeq(f) : f \in UNION {[1 .. n -> One] : n \in 0 .. 3}}
Cut(s) == {SubSeq(s, 1, k) : k \in 0 .. Len(s)}
Dec == {C([op |-> "dec", buf |-> b]) : b \in UNION {Cut(s) : s \in Streams}}
Ob == {<<16>>, <<8, 7>>, <<48, 1, 2, 3>>, <<18, 0>>, <<10, 1, 7>>, <<132>>, <<128, 1>>, <<>>}
EncS == {C([op |-> "enc", obus |-> f]) : f \in UNION {[1 .. n -> Ob] : n \in 0 .. 3}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Hdr) \o SetToSeq(Leb) \o SetToSeq(Enc) \o SetToSeq(Dec) \o SetToSeq(EncS))
=============================================================================
