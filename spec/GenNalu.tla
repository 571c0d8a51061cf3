------------------------------- MODULE GenNalu -------------------------------
EXTENDS Nalu, TLC, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
C(ops) == [cfg |-> [x |-> 0], ops |-> ops]
S(n) == UNION {[1 .. l -> {0, 1, 3}] : l \in 0 .. n}
Epb == {C(<<[op |-> "epb", buf |-> b]>>) : b \in S(IF Deep THEN 9 ELSE 8)}
Dec == {C(<<[op |-> "epb", buf |-> AddEPB(b)]>>) : b \in UNION {[1 .. l -> 0 .. 4] : l \in 0 .. (IF Deep THEN 6 ELSE 4)}}
RA == {C(<<[op |-> o, au |-> <<<<h, 0>>>>]>>) : h \in 0 .. 255, o \in {"h264", "h265", "av1", "av1first"}}
RA2 == {C(<<[op |-> o, au |-> <<<<g>>, <<h, 0>>>>]>>) : g \in {5, 38, 10, 1, 2}, h \in 0 .. 255, o \in {"h264", "h265", "av1", "av1first"}}
V == {C(<<[op |-> "vp8", buf |-> b]>>) : b \in {<<>>} \cup {<<h>> : h \in 0 .. 255} \cup {<<h, 1>> : h \in 0 .. 255}}
E == {C(<<[op |-> o, au |-> a]>>) : o \in {"h264", "h265", "av1", "av1first"}, a \in {<<>>, <<<<>>>>, <<<<>>, <<5>>>>, <<<<38>>, <<>>>>}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Epb) \o SetToSeq(Dec) \o SetToSeq(RA) \o SetToSeq(RA2) \o SetToSeq(V) \o SetToSeq(E))
=============================================================================
