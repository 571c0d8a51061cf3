------------------------------ MODULE GenM4Cfg ------------------------------
EXTENDS GenM4Vals
C(op) == [cfg |-> [x |-> 0], ops |-> <<op>>]
Asc1(v) == C([op |-> "asc", buf |-> Bytes(Encode(Asc, v))])
AscE(x) == C([op |-> "asc_enc", v |-> AscOf(x)])
Smc1(x) == C([op |-> "smc", buf |-> Bytes(SmcBits(SmcOf(x)))])
SmcE(x) == C([op |-> "smc_enc", v |-> SmcOf(x)])

ASingles == SinglesOf(AVals, ABases)
AOrder == OrderOf(AVals)
CSingles == SinglesOf(CVals, CBases)
COrder == OrderOf(CVals)
SSingles == SinglesOf(SVals, SBases)
SOrder == OrderOf(SVals)
K == IF Deep THEN 3000 ELSE 300
N1 == Len(ASingles) + K
N2 == Len(CSingles) + K
N3 == Len(SSingles) + K
Total == N1 + N2 + 2 * N3
One(i) == IF i <= N1 THEN Asc1(PickOne(AVals, ABases, ASingles, AOrder, Seed, i))
          ELSE IF i <= N1 + N2 THEN AscE(PickOne(CVals, CBases, CSingles, COrder, Seed, i - N1))
          ELSE IF i <= N1 + N2 + N3 THEN Smc1(PickOne(SVals, SBases, SSingles, SOrder, Seed, i - N1 - N2))
          ELSE SmcE(PickOne(SVals, SBases, SSingles, SOrder, Seed, i - N1 - N2 - N3))

Cuts(b) == {SubSeq(b, 1, k) : k \in 0 .. Len(b)}
\* a configuration that ends inside the layers
AscOnly(a) == Bytes(<<0, 1>> \o ToBits(0, 6) \o ToBits(0, 4) \o ToBits(0, 3) \o Encode(Asc, AscVals(a)))
Smcs == [k \in 1 .. Len(SVals.progs) |-> Bytes(SmcBits(SmcOf([S0 EXCEPT !.progs = SVals.progs[k]])))]
Flips(b) == {[b EXCEPT ![k] = (@ + 2 ^ j) % 256] : k \in 1 .. Len(b), j \in {0, 3, 7}}
Extra == SetToSeq(
   {C([op |-> "asc", buf |-> x]) : x \in UNION {Cuts(Bytes(Encode(Asc, ABases[b]))) \cup {Bytes(Encode(Asc, ABases[b])) \o <<171, 205>>} : b \in 1 .. Len(ABases)}}
   \cup {C([op |-> "smc", buf |-> x]) : x \in UNION {Cuts(Smcs[b]) \cup {Smcs[b] \o <<0>>} \cup Flips(Smcs[b]) : b \in {1, 2, 4, 6, 10, 18, 20}}}
   \cup {C([op |-> "smc", buf |-> x]) : x \in UNION {Cuts(AscOnly(a)) : a \in {A1, A2, A3}}})
ASSUME ndJsonSerialize(IOEnv.OUT, Extra)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
