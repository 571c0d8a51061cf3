----------------------------- MODULE GenM4Frame -----------------------------
EXTENDS GenM4Vals
C(op) == [cfg |-> [x |-> 0], ops |-> <<op>>]
\* decode with the given configuration, or without
AmeD(a, b) == C([op |-> "ame", buf |-> b, present |-> a.present, given |-> IF a.present /\ ~a.same THEN <<>> ELSE a.given])
ESingles == SinglesOf(EVals, EBases)
EOrder == OrderOf(EVals)
N1 == Len(ESingles) + (IF Deep THEN 1500 ELSE 120)
Total == 2 * N1
One(i) == IF i <= N1 THEN With(LAMBDA a : AmeD(a, Bytes(AmeBits(a))), AmeOf(PickOne(EVals, EBases, ESingles, EOrder, Seed, i)))
          ELSE With(LAMBDA a : C(a @@ ("op" :> "ame_enc")), AmeOf(PickOne(EVals, EBases, ESingles, EOrder, Seed, i - N1)))
Cuts(b) == {SubSeq(b, 1, k) : k \in 0 .. Len(b)}
Base(x) == With(LAMBDA a : {AmeD(a, y) : y \in LET b == Bytes(AmeBits(a)) IN Cuts(b) \cup {b \o <<0>>, b \o <<1, 2>>}}, AmeOf(x))
Odd == {[present |-> p, same |-> FALSE, given |-> <<SmcOf([S0 EXCEPT !.progs = ProgsB[k], !.other = o])>>,
         data |-> <<[q \in 1 .. Len(ProgsB[k]) |-> [j \in 1 .. Len(ProgsB[k][q]) |-> <<1, 2>>]]>>] :
           p \in BOOLEAN, k \in 1 .. Len(ProgsB), o \in BOOLEAN}
Extra == SetToSeq(UNION {Base(EBases[b]) : b \in 1 .. Len(EBases)} \cup {AmeD(a, Bytes(AmeBits(a))) : a \in Odd}
   \cup {C([op |-> "ame", buf |-> b, present |-> p, given |-> <<>>]) : p \in BOOLEAN, b \in {<<>>, <<0>>, <<128>>, <<255, 0>>}})
ASSUME ndJsonSerialize(IOEnv.OUT, Extra)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
