------------------------------ MODULE CatAac --------------------------------
EXTENDS GenM4Vals
VARIABLES ci
Singles == SinglesOf(CVals, CBases)
Order == OrderOf(CVals)
\* every way of giving the channels, then others
NC == Len(CC)
K == NC + (IF Deep THEN 160 ELSE 40)
Ent(i) ==
  LET v == AscOf(IF i <= NC THEN [C0 EXCEPT !.cc = CC[i]] ELSE IF i - NC <= Len(CBases) THEN CBases[i - NC] ELSE PickOne(CVals, CBases, Singles, Order, Seed, Len(Singles) + i - NC))
      w == IF WantedChan(v) = -1 THEN -1 ELSE 0
  IN IF w = -1 THEN <<>>
     ELSE With(LAMBDA b : With(LAMBDA d : IF d.odd \/ ~d.ok THEN <<>> ELSE <<[kind |-> "asc", v |-> v, buf |-> b, out |-> AscView(d.v)]>>,
               Dec(Asc, Begin(BitsOf(b)))), Bytes(Encode(Asc, AscVals(v))))
CInit == ci \in 1 .. K
CNext == FALSE /\ UNCHANGED ci
CInv == With(LAMBDA e : e = <<>> \/ PrintT("GEN " \o ToJson(e[1])), Ent(ci))
=============================================================================
