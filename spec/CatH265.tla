------------------------------ MODULE CatH265 -------------------------------
EXTENDS GenH265Ps
VARIABLES ci
KC == IF Deep THEN 160 ELSE 40
Ent(i) ==
  LET full == Nal(IF i <= Len(Bases) THEN Bases[i] ELSE [PickOne(Vals, Bases, Singles, Order, Seed, ((Seed * 7919 + i * 3571 + i * i) % Len(Singles)) + 1) EXCEPT !.width = <<0, IF i % 2 = 0 THEN 1919 ELSE ((i * 37) % 700) + 16>>, !.height = <<0, IF i % 2 = 0 THEN 1079 ELSE ((i * 53) % 500) + 16>>])
      b == IF i % 11 = 10 THEN SubSeq(full, 1, Len(full) \div 2) ELSE full
      \* payload of the NAL unit: the general profile, tier and level begin with its second byte
      r == RemoveEPB(SubSeq(b, 3, Len(b)))
  IN With(LAMBDA d : IF d.odd THEN <<>>
                     ELSE IF ~d.ok THEN <<[kind |-> "h265", buf |-> b, ok |-> FALSE]>>
                     ELSE IF ~SizeDefined(d.v) THEN <<>>
                     ELSE IF (WidthOf(d.v) > 65535 \/ HeightOf(d.v) > 65535) THEN <<>>
                     ELSE IF N(d.v.depth_luma) > 7 \/ N(d.v.depth_chroma) > 7 THEN <<>>
                     ELSE <<[kind |-> "h265", buf |-> b, ok |-> TRUE, base |-> IF i <= Len(Bases) THEN i ELSE 0, w |-> WidthOf(d.v), h |-> HeightOf(d.v),
                             head |-> r[2], compat |-> SubSeq(r, 3, 6), constr |-> SubSeq(r, 7, 12), level |-> r[13],
                             chroma |-> N(d.v.chroma), dl |-> N(d.v.depth_luma), dc |-> N(d.v.depth_chroma)]>>, Parse(Sps, b, 33))
CInit == ci \in 1 .. KC /\ gi = 0 /\ gc = 0
CNext == FALSE /\ UNCHANGED <<ci, gi, gc>>
CInv == With(LAMBDA e : e = <<>> \/ PrintT("GEN " \o ToJson(e[1])), Ent(ci))
=============================================================================
