------------------------------ MODULE CatH264 -------------------------------
(* SPSs, and what they say, for the specifications of the containers *)
EXTENDS GenH264Sps
VARIABLES ci
KC == IF Deep THEN 160 ELSE 40
\* the high profile fields that matter here, and sizes that a 16-bit field holds
Ent(i) ==
  LET full == Nal(IF i <= Len(Bases) THEN Bases[i] ELSE [PickOne(Vals, Bases, Singles, Order, Seed, ((Seed * 7919 + i * 3571 + i * i) % Len(Singles)) + 1) EXCEPT !.width = <<0, (i * 37) % 700>>, !.height = <<0, (i * 53) % 500>>])
      b == IF i % 11 = 10 THEN SubSeq(full, 1, Len(full) \div 2) ELSE full
  IN With(LAMBDA d : IF d.odd THEN <<>>
                     ELSE IF ~d.ok THEN <<[kind |-> "h264", buf |-> b, ok |-> FALSE]>>
                     ELSE IF ~SizeDefined(d.v) THEN <<>>
                     ELSE IF (WidthOf(d.v) > 65535 \/ HeightOf(d.v) > 65535) THEN <<>>
                     ELSE <<[kind |-> "h264", buf |-> b, ok |-> TRUE, w |-> WidthOf(d.v), h |-> HeightOf(d.v), p3 |-> SubSeq(RemoveEPB(SubSeq(b, 2, Len(b))), 1, 3)]>>, Parse(b))
CInit == ci \in 1 .. KC /\ gi = 0 /\ gc = 0
CNext == FALSE /\ UNCHANGED <<ci, gi, gc>>
CInv == With(LAMBDA e : e = <<>> \/ PrintT("GEN " \o ToJson(e[1])), Ent(ci))
=============================================================================
