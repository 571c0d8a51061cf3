------------------------------ MODULE CatAv1 --------------------------------
EXTENDS GenVideoHdr
VARIABLES ci
KC == IF Deep THEN 160 ELSE 40
Ent(i) ==
  LET v == IF i <= Len(Bases) THEN Bases[i] ELSE PickOne(Vals, Bases, Singles, Order, Seed, ((Seed * 7919 + i * 3571 + i * i) % Len(Singles)) + 1)
      full == IF i % 4 = 3 THEN Sized(v) ELSE Obu(v)
      b == IF i % 11 = 10 THEN SubSeq(full, 1, Len(full) \div 2) ELSE full
  IN With(LAMBDA d : IF d.odd THEN <<>>
                     ELSE IF ~d.ok THEN <<[kind |-> "av1", buf |-> b, ok |-> FALSE]>>
                     ELSE With(LAMBDA w : <<[kind |-> "av1", buf |-> b, ok |-> TRUE, w |-> w.w % 65536, h |-> w.h % 65536, profile |-> w.profile, level |-> w.ops[1].lev,
                             tier |-> IF w.ops[1].tier THEN 1 ELSE 0, high |-> w.high, twelve |-> w.twelve, mono |-> w.mono, subx |-> w.sx, suby |-> w.sy, csp |-> w.csp]>>, SeqView(d.v)), ParseSeq(b))
CInit == ci \in 1 .. KC /\ gi = 0 /\ gc = 0
CNext == FALSE /\ UNCHANGED <<ci, gi, gc>>
CInv == With(LAMBDA e : e = <<>> \/ PrintT("GEN " \o ToJson(e[1])), Ent(ci))
=============================================================================
