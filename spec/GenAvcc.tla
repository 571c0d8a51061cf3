------------------------------- MODULE GenAvcc -------------------------------
(* every string of up to four length fields (0..3 bytes), with a tail that   *)
(* is exact, too short or too long                                          *)
EXTENDS Avcc, TLC, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Body(l) == [i \in 1 .. l |-> 9 + i]
Unit(l) == <<0, 0, 0, l>> \o Body(l)
Ls == UNION {[1 .. k -> 0 .. 3] : k \in 0 .. (IF Deep THEN 5 ELSE 4)}
Stream(ls) == FlattenSeq([i \in 1 .. Len(ls) |-> Unit(ls[i])])
Tails == {<<>>, <<0>>, <<0, 0>>, <<0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 5, 1, 2>>, <<1, 0, 0, 0>>,
          <<128, 0, 0, 1, 5>>, <<255, 255, 255, 255>>, <<0, 1, 0, 0, 1>>, <<0, 0, 1, 0>>}
D(b) == [cfg |-> [x |-> 0], ops |-> <<[op |-> "dec", buf |-> b]>>]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({D(Stream(ls) \o t) : ls \in Ls, t \in Tails}))
=============================================================================
