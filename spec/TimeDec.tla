------------------------------- MODULE TimeDec ------------------------------
(***************************************************************************)
(* mpegts.TimeDecoder: unwraps a 33-bit clock.  Values are <<hi, lo>> with  *)
(* value hi * B + lo; the wire has Mod * B values.  Each timestamp is taken *)
(* as the closest one to its predecessor; the first one is time zero.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS B, Mod     \* 65536 and 2^17 for the real clock

Sub(a, b) == \* (a - b) mod (Mod * B)
  IF a[2] >= b[2] THEN <<(a[1] - b[1]) % Mod, a[2] - b[2]>>
  ELSE <<(a[1] - b[1] - 1) % Mod, a[2] - b[2] + B>>

Add(a, d) == LET l == a[2] + d[2] IN <<a[1] + d[1] + l \div B, l % B>>

AtLeastHalf(d) == d[1] >= Mod \div 2
ExactlyHalf(d) == d[1] = Mod \div 2 /\ d[2] = 0
Negative(d) == <<d[1] - Mod, d[2]>>

StartStates(cfg) == {[init |-> FALSE, prev |-> <<0, 0>>, overall |-> <<0, 0>>]}

Steps(s, t) ==
  LET d == IF s.init THEN Sub(t, s.prev) ELSE <<0, 0>>
      next(x) == [init |-> TRUE, prev |-> t, overall |-> Add(s.overall, x)]
  IN IF ExactlyHalf(d) THEN {next(d), next(Negative(d))}   \* a tie: both are closest
     ELSE IF AtLeastHalf(d) THEN {next(Negative(d))} ELSE {next(d)}

Outcomes(s, e) == {[st |-> n, res |-> [v |-> n.overall]] : n \in Steps(s, e.t)}
=============================================================================
