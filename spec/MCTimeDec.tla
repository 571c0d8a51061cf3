----------------------------- MODULE MCTimeDec ------------------------------
(* Design: a true clock of unbounded range whose steps are shorter than half *)
(* the modulus is recovered exactly from its wrapped values, in any history. *)
EXTENDS Integers, Sequences
B == 4
Mod == 4
W == B * Mod
TD == INSTANCE TimeDec
VARIABLES true, first, s
Wire(x) == LET y == x % W IN <<y \div B, y % B>>
Init == /\ true \in 0 .. W - 1 /\ first = true
        /\ s \in TD!Steps(CHOOSE x \in TD!StartStates(<<>>) : TRUE, Wire(true))
Next == \E d \in -(W \div 2 - 1) .. (W \div 2 - 1) :
          /\ true + d \in -40 .. 60
          /\ true' = true + d /\ s' \in TD!Steps(s, Wire(true + d)) /\ UNCHANGED first
Value(x) == x[1] * B + x[2]
Recovered == Value(s.overall) = true - first
FirstIsZero == true = first => Value(s.overall) = 0
=============================================================================
