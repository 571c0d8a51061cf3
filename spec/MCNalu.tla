------------------------------- MODULE MCNalu -------------------------------
(* An encoder that writes a payload byte by byte with emulation prevention: *)
(* the coded unit never contains a start code and decodes to the payload.   *)
EXTENDS Nalu, TLC, IOUtils
VARIABLES pay, coded, z
Init == pay = <<>> /\ coded = <<>> /\ z = 0
Next == /\ Len(pay) < (IF IOEnv.TIER = "thorough" THEN 9 ELSE 7)
        /\ \E x \in 0 .. 4 :
             LET e == z = 2 /\ x <= 3 IN
             /\ pay' = Append(pay, x)
             /\ coded' = coded \o (IF e THEN <<3, x>> ELSE <<x>>)
             /\ z' = IF x # 0 THEN 0 ELSE IF e THEN 1 ELSE z + 1
Same == coded = AddEPB(pay)
NoStartCode == \A i \in 1 .. Len(coded) - 2 : ~(coded[i] = 0 /\ coded[i + 1] = 0 /\ coded[i + 2] \in {0, 1, 2})
RoundTrip == RemoveEPB(coded) = pay
=============================================================================
