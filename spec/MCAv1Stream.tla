---------------------------- MODULE MCAv1Stream -----------------------------
(* OBUs are appended to a stream, with sizes in any valid LEB128 padding;   *)
(* decoding gives them back.  Truncation is always detected.                *)
EXTENDS Av1Stream, TLC, IOUtils
Deep == IOEnv.TIER = "thorough"
OBU == {<<8 * t + r>> \o p : t \in {1, 2, 15}, r \in {0, 1}, p \in UNION {[1 .. l -> {0, 18, 128}] : l \in 0 .. (IF Deep THEN 3 ELSE 2)}}
VARIABLES us, stream, min
Init == us = <<>> /\ stream = <<>> /\ min = TRUE
Pad(l, k) == IF k = 0 THEN <<l>> ELSE <<l + 128>> \o [i \in 1 .. k - 1 |-> 128] \o <<0>>
Next == /\ Len(us) < 2
        /\ \E u \in OBU, k \in {0, 1, 7} :
             /\ us' = Append(us, u)
             /\ stream' = stream \o <<u[1] + 2>> \o Pad(Len(u) - 1, k) \o Tail(u)
             /\ min' = (min /\ k = 0)
RoundTrip == us # <<>> => Decode(stream) = [obus |-> us]
Canonical == min => Encode(us) = [buf |-> stream]
LastStart == Len(stream) - (Len(EncodeOne(us[Len(us)])) - 1)
Truncated == us # <<>> /\ min => \A n \in LastStart .. Len(stream) - 1 : Decode(SubSeq(stream, 1, n)) = Fail
Leb == \A v \in {<<0, 0>>, <<0, 127>>, <<0, 128>>, <<0, 16383>>, <<0, 16384>>, <<31, 65535>>, <<32, 0>>,
                 <<4095, 65535>>, <<4096, 0>>, <<65535, 65535>>} :
         LebDecode(LebEncode(v)) = [v |-> v, n |-> Len(LebEncode(v))]
ASSUME Leb
=============================================================================
