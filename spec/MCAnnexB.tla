------------------------------ MODULE MCAnnexB ------------------------------
(* An encoder that appends NAL units to a stream; decoding the stream gives *)
(* the units back, with 3 or 4 byte start codes.                            *)
EXTENDS AnnexB, TLC, IOUtils
Deep == IOEnv.TIER = "thorough"
B == {0, 1, 5}
Nal == {x \in UNION {[1 .. l -> B] : l \in 1 .. (IF Deep THEN 5 ELSE 4)} : FindSC(x, 1) = 0}
VARIABLES nalus, stream, short
Init == nalus = <<>> /\ stream = <<>> /\ short = FALSE
\* a unit may be introduced by the short start code unless the previous one
\* ends with zeros (then the zero would be ambiguous)
Next == /\ Len(nalus) < 2
        /\ \E n \in Nal, s \in BOOLEAN :
             /\ IF s /\ nalus # <<>> THEN Last(Last(nalus)) # 0 ELSE TRUE
             /\ nalus' = Append(nalus, n)
             /\ stream' = stream \o (IF s THEN <<0, 0, 1>> ELSE <<0, 0, 0, 1>>) \o n
             /\ short' = (short \/ s)
RoundTrip == nalus # <<>> => Decode(stream) = [nalus |-> nalus]
Canonical == ~short => stream = Encode(nalus)
=============================================================================
