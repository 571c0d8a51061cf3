------------------------------- MODULE MCAvcc -------------------------------
EXTENDS Avcc, TLC, IOUtils
Deep == IOEnv.TIER = "thorough"
Nal == UNION {[1 .. l -> {0, 1, 5}] : l \in 1 .. (IF Deep THEN 5 ELSE 4)}
VARIABLES nalus, stream, cut
Init == nalus = <<>> /\ stream = <<>> /\ cut = FALSE
Next == \/ /\ Len(nalus) < 2 /\ ~cut
           /\ \E n \in Nal : nalus' = Append(nalus, n) /\ stream' = stream \o Encode(<<n>>)
           /\ UNCHANGED cut
        \/ /\ ~cut /\ Len(stream) > 0
           /\ cut' = TRUE
           /\ stream' = SubSeq(stream, 1, Len(stream) - 1)
           /\ UNCHANGED nalus
RoundTrip == nalus # <<>> /\ ~cut => Decode(stream) = [nalus |-> nalus]
Truncated == cut => Decode(stream) = Fail
Canonical == ~cut => stream = Encode(nalus)
=============================================================================
