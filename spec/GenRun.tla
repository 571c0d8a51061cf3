------------------------------- MODULE GenRun -------------------------------
(* Emits One(i) for i \in 1 .. Total, in parallel. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS One(_), Total
VARIABLES gi, gc
Blocks == 64
GInit == gi \in 0 .. Blocks - 1 /\ gc = 0
Idx == gi + gc * Blocks + 1
GNext == /\ Idx <= Total
         /\ PrintT("GEN " \o ToJson(One(Idx)))
         /\ gc' = gc + 1
         /\ gi' = gi
=============================================================================
