----------------------------- MODULE MCH264Dts ------------------------------
(* Design checks of the extractor, on every history of bounded length over  *)
(* an alphabet of access units; and generation of one test per transition.  *)
EXTENDS H264Dts, TLC, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
SP == [high |-> FALSE, log2fn |-> 4, log2poc |-> 4, poctype |-> 0, fmo |-> TRUE]
Cfg == [sps |-> <<SP, [SP EXCEPT !.log2poc = 5]>>, base |-> <<0, 0, 0>>, old |-> FALSE]
AU(sps, slice, poc, pts) ==
  [op |-> "au", sps |-> sps, slice |-> slice, poc |-> poc, pts |-> pts, cut |-> FALSE,
   ref |-> slice # "none" \/ sps # 0, dress |-> 0]
AUs == {AU(0, "idr", p, t) : p \in {0, 1}, t \in {0, 9000}}
  \cup {AU(i, "idr", 0, t) : i \in {1, 2}, t \in {0, 6000}}
  \cup {AU(0, "non", p, t) : p \in {2, 3, 4, 8, 12, 15}, t \in {0, 50, 3000, 6000, 9000}}
  \cup {AU(0, "none", 0, t) : t \in {3000}}
VARIABLES s, last, hist
Init == s = Fresh(Cfg) /\ last = [dts |-> 0, kind |-> "start", pts |-> 0] /\ hist = <<>>
Depth == IF Deep THEN 7 ELSE 5
Next == \E a \in AUs :
  LET o == Step(s, a)
      h == Append(hist, a)
  IN /\ Len(hist) < Depth
     /\ s' = o.st
     /\ hist' = h
     /\ last' = IF "err" \in DOMAIN o.res THEN [dts |-> s.prev, kind |-> "err", pts |-> a.pts]
                ELSE [dts |-> o.res.dts, kind |-> IF Inner(s, a).skip THEN "pause" ELSE "ok", pts |-> a.pts]
     /\ IF Len(hist) < (IF Deep THEN 4 ELSE 4) /\ IOEnv.OUT # "" THEN PrintT("GEN " \o ToJson([cfg |-> Cfg, ops |-> h])) ELSE TRUE
View == <<s, last>>
NotAfterPts == last.kind = "ok" => last.dts <= last.pts
StateOK == /\ s.reord \in 0 .. MaxReordered
           /\ s.inc \in {1, 2, 4}
           /\ s.pause \in 0 .. MaxReordered
           /\ s.filled => s.sps # 0
Monotone == [][s.filled => s'.prev >= s.prev]_<<s, last, hist>>
Reset == [][s'.sps # s.sps => s'.reord = 0 /\ s'.pause = 0 /\ s'.aus <= 1]_<<s, last, hist>>
=============================================================================
