----------------------------- MODULE MCH265Dts ------------------------------
EXTENDS H265Dts, TLC, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
SP == [sublayers |-> 1, reorder |-> 1, log2poc |-> 4, planes |-> FALSE, timing |-> TRUE, units |-> 1, scale |-> 30,
       rps |-> <<[s0 |-> <<-1>>, s1 |-> <<>>], [s0 |-> <<-2>>, s1 |-> <<>>], [s0 |-> <<-1>>, s1 |-> <<1>>]>>]
Cfg == [sps |-> <<SP, [SP EXCEPT !.reorder = 0, !.timing = FALSE]>>,
        pps |-> <<[output |-> FALSE, extra |-> 0], [output |-> TRUE, extra |-> 2]>>,
        base |-> <<0, 0, 0>>, old |-> FALSE]
AU(sps, pps, slice, st, idx, pts) ==
  [op |-> "au", sps |-> sps, pps |-> pps, slice |-> slice, stype |-> st, pts |-> pts, cut |-> FALSE, first |-> TRUE,
   rpsidx |-> idx, rps |-> [s0 |-> <<>>, s1 |-> <<>>], dress |-> 0, bad |-> 0]
AUs == {AU(i, j, k, 2, 0, t) : i \in 0 .. 2, j \in 0 .. 1, k \in {"idr_w"}, t \in {0, 3000}}
  \cup {AU(1, 2, "cra", 2, 0, t) : t \in {0, 6000}}
  \cup {AU(0, 0, k, 1, i, t) : k \in {"trail_r"}, i \in {0, 1}, t \in {3000, 6000, 9000}}
  \cup {AU(0, 0, k, 0, 2, t) : k \in {"trail_n", "trail_r", "rasl_r"}, t \in {100, 3000, 6000}}
  \cup {AU(0, 0, "none", 0, 0, 3000), AU(0, 0, "trail_n", 1, 3, 3000)}
VARIABLES s, last, hist
Init == s = Fresh(Cfg) /\ last = [kind |-> "start", dts |-> 0, pts |-> 0] /\ hist = <<>>
Next == \E a \in AUs :
  LET o == Step(s, a)
      h == Append(hist, a)
  IN /\ Len(hist) < (IF Deep THEN 7 ELSE 5)
     /\ s' = o.st /\ hist' = h
     /\ last' = IF "err" \in DOMAIN o.res THEN [kind |-> "err", dts |-> s.prev, pts |-> a.pts]
                ELSE [kind |-> "ok", dts |-> o.res.dts, pts |-> a.pts]
     /\ IF Len(hist) < 4 /\ IOEnv.OUT # "" THEN PrintT("GEN " \o ToJson([cfg |-> Cfg, ops |-> h])) ELSE TRUE
View == <<s, last>>
NotAfterPts == last.kind = "ok" => last.dts <= last.pts
StateOK == s.pause <= s.reord /\ s.pause >= 0 /\ (s.filled => s.sps # 0 /\ s.pps # 0)
Monotone == [][s.filled => s'.prev >= s.prev]_<<s, last, hist>>
NothingBeforeRandom == [][(s'.filled /\ ~s.filled) => s'.random]_<<s, last, hist>>
=============================================================================
