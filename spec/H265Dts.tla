------------------------------- MODULE H265Dts ------------------------------
(***************************************************************************)
(* h265.DTSExtractor.  An access unit is abstracted to the parameter sets   *)
(* it carries (indices into cfg.sps / cfg.pps, 0 = none), the kind of the   *)
(* first relevant slice, its slice type, its short-term reference picture   *)
(* set (inline, or an index into the ones of the SPS), and the PTS.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)   \* b > 0

Fresh(cfg) == [cfg |-> cfg, sps |-> 0, pps |-> 0, filled |-> FALSE, prev |-> 0,
               random |-> FALSE, reord |-> 0, pause |-> 0]

StartStates(cfg) == {Fresh(cfg)}

Reorder(sp) == IF sp.sublayers = 1 THEN sp.reorder ELSE 0

NewSPS(s, i) ==
  IF i = 0 \/ i = s.sps THEN s
  ELSE LET n == Reorder(s.cfg.sps[i])
       IN [s EXCEPT !.sps = i, !.random = FALSE, !.reord = n, !.pause = n]

NewPPS(s, i) == IF i = 0 THEN s ELSE [s EXCEPT !.pps = i]

IsIDR(a) == a.slice \in {"idr_w", "idr_n"}
IsOther(a) == a.slice \in {"cra", "trail_n", "trail_r", "rasl_n", "rasl_r"}

Bad == [err |-> TRUE]
Diff(n) == [err |-> FALSE, n |-> n]

FromRPS(a, rps) ==
  IF a.stype = 0 \* B slice
  THEN CASE a.slice \in {"trail_n", "rasl_n"} -> Diff(-Len(rps.s1))
         [] a.slice \in {"trail_r", "rasl_r"} ->
              IF rps.s0 = <<>> THEN Bad ELSE Diff(-rps.s0[1] - 1 - Len(rps.s1))
         [] OTHER -> Diff(0)
  ELSE IF rps.s0 = <<>> THEN Bad ELSE Diff(-rps.s0[1] - 1)

\* A set predicted from another one (7-61, 7-62): every distance of the reference, and the reference itself (0), moved by
\* the distance d, unless its flag drops it (2).  flags: those of the negative distances of the reference, of the positive ones, and of 0.
Predicted(ref, x) ==
  LET d == IF x.neg THEN -(x.abs + 1) ELSE x.abs + 1
      n0 == Len(ref.s0)
      n1 == Len(ref.s1)
      kept(v, f) == IF x.flags[f] # 2 THEN <<v + d>> ELSE <<>>
      all == FoldLeft(LAMBDA a, l : a \o l, <<>>, [j \in 1 .. n0 + n1 + 1 |->
               IF j <= n0 THEN kept(ref.s0[n0 + 1 - j], n0 + 1 - j)
               ELSE IF j = n0 + 1 THEN kept(0, n0 + n1 + 1)
               ELSE kept(ref.s1[j - n0 - 1], j - 1)])
  IN [s0 |-> Reverse(SelectSeq(all, LAMBDA v : v < 0)), s1 |-> SelectSeq(all, LAMBDA v : v > 0)]
Inter(x) == "flags" \in DOMAIN x
\* the sets of an SPS; each can be predicted from the one before
Sets(sp) == FoldLeft(LAMBDA a, x : Append(a, IF Inter(x) THEN Predicted(a[Len(a)], x) ELSE x), <<>>, sp.rps)

PtsDtsDiff(s, a) ==
  LET sets == Sets(s.cfg.sps[s.sps]) IN
  IF a.cut \/ ~a.first THEN Bad
  ELSE IF a.rpsidx < 0 /\ ~Inter(a.rps) THEN FromRPS(a, a.rps)
  ELSE IF a.rpsidx < 0 THEN IF a.rps.didx >= Len(sets) THEN Bad ELSE FromRPS(a, Predicted(sets[Len(sets) - a.rps.didx], a.rps))
  ELSE IF Len(sets) <= 1 THEN Diff(0)
  ELSE IF a.rpsidx >= Len(sets) THEN Bad
  ELSE FromRPS(a, sets[a.rpsidx + 1])

StartGap(s, diff) == \* DTS of the very first access unit
  LET sp == s.cfg.sps[s.sps]
  IN IF sp.timing /\ sp.scale # 0 THEN (diff * 90000 * sp.units) \div sp.scale ELSE 9000

Fail(s) == [st |-> s, err |-> TRUE]
Dts(s, d) == [st |-> s, err |-> FALSE, dts |-> d]

Inner(s0, a) ==
  LET s == NewPPS(NewSPS(s0, a.sps), a.pps) IN
  IF a.bad # 0 THEN Fail(s) ELSE \* a further SPS or PPS cannot be decoded: refused, the previous one remains
  IF s.sps = 0 \/ s.pps = 0 THEN Fail(s)
  ELSE IF ~s.random /\ ~IsIDR(a) /\ a.slice # "cra" THEN Fail(s)
  ELSE LET r == [s EXCEPT !.random = TRUE]
           d == IF IsIDR(a) THEN Diff(0) ELSE IF IsOther(a) THEN PtsDtsDiff(r, a) ELSE Bad
       IN IF d.err THEN Fail(r)
          ELSE LET diff == d.n + r.reord IN
          IF diff < 0 THEN Fail(r)
          ELSE LET r2 == IF r.pause > 0 THEN [r EXCEPT !.pause = @ - 1] ELSE r IN
               IF ~r.filled THEN Dts(r2, a.pts - StartGap(r, diff))
               ELSE IF r.pause > 0 THEN Dts(r2, r.prev + 90)
               ELSE Dts(r2, r.prev + TruncDiv(a.pts - r.prev, diff + 1))

Step(s, a) ==
  LET i == Inner(s, a) IN
  IF i.err \/ i.dts > a.pts \/ (i.st.filled /\ i.dts < i.st.prev)
  THEN [st |-> i.st, res |-> [err |-> TRUE]]
  ELSE [st |-> [i.st EXCEPT !.filled = TRUE, !.prev = i.dts], res |-> [dts |-> i.dts]]

Outcomes(s, e) == {Step(s, e)}
=============================================================================
