------------------------------- MODULE H264Dts ------------------------------
(***************************************************************************)
(* h264.DTSExtractor.  An access unit is abstracted to: which SPS it        *)
(* carries (index into cfg.sps, 0 = none), which slice comes first          *)
(* ("idr", "non", or "none"), the picture order count lsb of that slice,    *)
(* whether any NAL unit up to it is a reference (nal_ref_idc > 0), whether   *)
(* the slice header is cut short, and the PTS.                              *)
(* All timestamps are relative to an arbitrary base.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

MaxReordered == 10

TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)   \* b > 0

Fresh(cfg) ==
  [cfg |-> cfg, sps |-> 0, filled |-> FALSE, prev |-> 0, random |-> FALSE,
   exp |-> 0, reord |-> 0, pause |-> 0, aus |-> 0, inc |-> 2, p1 |-> 0, p2 |-> 0]

StartStates(cfg) == {Fresh(cfg)}

Err(s) == [st |-> s, err |-> TRUE]
Dts(s, d, skip) == [st |-> s, err |-> FALSE, dts |-> d, skip |-> skip]

\* a new SPS discards everything that was learned about the picture order
NewSPS(s, i) ==
  IF i = 0 \/ i = s.sps THEN s
  ELSE [s EXCEPT !.sps = i, !.random = FALSE, !.exp = 0, !.reord = 0, !.pause = 0,
                 !.aus = 0, !.inc = 2, !.p1 = 0, !.p2 = 0]

Range(s) == 2 ^ s.cfg.sps[s.sps].log2poc

PocDiff(a, b, max) == LET d == (a - b) % max IN IF d > max \div 2 THEN d - max ELSE d

IDR(s, poc) ==
  LET s1 == [s EXCEPT !.exp = poc]
  IN IF s1.inc # 2 THEN s1
     ELSE [s1 EXCEPT !.inc = IF poc % 2 # 0 THEN 1 ELSE 2, !.aus = 1, !.p2 = 0, !.p1 = poc]

\* guess, in the first pictures after an IDR, by how much the POC grows per picture
Learn(s, poc) ==
  IF ~(s.aus < 5 /\ s.inc = 2) THEN [st |-> s, err |-> FALSE]
  ELSE
    LET count(x) == [x EXCEPT !.aus = @ + 1, !.p2 = s.p1, !.p1 = poc] IN
    IF poc % 2 # 0
    THEN LET s1 == [s EXCEPT !.inc = 1, !.exp = @ \div 2] IN
         IF s.reord = 0 THEN [st |-> count(s1), err |-> FALSE]
         ELSE IF 2 * s.reord > MaxReordered THEN [st |-> s1, err |-> TRUE]
         ELSE [st |-> count([s1 EXCEPT !.reord = 2 * s.reord, !.pause = @ + s.reord]), err |-> FALSE]
    ELSE IF s.aus >= 2 /\ poc % 4 = 0 /\ poc = s.p1 + 4 /\ s.p1 = s.p2 + 4
    THEN [st |-> count([s EXCEPT !.inc = 4, !.exp = @ * 2]), err |-> FALSE]
    ELSE [st |-> count(s), err |-> FALSE]

Advance(s) == [s EXCEPT !.exp = (@ + s.inc) % Range(s)]

\* distance, in pictures, between decoding and presentation
Emit(s, diff0, pts) ==
  LET diff == diff0 + s.reord
      up == IF diff > 2 * s.reord + 1 THEN diff - (2 * s.reord + 1)
            ELSE IF diff < 0 THEN -diff ELSE 0
      s1 == [s EXCEPT !.reord = @ + up, !.pause = @ + up]
      diff1 == diff + up
  IN IF up # 0 /\ s.reord + up > MaxReordered THEN Err(s)
     ELSE IF s1.pause > 0
     THEN LET s2 == [s1 EXCEPT !.pause = @ - 1]
          IN IF ~s.filled THEN Dts(s2, pts, TRUE) ELSE Dts(s2, s.prev + 90, TRUE)
     ELSE IF ~s.filled THEN Dts(s1, pts, TRUE)
     ELSE Dts(s1, s.prev + TruncDiv(pts - s.prev, diff1 + 1), FALSE)

Inner(s0, a) ==
  LET s == NewSPS(s0, a.sps) IN
  IF "bad" \in DOMAIN a THEN Err(s) \* a further SPS cannot be decoded: refused, the previous one remains
  ELSE IF s.sps = 0 THEN Err(s)
  ELSE LET sp == s.cfg.sps[s.sps] IN
  IF sp.poctype = 2 \/ ~sp.fmo THEN Dts(s, a.pts, FALSE)
  ELSE IF sp.poctype = 1 THEN Err(s)
  ELSE IF ~s.random /\ a.slice # "idr" THEN Err(s)
  ELSE LET r == [s EXCEPT !.random = TRUE] IN
  CASE a.slice = "idr" ->
         IF a.cut THEN Err([r EXCEPT !.exp = 0]) ELSE Emit(IDR(r, a.poc), 0, a.pts)
    [] a.slice = "non" ->
         IF a.cut THEN Err(r)
         ELSE LET l == Learn(r, a.poc) IN
              IF l.err THEN Err(l.st)
              ELSE LET s3 == Advance(l.st)
                   IN Emit(s3, TruncDiv(PocDiff(a.poc, s3.exp, Range(s3)), s3.inc), a.pts)
    [] OTHER ->
         IF a.ref THEN Err(r)
         ELSE IF ~r.filled THEN Dts(r, a.pts, TRUE) ELSE Dts(r, r.prev, FALSE)

Step(s, a) ==
  LET i == Inner(s, a) IN
  IF i.err THEN [st |-> i.st, res |-> [err |-> TRUE]]
  ELSE IF ~i.skip /\ i.dts > a.pts THEN [st |-> i.st, res |-> [err |-> TRUE]]
  ELSE IF i.st.filled /\ i.dts < i.st.prev THEN [st |-> i.st, res |-> [err |-> TRUE]]
  ELSE [st |-> [i.st EXCEPT !.filled = TRUE, !.prev = i.dts], res |-> [dts |-> i.dts]]

Outcomes(s, e) == {Step(s, e)}
=============================================================================
