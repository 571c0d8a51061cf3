------------------------------ MODULE TsRound -------------------------------
(***************************************************************************)
(* What is written with mpegts.Writer is what mpegts.Reader reads: the     *)
(* tracks, and of each track every unit, in order, with its timestamps.    *)
(* The state is the list of units in the stream.  Contents are tokens.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
S == INSTANCE TsSub

StartStates(cfg) == {[tracks |-> cfg.tracks, units |-> <<>>]}

HasDts(c) == c \in {"h264", "h265"}
View(t, k) ==
  [pid |-> 255 + k, codec |-> CASE t.codec \in {"klvs", "klva"} -> "klv" [] t.codec = "mpeg1v" -> "mpeg1v" [] OTHER -> t.codec, lang |-> t.lang,
   params |-> CASE t.codec = "opus" -> <<S!ConfigCount[t.chan], t.chan, 0, 0, 0, 0>>
                [] t.codec = "aac" -> <<t.type, t.rate, t.chan, t.count>>
                [] t.codec \in {"ac3", "eac3"} -> <<48000, 2>>
                [] t.codec = "klvs" -> <<1>> [] t.codec = "klva" -> <<0>>
                [] t.codec = "dvb" -> t.items
                [] OTHER -> <<>>]
\* an access unit delimiter at the beginning belongs to the container
Strip(t, e) == LET h == e.data[1][1] IN IF (t.codec = "h264" /\ h = "n9") \/ (t.codec = "h265" /\ h = "n70") THEN Tail(e.r.data) ELSE e.r.data
\* asynchronous KLV has no timestamp of its own: the one of the unit before is given
LastPts(units, k) == LET c == {j \in 1 .. k - 1 : units[j].pts # <<>>} IN IF c = {} THEN <<>> ELSE units[CHOOSE j \in c : \A x \in c : x <= j].pts
ReadAs(s, x) == LET q == SelectSeq(s.units, LAMBDA u : u.t = x) IN q

Outcomes(s, e) ==
  CASE e.op = "write" ->
         IF "data" \notin DOMAIN e.r THEN {}
         ELSE LET t == s.tracks[e.t]
                  u == [t |-> e.t, pid |-> 255 + e.t, pts |-> IF t.codec = "klva" THEN <<>> ELSE e.pts, dts |-> IF HasDts(t.codec) THEN e.dts ELSE <<>>, data |-> Strip(t, e)]
              IN {[st |-> [s EXCEPT !.units = Append(@, u)], res |-> e.r]}
    [] e.op = "read" ->
         LET r == e.r
             ev(k) == SelectSeq(r.ev, LAMBDA x : x.k = "cb" /\ x.pid = 255 + k)
             want(k) == SelectSeq(s.units, LAMBDA u : u.t = k)
             same(a, w, async) == a.dts = w.dts /\ a.data = w.data /\ (async \/ a.pts = w.pts)
         IN IF "tracks" \notin DOMAIN r THEN {}
            ELSE IF /\ r.end = "eof"
                    /\ r.tracks = [k \in 1 .. Len(s.tracks) |-> View(s.tracks[k], k)]
                    /\ \A j \in 1 .. Len(r.ev) : r.ev[j].k = "cb"
                    /\ \A k \in 1 .. Len(s.tracks) :
                         LET a == ev(k)
                             w == want(k)
                             async == s.tracks[k].codec = "klva"
                             \* those before the first timestamp are not delivered
                             m == Len(w) - Len(a)
                         IN /\ IF async THEN m >= 0 /\ \A j \in 1 .. Len(s.units) : s.units[j].pts # <<>> => (Len(SelectSeq(SubSeq(s.units, 1, j), LAMBDA u : u.t = k)) >= m)
                               ELSE m = 0
                            /\ \A j \in 1 .. Len(a) : same(a[j], w[j + m], async)
                    /\ Len(r.ev) = LET RECURSIVE Sum(_) Sum(k) == IF k = 0 THEN 0 ELSE Len(ev(k)) + Sum(k - 1) IN Sum(Len(s.tracks))
                 THEN {[st |-> s, res |-> r]} ELSE {}
=============================================================================
