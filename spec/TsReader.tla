------------------------------ MODULE TsReader ------------------------------
(***************************************************************************)
(* mpegts.Reader on top of the demultiplexer: tracks out of the first      *)
(* program map (and of the first unit of AAC, AC-3 and E-AC-3 tracks),     *)
(* then every unit of a declared track, decoded, in order.                 *)
(***************************************************************************)
EXTENDS Ts

\* ---- descriptors of a track
Has(es, t) == SelectSeq(es.desc, LAMBDA d : d[1] = t /\ d[2] # <<>>)
Lang(es) == LET l == SelectSeq(Has(es, 10), LAMBDA d : Len(d[2]) >= 4) IN IF l = <<>> THEN <<>> ELSE SubSeq(l[1][2], 1, 3)
\* a registration of zero does not count
RegId(es) == LET l == SelectSeq(Has(es, 5), LAMBDA d : SubSeq(d[2], 1, 4) # <<0, 0, 0, 0>>) IN IF Len(l) = 1 THEN SubSeq(l[1][2], 1, 4) ELSE <<>>
OpusId == <<79, 112, 117, 115>>
Klva == <<75, 76, 86, 65>>
OpusExt(es) == SelectSeq(Has(es, 127), LAMBDA d : d[2][1] = 128)
KlvDescs(es) == SelectSeq(Has(es, 38), LAMBDA d : LET m == S!Mdesc(d[2]) IN "err" \notin DOMAIN m /\ m.formatid = <<<<75 * 256 + 76, 86 * 256 + 65>>>>)

NextPes(ev, from, pid) == LET c == {k \in from .. Len(ev) : ev[k].k = "PES" /\ ev[k].pid = pid} IN IF c = {} THEN 0 ELSE CHOOSE k \in c : \A j \in c : k <= j

Trk(es, codec, params) == [t |-> [pid |-> es.pid, codec |-> codec, lang |-> Lang(es), params |-> params]]
Fail == [fail |-> "err"]
\* a track of which the first unit that follows the program map (event `next` on) is needed
Probe(es, ev, next) ==
  LET k == NextPes(ev, next, es.pid)
      d == ev[k].data
  IN IF k = 0 THEN [fail |-> "end"]
     ELSE CASE es.type = 15 -> LET a == M!Adts(d, <<>>) IN IF "err" \in DOMAIN a THEN Fail
                                 ELSE LET p == a.pkts[1] IN Trk(es, "aac", <<p.type, p.rate, p.chan, p.count>>)
            [] es.type = 129 -> LET a == A!Ac3(d) IN IF "err" \in DOMAIN a THEN Fail
                                 ELSE LET s == A!Bsi(SubSeq(d, 6, Len(d))) IN IF "err" \in DOMAIN s THEN Fail ELSE Trk(es, "ac3", <<a.rate, s.channels>>)
            [] es.type = 135 -> LET a == A!Eac3(d) IN IF Len(d) < 6 \/ "err" \in DOMAIN a THEN Fail ELSE Trk(es, "eac3", <<a.rate, a.channels>>)

Track(es, ev, next) ==
  CASE es.type = 36 -> Trk(es, "h265", <<>>)
    [] es.type = 27 -> Trk(es, "h264", <<>>)
    [] es.type = 16 -> Trk(es, "mpeg4v", <<>>)
    [] es.type \in {1, 2} -> Trk(es, "mpeg1v", <<>>)
    [] es.type \in {15, 129, 135} -> Probe(es, ev, next)
    [] es.type = 17 -> Trk(es, "latm", <<>>)
    [] es.type = 3 -> Trk(es, "mp1a", <<>>)
    [] es.type = 6 /\ RegId(es) = OpusId ->
         IF OpusExt(es) = <<>> THEN Fail
         ELSE LET d == S!OpusDesc(SubSeq(OpusExt(es)[1][2], 2, Len(OpusExt(es)[1][2]))) IN
              IF "err" \in DOMAIN d THEN Fail ELSE Trk(es, "opus", <<d.channels, d.code, d.count, d.family, d.streams, d.coupled>> \o d.map)
    [] es.type = 6 /\ RegId(es) = Klva -> Trk(es, "klv", <<0>>)
    [] es.type = 6 /\ RegId(es) = <<>> /\ Has(es, 89) # <<>> -> Trk(es, "dvb", Has(es, 89)[1][2])
    [] es.type = 21 /\ Len(KlvDescs(es)) = 1 -> Trk(es, "klv", <<1>>)
    [] OTHER -> Trk(es, "unsupported", <<>>)

RECURSIVE Tracks(_, _, _, _)
Tracks(es, ev, next, acc) ==
  IF Len(acc) = Len(es) THEN [tracks |-> acc]
  ELSE LET r == Track(es[Len(acc) + 1], ev, next) IN
       IF "fail" \in DOMAIN r THEN r ELSE Tracks(es, ev, next, Append(acc, r.t))

\* the initialization: tracks, or why there are none
Init0(d, eofname) ==
  LET c == {k \in 1 .. Len(d.ev) : d.ev[k].k = "PMT"}
      k == CHOOSE x \in c : \A y \in c : x <= y
      r == Tracks(d.ev[k].es, d.ev, k + 1, <<>>)
  IN IF c = {} THEN [init |-> eofname]
     ELSE IF "tracks" \in DOMAIN r THEN r
     ELSE [init |-> IF r.fail = "end" THEN eofname ELSE "err"]

\* ---- decoding of a unit
RECURSIVE Frames(_, _)
Frames(d, acc) == IF d = <<>> THEN [l |-> acc]
  ELSE LET h == A!Mpa(d) IN IF Len(d) < 4 \/ "err" \in DOMAIN h THEN Fail
       ELSE IF Len(d) < h.len THEN Fail ELSE Frames(SubSeq(d, h.len + 1, Len(d)), Append(acc, SubSeq(d, 1, h.len)))
NoAud(l, x) == IF l[1][1] = x THEN Tail(l) ELSE l
Unit(t, u) ==
  LET d == u.data IN
  CASE t.codec = "h264" -> LET r == X!Decode(d) IN IF "err" \in DOMAIN r THEN Fail ELSE [l |-> NoAud(r.nalus, 9)]
    [] t.codec = "h265" -> LET r == X!Decode(d) IN IF "err" \in DOMAIN r THEN Fail ELSE [l |-> NoAud(r.nalus, 70)]
    [] t.codec \in {"mpeg4v", "mpeg1v", "dvb"} -> [l |-> <<d>>]
    [] t.codec = "klv" /\ t.params = <<0>> -> [l |-> <<d>>]
    [] t.codec = "klv" -> LET r == S!Wrapper(d) IN IF "err" \in DOMAIN r THEN Fail ELSE [l |-> <<r.data>>]
    [] u.pts # u.dts -> Fail
    [] t.codec = "opus" -> LET r == S!OpusAUs(d, <<>>) IN IF "err" \in DOMAIN r THEN Fail ELSE [l |-> r.packets]
    [] t.codec = "aac" -> LET r == M!Adts(d, <<>>) IN IF "err" \in DOMAIN r THEN Fail ELSE [l |-> [k \in 1 .. Len(r.pkts) |-> r.pkts[k].au]]
    [] t.codec = "latm" -> LET r == M!Ass(d, <<>>) IN IF "err" \in DOMAIN r THEN Fail ELSE [l |-> r.els]
    [] t.codec = "mp1a" -> Frames(d, <<>>)
    [] t.codec = "ac3" -> LET r == A!Ac3(d) IN IF "err" \in DOMAIN r THEN Fail ELSE IF r.size # Len(d) THEN Fail ELSE [l |-> <<d>>]
    [] t.codec = "eac3" -> IF Len(d) < 6 THEN Fail ELSE IF "err" \in DOMAIN A!Eac3(d) THEN Fail ELSE [l |-> <<d>>]
\* units on the edge of what the header parsers accept
UnitOdd(t, u) ==
  LET n == Len(u.data) IN
  CASE t.codec = "eac3" -> n \in {6, 7}
    [] t.codec = "ac3" -> n \in 5 .. 12
    [] t.codec = "mp1a" -> n \in 1 .. 6 \/ (LET f == Frames(u.data, <<>>) IN "fail" \in DOMAIN f /\ n < 100)
    [] OTHER -> FALSE
HasDts(c) == c \in {"h264", "h265"}

\* ---- reading: nocb: PIDs without callback; fails: callbacks which return an error
RECURSIVE Events(_, _, _, _, _, _, _)
Events(ev, k, tr, nocb, fails, n, acc) ==
  IF k > Len(ev) THEN acc
  ELSE LET u == ev[k] IN
       IF u.k = "E" THEN Events(ev, k + 1, tr, nocb, fails, n, Append(acc, [k |-> "E"]))
       ELSE IF u.k = "PMT" THEN Events(ev, k + 1, tr, nocb, fails, n, acc)
       ELSE LET ts == SelectSeq(tr, LAMBDA x : x.pid = u.pid)
                t == ts[Len(ts)]
                async == t.codec = "klv" /\ t.params = <<0>>
                pts == IF async THEN u.last ELSE <<u.pts>>
                r == Unit(t, u)
                \* several decode errors in a row are the same as one
            IN IF ts = <<>> THEN Events(ev, k + 1, tr, nocb, fails, n, Append(acc, [k |-> "E"]))
               ELSE IF async /\ u.last = <<>> THEN Events(ev, k + 1, tr, nocb, fails, n, acc)
               ELSE IF ~async /\ u.pts = <<>> THEN Events(ev, k + 1, tr, nocb, fails, n, Append(acc, [k |-> "E"]))
               ELSE IF t.codec = "unsupported" \/ u.pid \in nocb THEN Events(ev, k + 1, tr, nocb, fails, n, acc)
               ELSE IF UnitOdd(t, u) THEN Append(acc, [k |-> "odd"])
               ELSE IF "fail" \in DOMAIN r THEN Events(ev, k + 1, tr, nocb, fails, n, Append(acc, [k |-> "E"]))
               ELSE Events(ev, k + 1, tr, nocb, fails, n + 1,
                           Append(acc, [k |-> "cb", pid |-> u.pid, pts |-> pts[1], dts |-> IF HasDts(t.codec) THEN u.dts ELSE <<>>, data |-> r.l])
                           \o (IF n + 1 \in fails THEN <<[k |-> "X"]>> ELSE <<>>))
\* several decode errors in a row are the same as one
Squeeze(ev) == FoldLeft(LAMBDA a, x : IF x.k = "E" /\ a # <<>> /\ a[Len(a)].k = "E" THEN a ELSE Append(a, x), <<>>, ev)
ToSet0(s) == {s[k] : k \in 1 .. Len(s)}
DupPid(tr) == \E i, j \in 1 .. Len(tr) : i # j /\ tr[i].pid = tr[j].pid

\* what reading the bytes gives; final is how the source ends ("eof" or "custom")
Reading(b, final, nocb, fails, lossy) ==
  LET d == Demux(b, final = "eof", lossy)
      i == Init0(d, final)
      tr == i.tracks
      ev == Events(d.ev, 1, tr, nocb, fails, 0, <<>>)
      oddTrack == \E k \in 1 .. Len(d.ev) : d.ev[k].k = "PMT" /\ (\E j \in 1 .. Len(d.ev[k].es) : Special(d.ev[k].es[j].pid) \/ d.ev[k].es[j].pid \in d.pm \cup {0})
  IN IF d.odd \/ oddTrack THEN [odd |-> TRUE]
     ELSE IF "init" \in DOMAIN i THEN i
     ELSE IF DupPid(tr) \/ \E k \in 1 .. Len(ev) : ev[k].k = "odd" THEN [odd |-> TRUE]
     ELSE [tracks |-> tr, ev |-> Squeeze(ev), end |-> final]

StartStates(cfg) == {0}
Outcomes(s, e) ==
  LET keep(x) == {[st |-> s, res |-> x]}
      b == IF "stream" \in DOMAIN e THEN e.stream ELSE e.buf
      run(lossy) == Reading(b, IF e.final = "ueof" THEN "eof" ELSE e.final, ToSet0(e.nocb), ToSet0(e.fails), lossy)
      x == run(FALSE)
      ok(y) == keep([runs |-> <<y>>])
      any == keep(IF ~PrintT("UNSPECIFIED") THEN Err ELSE IF "panic" \in DOMAIN e.r THEN Err ELSE e.r)
  IN CASE e.op = "read" ->
            IF "odd" \in DOMAIN x \/ Demux(b, FALSE, FALSE).dup THEN any
            ELSE IF e.r = [runs |-> <<x>>] THEN ok(x)
            ELSE LET y == run(TRUE) IN IF "odd" \in DOMAIN y THEN any ELSE ok(x) \cup ok(y)
       \* units are not lost
       [] e.op = "read_all" -> ok(x)
=============================================================================
