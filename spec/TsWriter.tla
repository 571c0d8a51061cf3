------------------------------ MODULE TsWriter ------------------------------
(***************************************************************************)
(* mpegts.Writer: what it writes for each call, judged by decoding it.     *)
(*                                                                         *)
(* State: tracks: [pid, codec, ...]; lead: PID of the track written first  *)
(* (0: none), which carries the clock; cnt: units until the next clock;    *)
(* cc: next continuity counter of each PID; since: units since the tables; *)
(* ver: last program map and its version; mp1: MPEG-1 audio tracks which   *)
(* have been checked.                                                      *)
(***************************************************************************)
EXTENDS TsEnc

Video(c) == c \in {"h264", "h265", "mpeg4v", "mpeg1v"}
LangDesc(t) == IF t.lang = <<>> THEN <<>> ELSE <<<<10, t.lang \o <<0>>>>>>
OpusV(t) == IF t.desc = <<>> THEN <<t.chan>> ELSE S!OpusDescEnc(t.desc[1])
KlvMdesc == S!MdescEnc([app |-> 256, appid |-> <<>>, format |-> 255, formatid |-> <<<<75 * 256 + 76, 86 * 256 + 65>>>>, service |-> 0,
                        flags |-> 0, dsmcc |-> <<>>, config |-> <<>>, ident |-> <<>>, cfgservice |-> <<>>, private |-> <<>>])
\* component_type: as the code assigns it, and as ETSI EN 300 468 table D.1 does
Comp(c, ch) == {IF ch <= 2 THEN 5 ELSE IF ch <= 4 THEN 11 ELSE 13,
                (IF c = "eac3" THEN 128 ELSE 0) + 64 + (IF ch = 1 THEN 0 ELSE IF ch = 2 THEN 2 ELSE IF ch <= 6 THEN 4 ELSE 5)}
CompEtsi(c, ch) == (IF c = "eac3" THEN 128 ELSE 0) + 64 + (IF ch = 1 THEN 0 ELSE IF ch = 2 THEN 2 ELSE IF ch <= 6 THEN 4 ELSE 5)
Type(c) == CASE c = "h264" -> 27 [] c = "h265" -> 36 [] c = "mpeg4v" -> 16 [] c = "mpeg1v" -> 2 [] c \in {"opus", "klva", "dvb"} -> 6
             [] c = "aac" -> 15 [] c = "latm" -> 17 [] c = "mp1a" -> 3 [] c = "ac3" -> 129 [] c = "eac3" -> 135 [] c = "klvs" -> 21
\* the descriptors a track may have in the program map
DescOf(t, comp) ==
  CASE t.codec = "opus" -> <<<<5, <<79, 112, 117, 115>>>>, <<127, <<128>> \o OpusV(t)>>>>
    [] t.codec = "ac3" -> <<<<106, <<207, comp, 8>>>>>>
    [] t.codec = "eac3" -> <<<<122, <<192, comp, 16>>>>>>
    [] t.codec = "klvs" -> <<<<38, KlvMdesc>>, <<39, S!MstdEnc([in |-> 0, buf |-> 0, out |-> 0])>>>>
    [] t.codec = "klva" -> <<<<5, <<75, 76, 86, 65>>>>>>
    [] t.codec = "dvb" -> <<<<89, t.items>>>>
    [] OTHER -> <<>>
EsOf(t, comp) == [type |-> Type(t.codec), pid |-> t.pid, desc |-> DescOf(t, comp) \o LangDesc(t)]
\* the bits which are reserved in the first byte of the AC-3 descriptor do not matter
Norm(es) == [es EXCEPT !.desc = [k \in 1 .. Len(@) |-> IF @[k][1] = 106 /\ @[k][2] # <<>> THEN <<106, <<207>> \o Tail(@[k][2])>> ELSE @[k]]]
EsOK(es, t, strict) ==
  IF t.codec \in {"ac3", "eac3"}
  THEN \E c \in (IF strict THEN {CompEtsi(t.codec, t.chan)} ELSE Comp(t.codec, t.chan)) : Norm(es) = EsOf(t, c)
  ELSE es = EsOf(t, 0)
PmtSize(tracks) == Len(PmtEnc(0, 0, <<>>, [k \in 1 .. Len(tracks) |-> EsOf(tracks[k], 0)])) + 1

\* ---- 33 bit arithmetic on <<3, 15, 15>> bits
Minus(t, n) == LET lo == t[3] - n
                   q == IF lo >= 0 THEN 0 ELSE (32767 - lo) \div 32768
                   mid == t[2] - q
               IN <<(t[1] - (IF mid < 0 THEN 1 ELSE 0) + 8) % 8, (mid + 32768) % 32768, lo + q * 32768>>

\* ---- packets
PcrAt(b, i) == <<b[i] \div 32, (b[i] % 32) * 1024 + b[i + 1] * 4 + b[i + 2] \div 64, (b[i + 2] % 64) * 512 + b[i + 3] * 2 + b[i + 4] \div 128>>
\* a packet which a writer may produce: [pid, pusi, cc, payload, rai, pcr]
WPkt(b, i) ==
  LET p == Pkt(b, i)
      haf == (b[i + 3] \div 32) % 2 = 1
      afl == b[i + 4]
      fl == IF haf /\ afl > 0 THEN b[i + 5] ELSE 0
      pcr == (fl \div 16) % 2 = 1
      stuff == i + 6 + (IF pcr THEN 6 ELSE 0)
      ok == /\ b[i] = 71 /\ b[i + 1] < 128 /\ (b[i + 1] \div 32) % 2 = 0 /\ b[i + 3] \div 64 = 0
            /\ haf => afl <= (IF p.hpl THEN 182 ELSE 183)
            /\ fl % 16 = 0 /\ fl < 128 /\ (fl \div 32) % 2 = 0
            /\ pcr => (afl >= 7 /\ b[i + 10] % 2 = 0 /\ b[i + 11] = 0)
            /\ \A k \in stuff .. i + 4 + (IF haf THEN afl ELSE 0) : b[k] = 255
  IN [ok |-> ok, pid |-> p.pid, pusi |-> p.pusi, cc |-> p.cc, hpl |-> p.hpl, payload |-> p.payload,
      rai |-> (fl \div 64) % 2 = 1, pcr |-> IF pcr THEN <<PcrAt(b, i + 6)>> ELSE <<>>]
Packets(b) == [k \in 1 .. Len(b) \div 188 |-> WPkt(b, 188 * (k - 1) + 1)]
\* continuity counters: the next of each PID, or <<>> when they are wrong
Count(cc, ps) ==
  FoldLeft(LAMBDA a, p : IF ~a.ok THEN a
             ELSE LET want == IF p.pid \in DOMAIN a.cc THEN a.cc[p.pid] ELSE p.cc
                      here == IF p.hpl THEN want ELSE (want + 15) % 16
                  IN [ok |-> p.cc = here, cc |-> (p.pid :> (IF p.hpl THEN (p.cc + 1) % 16 ELSE want)) @@ a.cc],
           [ok |-> TRUE, cc |-> cc], ps)

\* ---- tables
Version(p) == (p[2 + p[1] + 5] \div 2) % 32
AllFF(p, i) == \A k \in i .. Len(p) : p[k] = 255
SecEnd(p) == 2 + p[1] + 3 + (W16(p, 3 + p[1]) % 4096)
\* a table in the packets from k on: [l: the table, n: next packet, ver], or <<>>
Table(ps, k, pid, limit) ==
  IF k > Len(ps) THEN <<>>
  ELSE IF ps[k].pid # pid \/ ~ps[k].pusi THEN <<>>
  ELSE LET more == {j \in k .. Len(ps) : \A x \in k + 1 .. j : ps[x].pid = pid /\ ~ps[x].pusi}
           last == CHOOSE j \in more : \A x \in more : x <= j
           p == Flat([j \in 1 .. last - k + 1 |-> ps[k + j - 1].payload])
       IN IF ~PsiFull(p) THEN <<>>
          ELSE LET r == Secs(p, 2 + p[1], pid, <<>>) IN
               IF "l" \notin DOMAIN r THEN <<>> ELSE IF Len(r.l) # 1 \/ ~AllFF(p, SecEnd(p)) THEN <<>>
               ELSE <<[t |-> r.l[1], n |-> last + 1, ver |-> Version(p)]>>
\* the pairs of tables at the start of the packets: [n: next packet, ver] or <<>> when wrong
RECURSIVE Tables(_, _, _, _, _)
Tables(s, pcr, ps, k, strict) ==
  IF k > Len(ps) THEN <<[n |-> k, ver |-> s.ver]>>
  ELSE IF ps[k].pid # 0 THEN <<[n |-> k, ver |-> s.ver]>>
  ELSE LET a == Table(ps, k, 0, 0) IN
       IF a = <<>> THEN <<>>
       ELSE IF Cardinality(a[1].t.pids) # 1 THEN <<>>
       ELSE LET pm == CHOOSE x \in a[1].t.pids : TRUE
                m == Table(ps, a[1].n, pm, 0)
                content == <<pm, pcr>>
            IN IF m = <<>> THEN <<>>
               ELSE IF \/ m[1].t.pcr # pcr \/ Len(m[1].t.es) # Len(s.tracks)
                       \/ \E j \in 1 .. Len(s.tracks) : ~EsOK(m[1].t.es[j], s.tracks[j], strict)
                       \/ \E j \in 1 .. Len(s.tracks) : s.tracks[j].pid = pm
                       \/ s.ver # <<>> /\ s.ver[1].content # content /\ s.ver[1].ver = m[1].ver THEN <<>>
               ELSE Tables([s EXCEPT !.ver = <<[content |-> content, ver |-> m[1].ver]>>], pcr, ps, m[1].n, strict)

\* ---- units
HasCode(b, c) == \E i \in 1 .. Len(b) - 3 : b[i] = 0 /\ b[i + 1] = 0 /\ b[i + 2] = 1 /\ b[i + 3] = c
WithAud(au, first, aud) == IF au[1][1] = first THEN au ELSE <<aud>> \o au
N == INSTANCE Nalu
\* cells of at most 65535 bytes
Cells(d) ==
  LET n == (Len(d) + 65534) \div 65535 IN
  Flat([k \in 1 .. n |-> S!CellEnc([service |-> 0, seq |-> (k - 1) % 256, frag |-> IF n = 1 THEN 3 ELSE IF k = 1 THEN 2 ELSE IF k = n THEN 1 ELSE 0,
                                     cfg |-> FALSE, rai |-> TRUE, data |-> SubSeq(d, 65535 * (k - 1) + 1, IF k = n THEN Len(d) ELSE 65535 * k)])])
Ok(d, sid, rai) == [data |-> d, sid |-> sid, rai |-> rai]
Fail == [err |-> TRUE]
Unspec == [odd |-> TRUE]
Adts1(t, a) == [type |-> t.type, rate |-> t.rate, chan |-> t.chan, count |-> t.count, au |-> a]
Unit(s, t, d) ==
  CASE t.codec \in {"h264", "h265"} ->
         IF d = <<>> THEN Unspec ELSE IF d[1] = <<>> THEN Unspec
         ELSE IF t.codec = "h264" THEN Ok(X!Encode(WithAud(d, 9, <<9, 240>>)), 224, N!H264RA(d))
         ELSE Ok(X!Encode(WithAud(d, 70, <<70, 1, 80>>)), 224, N!H265RA(d))
    [] t.codec = "mpeg4v" -> Ok(d[1], 224, HasCode(d[1], 179))
    [] t.codec = "mpeg1v" -> Ok(d[1], 224, HasCode(d[1], 184))
    [] t.codec = "opus" -> Ok(Flat([k \in 1 .. Len(d) |-> S!OpusAUEnc([start |-> <<>>, end |-> <<>>, ext |-> <<>>, packet |-> d[k]])]), 192, TRUE)
    [] t.codec = "aac" -> IF \E k \in 1 .. Len(d) : ~M!AdtsEncodable(Adts1(t, d[k])) THEN Fail ELSE Ok(Flat([k \in 1 .. Len(d) |-> M!AdtsOne(Adts1(t, d[k]))]), 192, TRUE)
    [] t.codec = "latm" -> IF \E k \in 1 .. Len(d) : Len(d[k]) > 8191 THEN Fail ELSE Ok(M!AssEnc(d), 192, TRUE)
    [] t.codec = "mp1a" -> IF t.pid \notin s.mp1
                           THEN IF d = <<>> THEN Unspec
                                ELSE LET h == A!Mpa(d[1]) IN IF Len(d[1]) \in {4} THEN Unspec ELSE IF "err" \in DOMAIN h THEN Fail ELSE IF h.mpeg2 THEN Fail ELSE Ok(Flat(d), 192, TRUE)
                           ELSE Ok(Flat(d), 192, TRUE)
    [] t.codec \in {"ac3", "eac3"} -> Ok(d[1], 192, TRUE)
    [] t.codec = "klvs" -> IF d[1] = <<>> THEN Unspec ELSE Ok(Cells(d[1]), 252, TRUE)
    [] t.codec \in {"klva", "dvb"} -> Ok(d[1], 189, TRUE)

\* the packets of one unit
UnitOK(t, u, pts, dts, pcr, ps) ==
  LET p == Flat([k \in 1 .. Len(ps) |-> ps[k].payload])
      r == Pes(p)
  IN IF u.data = <<>> THEN ps = <<>>
     ELSE /\ ps # <<>>
          /\ \A k \in 1 .. Len(ps) : ps[k].pid = t.pid /\ ps[k].pusi = (k = 1) /\ (k = 1 => ps[k].hpl)
          /\ \A k \in 2 .. Len(ps) : ~ps[k].rai /\ ps[k].pcr = <<>>
          /\ ps[1].rai = u.rai /\ ps[1].pcr = pcr
          /\ Len(p) >= 9 /\ IsPes(p) /\ p[4] = u.sid
          /\ p[7] \div 16 = 8 /\ p[8] \in {0, 128, 192}
          /\ IF W16(p, 5) = 0 THEN Video(t.codec) \/ Len(p) - 6 > 65535 ELSE W16(p, 5) = Len(p) - 6
          /\ r.k = "P"
          /\ r.data = u.data /\ r.pts = pts /\ r.dts = dts
          \* a decoding time of its own only where it differs
          /\ p[8] = 192 => pts # dts

PcrPid(s, lead) == IF lead # 0 THEN lead ELSE IF s.tracks = <<>> THEN 0 ELSE s.tracks[1].pid

WroteOK(s, e, r, strict) ==
  LET t == s.tracks[e.t]
      u == Unit(s, t, e.data)
      lead == IF s.lead = 0 THEN t.pid ELSE s.lead
      isLead == t.pid = lead
      v == Video(t.codec)
      clock == isLead /\ (s.cnt = 0 \/ (v /\ u.rai))
      dts == IF t.codec \in {"h264", "h265"} THEN e.dts ELSE e.pts
      ps == Packets(r.b)
      c == Count(s.cc, ps)
      tb == Tables(s, lead, ps, 1, strict)
      unit == SubSeq(ps, tb[1].n, Len(ps))
      stamped(x) == IF t.codec = "klva" THEN <<>> ELSE x
  IN IF r.err # "" \/ Len(r.b) % 188 # 0 THEN {}
     ELSE IF \E k \in 1 .. Len(ps) : ~ps[k].ok THEN {}
     ELSE IF ~c.ok \/ tb = <<>> THEN {}
     \* the tables precede everything, and every point at which decoding may start
     ELSE IF tb[1].n = 1 /\ u.data # <<>> /\ (s.since >= 39 \/ (isLead /\ u.rai)) THEN {}
     ELSE IF ~UnitOK(t, u, stamped(e.pts), stamped(dts), IF clock THEN <<Minus(dts, 9000)>> ELSE <<>>, unit) THEN {}
     ELSE {[st |-> [s EXCEPT !.lead = lead, !.cnt = IF ~isLead THEN @ ELSE IF clock THEN 2 ELSE @ - 1, !.cc = c.cc, !.ver = tb[1].ver,
                             !.since = IF tb[1].n > 1 THEN 0 ELSE @ + 1, !.mp1 = IF t.codec = "mp1a" THEN @ \cup {t.pid} ELSE @], res |-> r]}

TablesOK(s, r, strict) ==
  LET ps == Packets(r.b)
      c == Count(s.cc, ps)
      tb == Tables(s, PcrPid(s, s.lead), ps, 1, strict)
  IN IF r.err # "" \/ Len(r.b) % 188 # 0 \/ r.n # Len(r.b) THEN {}
     ELSE IF \E k \in 1 .. Len(ps) : ~ps[k].ok THEN {}
     ELSE IF ~c.ok \/ tb = <<>> THEN {} ELSE IF tb[1].n # Len(ps) + 1 \/ ps = <<>> THEN {}
     ELSE {[st |-> [s EXCEPT !.cc = c.cc, !.ver = tb[1].ver, !.since = 0], res |-> r]}

\* PIDs: the given ones, or the next from 256 on
Assign(l) == FoldLeft(LAMBDA a, t : IF t.pid = 0 THEN [next |-> a.next + 1, l |-> Append(a.l, [t EXCEPT !.pid = a.next])] ELSE [a EXCEPT !.l = Append(@, t)],
                      [next |-> 256, l |-> <<>>], l).l
Broken == [broken |-> TRUE]
StartStates(cfg) ==
  {[tracks |-> Assign(cfg.tracks), lead |-> 0, cnt |-> 0, cc |-> [x \in {} |-> 0], since |-> 1000, ver |-> <<>>, mp1 |-> {}]}

NotCrashed(r) == "panic" \notin DOMAIN r /\ "hang" \notin DOMAIN r
Outcomes(s, e) ==
  LET keep(x) == {[st |-> s, res |-> x]}
      r == e.r
      any == IF NotCrashed(r) THEN {[st |-> Broken, res |-> r]} ELSE {}
      refused == {[st |-> s, res |-> [err |-> "err", b |-> <<>>, hit |-> FALSE]]}
  IN CASE s = Broken -> any
       [] s # Broken /\ e.op = "init" ->
            LET dup == \E i, j \in 1 .. Len(s.tracks) : i # j /\ s.tracks[i].pid = s.tracks[j].pid IN
            IF dup THEN {[st |-> Broken, res |-> [err |-> "err"]]} ELSE keep([pids |-> [k \in 1 .. Len(s.tracks) |-> s.tracks[k].pid]])
       [] s # Broken /\ e.op # "init" ->
            IF ~NotCrashed(r) /\ ~(e.op = "write" /\ "odd" \in DOMAIN Unit(s, s.tracks[e.t], e.data)) THEN {}
            \* the sink has failed: the caller learns of it
            ELSE IF ~NotCrashed(r) THEN {[st |-> Broken, res |-> r]}
            ELSE IF r.hit THEN IF r.err # "" THEN any ELSE {}
            ELSE IF e.op = "tables"
                 THEN IF s.tracks = <<>> \/ PmtSize(s.tracks) > 184 THEN IF r.err # "" /\ r.b = <<>> THEN keep(r) ELSE {}
                      ELSE TablesOK(s, r, "strict" \in DOMAIN e)
            ELSE LET u == Unit(s, s.tracks[e.t], e.data) IN
                 IF "odd" \in DOMAIN u THEN IF PrintT("UNSPECIFIED") THEN any ELSE any
                 ELSE IF "err" \in DOMAIN u THEN refused
                 ELSE IF PmtSize(s.tracks) > 184 THEN IF r.err # "" /\ r.b = <<>> THEN keep(r) ELSE {}
                 ELSE WroteOK(s, e, r, FALSE)
=============================================================================
