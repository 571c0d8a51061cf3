--------------------------------- MODULE Ts ---------------------------------
(***************************************************************************)
(* Demultiplexing of MPEG transport streams (ISO 13818-1) by               *)
(* mpegts.Reader.  The state of the demultiplexer is, for every PID, the   *)
(* payload collected since the last unit started, the PIDs which carry a   *)
(* program map and the last timestamp seen; its transitions consume one    *)
(* packet each.  The outcome is the list of observable events.             *)
(*                                                                         *)
(* Packets: 188 bytes, starting with 0x47.  Bytes which do not start a     *)
(* packet are skipped with a decode error.  Packets with an error          *)
(* indicator and packets without payload are ignored.  A gap in the        *)
(* continuity counter drops the unfinished unit of that PID only.          *)
(* A unit ends when the next one of its PID starts, when its declared      *)
(* length is reached or at the end of the stream.                          *)
(***************************************************************************)
EXTENDS Bits, TLC, Bitwise

S == INSTANCE TsSub
A == INSTANCE AudioHdr
X == INSTANCE AnnexB
M == INSTANCE M4Frames

PS == 188
W16(b, i) == b[i] * 256 + b[i + 1]

\* ---- CRC-32 of sections (polynomial 04C11DB7), as <<high 16 bits, low 16 bits>>
RECURSIVE CrcBits(_, _, _)
CrcBits(h, l, n) == IF n = 0 THEN <<h, l>>
  ELSE LET h2 == ((h * 2) % 65536) + (l \div 32768)
           l2 == (l * 2) % 65536
       IN IF h >= 32768 THEN CrcBits(h2 ^^ 1217, l2 ^^ 7607, n - 1) ELSE CrcBits(h2, l2, n - 1)
CrcTable == [i \in 0 .. 255 |-> CrcBits(i * 256, 0, 8)]
Crc(b) == FoldLeft(LAMBDA c, x : LET t == CrcTable[(c[1] \div 256) ^^ x] IN
                                  <<((c[1] % 256) * 256 + c[2] \div 256) ^^ t[1], ((c[2] % 256) * 256) ^^ t[2]>>,
                   <<65535, 65535>>, b)

\* ---- timestamps of 33 bits, as <<3 bits, 15 bits, 15 bits>>
Stamp(b, i) == <<(b[i] \div 2) % 8, b[i + 1] * 128 + b[i + 2] \div 2, b[i + 3] * 128 + b[i + 4] \div 2>>

\* ---- finding packets: offsets of packets, and 0 where bytes have been skipped
RECURSIVE SyncAt(_, _, _)
SyncAt(b, i, lim) == IF i = lim THEN i ELSE IF b[i] = 71 THEN i ELSE SyncAt(b, i + 1, lim)
RECURSIVE Scan(_, _, _)
Scan(b, i, acc) ==
  IF i + PS - 1 > Len(b) THEN acc
  ELSE IF b[i] = 71 THEN Scan(b, i + PS, Append(acc, i))
  ELSE Scan(b, SyncAt(b, i, i + PS), IF acc # <<>> /\ acc[Len(acc)] = 0 THEN acc ELSE Append(acc, 0))

Pkt(b, i) ==
  LET haf == (b[i + 3] \div 32) % 2 = 1
      afl == IF haf THEN b[i + 4] ELSE 0
      st == IF haf THEN 5 + afl ELSE 4
  IN [tei |-> b[i + 1] >= 128, pusi |-> (b[i + 1] \div 64) % 2 = 1, pid |-> (b[i + 1] % 32) * 256 + b[i + 2],
      hpl |-> (b[i + 3] \div 16) % 2 = 1, cc |-> b[i + 3] % 16, off |-> st,
      disc |-> haf /\ afl > 0 /\ b[i + 5] >= 128,
      \* adaptation fields this specification does not describe
      odd |-> haf /\ (afl > 183 \/ (afl > 0 /\ b[i + 5] % 16 # 0) \/ (afl \in 1 .. 6 /\ (b[i + 5] \div 16) % 2 = 1)),
      payload |-> SubSeq(b, i + st, i + PS - 1)]

IsPes(p) == Len(p) >= 3 /\ p[1] = 0 /\ p[2] = 0 /\ p[3] = 1
NoHeader(sid) == sid \in {190, 191}
\* the timestamp of a packet which starts a unit
PktStamp(p) ==
  IF p.pusi /\ p.hpl /\ Len(p.payload) >= 14 /\ IsPes(p.payload) /\ ~NoHeader(p.payload[4]) /\ p.payload[8] >= 128
  THEN <<Stamp(p.payload, 10)>> ELSE <<>>

\* ---- PES packets
Err == [k |-> "E"]
PesEnd(p) == IF W16(p, 5) > 0 THEN 6 + W16(p, 5) ELSE Len(p)
Pes(p) ==
  IF Len(p) < 6 THEN Err
  ELSE IF NoHeader(p[4])
       THEN IF PesEnd(p) > Len(p) THEN Err ELSE [k |-> "P", pts |-> <<>>, dts |-> <<>>, data |-> SubSeq(p, 7, PesEnd(p))]
  ELSE IF Len(p) < 9 THEN Err
  ELSE LET fl == p[8] \div 64
           st == 9 + p[9]
           en == PesEnd(p)
       IN IF (fl = 2 /\ Len(p) < 14) \/ (fl = 3 /\ Len(p) < 19) \/ en < st \/ en > Len(p) THEN Err
          ELSE [k |-> "P", pts |-> IF fl >= 2 THEN Stamp(p, 10) ELSE <<>>, dts |-> IF fl = 3 THEN Stamp(p, 15) ELSE IF fl = 2 THEN Stamp(p, 10) ELSE <<>>,
                data |-> SubSeq(p, st + 1, en)]
\* optional fields this specification does not describe
PesOdd(p) == Len(p) >= 8 /\ ~NoHeader(p[4]) /\ p[8] % 64 # 0
\* the declared length is reached
PesFull(p) ==
  /\ Len(p) >= 6 /\ W16(p, 5) > 0 /\ Len(p) >= PesEnd(p)
  /\ NoHeader(p[4]) \/ (Len(p) >= 9 /\ ~(p[8] \div 64 = 2 /\ Len(p) < 14) /\ ~(p[8] \div 64 = 3 /\ Len(p) < 19))

\* ---- program specific information
KnownTable(t) == t \in {0, 2, 64, 65, 66, 70, 74, 78} \cup 79 .. 111 \cup {112, 113, 114, 115, 126, 127}
RECURSIVE SecFull(_, _)
SecFull(p, i) == IF i > Len(p) THEN i = Len(p) + 1
                 ELSE IF ~KnownTable(p[i]) THEN TRUE
                 ELSE IF i + 2 > Len(p) THEN FALSE
                 ELSE SecFull(p, i + 3 + (W16(p, i + 1) % 4096))
PsiFull(p) == p # <<>> /\ SecFull(p, 2 + p[1])

\* descriptors: <<tag, content>>; <<>> when they do not fill their loop exactly
RECURSIVE Descs(_, _, _, _)
Descs(p, i, end, acc) ==
  IF i = end THEN [l |-> acc]
  ELSE IF i + 2 > end \/ i + 2 + p[i + 1] > end THEN [odd |-> TRUE]
  ELSE Descs(p, i + 2 + p[i + 1], end, Append(acc, <<p[i], SubSeq(p, i + 2, i + 1 + p[i + 1])>>))
Ones(x, S0) == Cardinality({k \in S0 : (x \div 2 ^ k) % 2 = 1})
OddDesc(d) ==
  LET t == d[1] n == Len(d[2]) IN
  n > 0 /\ CASE t = 5 -> n < 4
             [] t = 10 -> FALSE
             [] t = 89 -> n % 8 # 0
             [] t = 127 -> d[2][1] = 6
             [] t = 106 -> n < 1 + Ones(d[2][1], 4 .. 7)
             [] t = 122 -> n < 1 + Ones(d[2][1], 0 .. 2) + Ones(d[2][1], 4 .. 7)
             [] t \in {40, 80, 84, 6, 78, 88, 14, 64, 85, 15, 95, 72, 77, 82, 86, 69, 70} -> TRUE
             [] OTHER -> FALSE
RECURSIVE Streams(_, _, _, _)
Streams(p, i, end, acc) ==
  IF i = end THEN [l |-> acc]
  ELSE IF i + 5 > end \/ i + 5 + (W16(p, i + 3) % 4096) > end THEN [odd |-> TRUE]
  ELSE LET e == i + 5 + (W16(p, i + 3) % 4096)
           d == Descs(p, i + 5, e, <<>>)
       IN IF "odd" \in DOMAIN d THEN d ELSE IF \E k \in 1 .. Len(d.l) : OddDesc(d.l[k]) THEN [odd |-> TRUE]
          ELSE Streams(p, e, end, Append(acc, [type |-> p[i], pid |-> W16(p, i + 1) % 8192, desc |-> d.l]))
\* the sections of a unit: tables in order, an error, or odd
RECURSIVE Secs(_, _, _, _)
Secs(p, i, pid, acc) ==
  IF i > Len(p) \/ ~KnownTable(p[i]) THEN [l |-> acc]
  ELSE IF i + 2 > Len(p) THEN [err |-> TRUE]
  ELSE LET n == W16(p, i + 1) % 4096
           end == i + 3 + n - 4          \* where the CRC is
       IN IF p[i] \notin {0, 2} \/ (p[i] = 0) # (pid = 0) THEN [odd |-> TRUE]
          ELSE IF n < 9 \/ (p[i] = 2 /\ n < 13) THEN [odd |-> TRUE]
          ELSE IF end + 3 > Len(p) THEN [err |-> TRUE]
          ELSE IF Crc(SubSeq(p, i, end - 1)) # <<W16(p, end), W16(p, end + 2)>> THEN [err |-> TRUE]
          ELSE IF p[i] = 0
               THEN IF (end - i - 8) % 4 # 0 THEN [odd |-> TRUE]
                    ELSE Secs(p, end + 4, pid, Append(acc, [k |-> "PAT", pids |-> {W16(p, j + 2) % 8192 : j \in {x \in i + 8 .. end - 4 : (x - i) % 4 = 0 /\ W16(p, x) > 0}}]))
               ELSE LET pil == W16(p, i + 10) % 4096
                        pd == Descs(p, i + 12, i + 12 + pil, <<>>)
                        es == Streams(p, i + 12 + pil, end, <<>>)
                    IN IF i + 12 + pil > end THEN [odd |-> TRUE] ELSE IF "odd" \in DOMAIN pd THEN [odd |-> TRUE]
                       ELSE IF \E k \in 1 .. Len(pd.l) : OddDesc(pd.l[k]) THEN [odd |-> TRUE]
                       ELSE IF "odd" \in DOMAIN es THEN [odd |-> TRUE]
                       ELSE Secs(p, end + 4, pid, Append(acc, [k |-> "PMT", es |-> es.l, pcr |-> W16(p, i + 8) % 8192]))

\* ---- the demultiplexer
NoQ == [cc |-> 0, p |-> <<>>, f |-> FALSE, n |-> 0]
\* lossy: a unit of which the end is only known when the next one starts is lost when that
\* one is complete within its first packet (see DESIGN.md); amb: this happened;
\* dup: packets have been sent twice
Dem0(lossy) == [q |-> <<>>, pm |-> {}, last |-> <<>>, ev |-> <<>>, odd |-> FALSE, amb |-> FALSE, dup |-> FALSE, lossy |-> lossy]
Queue(st, pid) == IF pid \in DOMAIN st.q THEN st.q[pid] ELSE NoQ
SetQ(st, pid, x) == [st EXCEPT !.q = (pid :> x) @@ st.q]
\* pids whose payload has another meaning for the demultiplexer
Special(pid) == pid \in {1} \cup 16 .. 20 \cup {30, 31}

Flush(st, pid, x, final) ==
  IF x.n = 0 THEN st
  ELSE IF pid = 0 \/ pid \in st.pm
  THEN LET r == IF x.p = <<>> THEN [err |-> TRUE] ELSE Secs(x.p, 2 + x.p[1], pid, <<>>) IN
       IF "odd" \in DOMAIN r THEN [st EXCEPT !.odd = TRUE]
       ELSE IF "err" \in DOMAIN r THEN IF final THEN st ELSE [st EXCEPT !.ev = Append(@, Err)]
       ELSE [st EXCEPT !.pm = @ \cup UNION {r.l[k].pids : k \in {j \in 1 .. Len(r.l) : r.l[j].k = "PAT"}},
                       !.ev = @ \o SelectSeq(r.l, LAMBDA y : y.k = "PMT")]
  ELSE IF ~IsPes(x.p) THEN st
  ELSE LET r == Pes(x.p) IN
       IF PesOdd(x.p) THEN [st EXCEPT !.odd = TRUE]
       ELSE IF r.k = "E" THEN IF final THEN st ELSE [st EXCEPT !.ev = Append(@, Err)]
       ELSE [st EXCEPT !.ev = Append(@, [k |-> "PES", pid |-> pid, pts |-> r.pts, dts |-> r.dts, data |-> r.data, last |-> st.last])]

Step(b, st, i) ==
  IF i = 0 THEN [st EXCEPT !.ev = Append(@, Err)]
  ELSE LET p == Pkt(b, i)
           s1 == [st EXCEPT !.last = IF PktStamp(p) # <<>> THEN PktStamp(p) ELSE @]
           q == Queue(st, p.pid)
           gap == q.n > 0 /\ ~p.disc /\ p.pid # 8191 /\ p.cc # (q.cc + 1) % 16
           q1 == IF gap THEN NoQ ELSE q
           dup == p.cc = q.cc /\ q.n > 0
           flushed == IF p.pusi THEN q1 ELSE NoQ
           q2 == IF p.pusi THEN NoQ ELSE q1
           q3 == [cc |-> p.cc, p |-> q2.p \o p.payload, f |-> IF q2.n = 0 THEN IsPes(p.payload) ELSE q2.f, n |-> q2.n + 1]
           psi == p.pid = 0 \/ p.pid \in st.pm
           full == IF psi THEN PsiFull(q3.p) ELSE q3.f /\ PesFull(q3.p)
       IN IF p.odd THEN [s1 EXCEPT !.odd = TRUE]
          ELSE IF p.tei \/ ~p.hpl THEN s1
          \* packets may be sent twice
          ELSE IF dup THEN [s1 EXCEPT !.dup = TRUE]
          ELSE IF Special(p.pid) \/ (psi /\ q3.f) THEN [s1 EXCEPT !.odd = TRUE]
          ELSE IF full /\ flushed.n > 0
               THEN LET s2 == [SetQ(s1, p.pid, NoQ) EXCEPT !.amb = TRUE] IN Flush(IF st.lossy THEN s2 ELSE Flush(s2, p.pid, flushed, FALSE), p.pid, q3, FALSE)
          ELSE IF full THEN Flush(SetQ(s1, p.pid, NoQ), p.pid, q3, FALSE)
          ELSE Flush(SetQ(s1, p.pid, q3), p.pid, flushed, FALSE)

RECURSIVE Dump(_)
Dump(st) ==
  LET live == {pid \in DOMAIN st.q : st.q[pid].n > 0} IN
  IF live = {} THEN st
  ELSE LET pid == CHOOSE x \in live : \A y \in live : x <= y
       IN Dump(Flush(SetQ(st, pid, NoQ), pid, st.q[pid], TRUE))

\* the events of a stream; bytes after the last packet are ignored
Demux(b, eof, lossy) ==
  LET st == FoldLeft(LAMBDA s, i : Step(b, s, i), Dem0(lossy), Scan(b, 1, <<>>))
  IN IF eof THEN Dump(st) ELSE st
=============================================================================
