------------------------------- MODULE TsEnc -------------------------------
(* Multiplexing of MPEG transport streams, the inverse of Ts. *)
EXTENDS Ts

P16(v) == <<v \div 256, v % 256>>
StampEnc(mark, t) == <<mark * 16 + t[1] * 2 + 1, t[2] \div 128, (t[2] % 128) * 2 + 1, t[3] \div 128, (t[3] % 128) * 2 + 1>>
Zeros(n, v) == [k \in 1 .. n |-> v]

\* one packet; af: <<>> or <<flags and optional fields>>; filled up with stuffing in the adaptation field
PktEnc(h, af, haf, pl) ==
  LET room == 184 - Len(pl)
      a == IF room = 0 THEN <<>> ELSE IF room = 1 THEN <<0>>
           ELSE LET f == IF af = <<>> THEN <<0>> ELSE af IN <<room - 1>> \o f \o Zeros(room - 1 - Len(f), 255)
  IN <<71, h.tei * 128 + h.pusi * 64 + h.pid \div 256, h.pid % 256, (IF room > 0 THEN 32 ELSE 0) + (IF pl # <<>> THEN 16 ELSE 0) + h.cc>> \o a \o pl
\* a unit cut into packets, without continuity counters: [pusi, af, pl]
RECURSIVE Cut(_, _, _, _)
Cut(d, af, pusi, acc) ==
  LET room == IF af = <<>> THEN 184 ELSE 183 - Len(af)
      n == IF Len(d) < room THEN Len(d) ELSE room
  IN IF d = <<>> /\ acc # <<>> THEN acc ELSE Cut(SubSeq(d, n + 1, Len(d)), <<>>, 0, Append(acc, [pusi |-> pusi, af |-> af, pl |-> SubSeq(d, 1, n)]))

\* a PES packet; pts, dts: lists of at most one; hx: further header bytes (stuffing); bounded: with a length
PesEnc(sid, pts, dts, hx, bounded, data) ==
  LET oh == IF pts = <<>> THEN <<>> ELSE IF dts = <<>> THEN StampEnc(2, pts[1]) ELSE StampEnc(3, pts[1]) \o StampEnc(1, dts[1])
      h == IF NoHeader(sid) THEN <<>> ELSE <<132, (IF pts = <<>> THEN 0 ELSE IF dts = <<>> THEN 128 ELSE 192), Len(oh) + hx>> \o oh \o Zeros(hx, 255)
  IN <<0, 0, 1, sid>> \o P16(IF bounded THEN Len(h) + Len(data) ELSE 0) \o h \o data

Section(tid, body) ==
  LET n == 5 + Len(body) + 4
      s == <<tid>> \o P16(45056 + n) \o body
      \* body starts with the five bytes of the syntax header
      t == <<tid>> \o P16(45056 + Len(body) + 4) \o body
      c == Crc(t)
  IN t \o P16(c[1]) \o P16(c[2])
PatEnc(ver, progs) == Section(0, <<0, 1, 193 + 2 * ver, 0, 0>> \o Flat([k \in 1 .. Len(progs) |-> P16(progs[k][1]) \o P16(57344 + progs[k][2])]))
DescEnc(ds) == LET b == Flat([k \in 1 .. Len(ds) |-> <<ds[k][1], Len(ds[k][2])>> \o ds[k][2]]) IN P16(61440 + Len(b)) \o b
PmtEnc(ver, pcr, pds, es) ==
  Section(2, <<0, 1, 193 + 2 * ver, 0, 0>> \o P16(57344 + pcr) \o DescEnc(pds) \o Flat([k \in 1 .. Len(es) |-> <<es[k].type>> \o P16(57344 + es[k].pid) \o DescEnc(es[k].desc)]))
\* PSI units are stuffed with 255 up to the end of the packet
PsiEnc(pointer, secs) == LET b == <<pointer>> \o Zeros(pointer, 0) \o secs IN b \o Zeros((184 - (Len(b) % 184)) % 184, 255)

\* continuity counters, in order: packets [pid, pusi, af, pl, tei, jump]
Number(pk) ==
  FoldLeft(LAMBDA a, p :
             LET c == ((IF p.pid \in DOMAIN a.cc THEN a.cc[p.pid] ELSE p.first) + p.jump) % 16 IN
             [cc |-> (p.pid :> (IF p.pl = <<>> THEN c ELSE (c + 1) % 16)) @@ a.cc,
              out |-> Append(a.out, PktEnc([tei |-> p.tei, pusi |-> p.pusi, pid |-> p.pid, cc |-> c], p.af, TRUE, p.pl))],
           [cc |-> <<>>, out |-> <<>>], pk).out
=============================================================================
