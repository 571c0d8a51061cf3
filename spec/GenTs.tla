------------------------------- MODULE GenTs -------------------------------
(* Transport streams: tracks of every codec, units, faults, and the ways in *)
(* which the bytes arrive.                                                  *)
EXTENDS TsEnc, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
\* "calm": intact streams; "rough": damaged ones, in pieces, with failing callbacks
Rough == IOEnv.MODE = "rough"
Seed == atoi(IOEnv.SEED)
Rnd(i, j) == LET a == (i * 7919 + j * 31337 + (Seed % 1000) * 4111 + 12345) % 32749 IN (((a * a + 7 * j + i) % 32719) * 61 + a) % 256
R(i, j, m) == (Rnd(i, j) * 65536 + Rnd(i, j + 5003) * 256 + Rnd(i, j + 10007)) % m
Rb(i, j, n) == [k \in 1 .. n |-> Rnd(i, j + 7 * k)]
Pick(i, j, X0) == X0[(R(i, j, Len(X0))) + 1]
Ch(i, j, n) == R(i, j, n) = 0           \* one time out of n
\* bytes without zeros, so that they never look like a start code
Nz(i, j, n) == [k \in 1 .. n |-> (Rnd(i, j + 7 * k) % 255) + 1]

OpusId0 == <<79, 112, 117, 115>>
Codecs == <<"h264", "h265", "mpeg4v", "mpeg1v", "opus", "aac", "latm", "mp1a", "ac3", "eac3", "klvs", "klva", "dvb", "private", "meta", "other", "two">>
LangD(i, j) == IF Ch(i, j, 3) THEN <<<<10, Rb(i, j + 1, 3) \o <<0>>>>>> ELSE IF Ch(i, j + 5, 6) THEN <<<<10, Rb(i, j + 1, Pick(i, j + 2, <<1, 3, 4, 8, 7>>))>>, <<10, <<1, 2, 3, 4>>>>>> ELSE <<>>
Misc(i, j) == IF Ch(i, j, 4) THEN <<<<Pick(i, j + 1, <<82 + 100, 200, 254, 128, 2, 9>>), Rb(i, j + 2, R(i, j + 3, 6))>>>> ELSE <<>>
OpusD(i, j) == Pick(i, j, <<<<2>>, <<1>>, <<0>>, <<8>>, <<129, 2, 0>>, <<129, 1, 0>>, <<129, 3, 1, 32, 8>>, <<130>>, <<9>>, <<>>, <<129, 0, 0>>>>)
MetaD(i, j) == S!MdescEnc([app |-> 256, appid |-> <<>>, format |-> 255, formatid |-> <<<<75 * 256 + 76, 86 * 256 + IF Ch(i, j, 6) THEN 66 ELSE 65>>>>, service |-> Rnd(i, j + 1),
                           flags |-> 0, dsmcc |-> <<>>, config |-> <<>>, ident |-> <<>>, cfgservice |-> <<>>, private |-> Rb(i, j + 2, R(i, j + 3, 3))])
Es(i, j, c, pid) ==
  LET e(t, ds) == [type |-> t, pid |-> pid, desc |-> Misc(i, j + 20) \o ds \o LangD(i, j + 30)] IN
  CASE c = "h264" -> e(27, <<>>) [] c = "h265" -> e(36, <<>>) [] c = "mpeg4v" -> e(16, <<>>) [] c = "mpeg1v" -> e(Pick(i, j, <<1, 2>>), <<>>)
    [] c = "opus" -> e(6, <<<<5, OpusId0>>>> \o (IF Ch(i, j, 8) THEN <<<<127, <<129, 2>>>>>> ELSE <<>>) \o (IF Ch(i, j + 1, 25) THEN <<>> ELSE <<<<127, <<128>> \o OpusD(i, j + 2)>>>>))
    [] c = "aac" -> e(15, <<>>) [] c = "latm" -> e(17, <<>>) [] c = "mp1a" -> e(3, <<>>) [] c = "ac3" -> e(129, <<<<106, <<207, 2, 3>>>>>>) [] c = "eac3" -> e(135, <<<<122, <<200, 5, 16>>>>>>)
    [] c = "klvs" -> e(21, (IF Ch(i, j + 14, 5) THEN <<<<38, Rb(i, j + 15, R(i, j + 16, 9))>>>> ELSE <<>>) \o <<<<38, MetaD(i, j)>>>> \o (IF Ch(i, j + 9, 6) THEN <<<<38, MetaD(i, j + 10)>>>> ELSE <<>>) \o <<<<39, Zeros(9, 192)>>>>)
    [] c = "klva" -> e(6, <<<<5, <<75, 76, 86, 65>> \o Rb(i, j, R(i, j + 1, 3))>>>>)
    [] c = "dvb" -> e(6, <<<<89, Rb(i, j, 8 * Pick(i, j + 1, <<1, 1, 2, 0>>))>>>>)
    [] c = "private" -> e(6, IF Ch(i, j, 2) THEN <<>> ELSE <<<<5, Rb(i, j + 1, 4)>>>> \o (IF Ch(i, j, 2) THEN <<<<89, Rb(i, j, 8)>>>> ELSE <<>>))
    [] c = "meta" -> e(21, <<<<38, Rb(i, j, R(i, j + 1, 12))>>>>)
    [] c = "other" -> e(Pick(i, j, <<4, 5, 0, 66, 130, 131, 134, 234, 255>>), <<>>)
    [] c = "two" -> e(6, <<<<5, OpusId0>>, <<5, <<75, 76, 86, 65>>>>, <<89, Rb(i, j, 8)>>>>)

\* ---- units
\* access unit delimiters ahead of the others, sometimes
Auds(i, j) == IF ~Ch(i, j + 60, 4) THEN <<>> ELSE [k \in 1 .. R(i, j + 61, 3) |-> Pick(i, j + 62, << <<9, 240>>, <<70, 1, 80>> >>)]
Nalus(i, j) == Auds(i, j) \o [k \in 1 .. R(i, j, 4) + 1 |-> IF Ch(i, j + k, 12) THEN <<>> ELSE <<Pick(i, j + 10 * k, <<9, 70, 1, 5, 7, 65, 64, 38, Rnd(i, j + k)>>)>> \o Nz(i, j + 100 * k, Pick(i, j + 10 * k + 1, <<0, 1, 5, 60, R(i, j + k, 300)>>))]
Annexb(i, j) == LET n == Nalus(i, j) IN IF Ch(i, j + 7, 12) THEN Nz(i, j + 8, 10)
                ELSE IF Ch(i, j + 8, 3) THEN Flat([k \in 1 .. Len(n) |-> <<0, 0, 1>> \o n[k]]) ELSE X!Encode(n)
Ac3Unit(i, j) == LET sz == Pick(i, j, <<0, 1, 2, 3>>) h == <<11, 119, Rnd(i, j), Rnd(i, j + 1), sz, Pick(i, j + 2, <<64, 66, 72>>), Rnd(i, j + 3), Rnd(i, j + 4)>>
                     n == 128 + 32 * (sz \div 2)
                     k == IF Ch(i, j + 5, 10) THEN n - 1 ELSE IF Ch(i, j + 6, 10) THEN n + 1 ELSE n
                 IN h \o Rb(i, j + 9, k - 8)
Eac3Unit(i, j) == <<11, 119, 1, Rnd(i, j), (Rnd(i, j + 1) % 192), IF Ch(i, j + 2, 10) THEN 64 ELSE 128 + (Rnd(i, j + 3) % 8)>> \o Rb(i, j + 4, R(i, j + 5, 200) + 10)
MpaFrame(i, j) == LET h == <<255, Pick(i, j, <<243, 245, 243, 253, 251>>), Pick(i, j + 1, <<16, 20, 24, 18, 32>>), Rnd(i, j + 2)>> n == A!Mpa(h).len IN h \o Rb(i, j + 3, n - 4)
Unit0(i, j, c) ==
  CASE c \in {"h264", "h265"} -> Annexb(i, j)
    [] c \in {"mpeg4v", "mpeg1v", "klva", "dvb"} -> Rb(i, j, Pick(i, j + 1, <<0, 1, 20, 170, 171, 172, 184, 300, R(i, j + 2, 600)>>))
    [] c = "opus" -> Flat([k \in 1 .. R(i, j, 3) + 1 |-> S!OpusAUEnc([start |-> IF Ch(i, j + k, 3) THEN <<R(i, j, 8192)>> ELSE <<>>, end |-> <<>>, ext |-> IF Ch(i, j + k + 5, 3) THEN <<2>> ELSE <<>>,
                                                                        packet |-> Rb(i, j + 20 * k, Pick(i, j + k + 10, <<0, 1, 20, 254, 255, 256>>))])]) \o (IF Ch(i, j + 9, 8) THEN <<127>> ELSE <<>>)
    [] c = "aac" -> Flat([k \in 1 .. R(i, j, 3) + 1 |-> M!AdtsOne([type |-> R(i, j + k, 4) + 1, rate |-> Pick(i, j + 20 + k, M!Rates), chan |-> R(i, j + 40 + k, 8), count |-> 0, au |-> Rb(i, j + 50 * k, R(i, j + 60 + k, 150) + 1)])])
                    \o (IF Ch(i, j + 9, 12) THEN <<255>> ELSE <<>>)
    [] c = "latm" -> M!AssEnc([k \in 1 .. R(i, j, 3) + 1 |-> Rb(i, j + 20 * k, Pick(i, j + k, <<0, 1, 30, 255, 256, 300>>))]) \o (IF Ch(i, j + 9, 8) THEN <<86>> ELSE <<>>)
    [] c = "mp1a" -> Flat([k \in 1 .. R(i, j, 2) + 1 |-> MpaFrame(i, j + 30 * k)])
    [] c = "ac3" -> Ac3Unit(i, j)
    [] c = "eac3" -> Eac3Unit(i, j)
    [] c = "klvs" -> LET many == Ch(i, j + 3, 9)   \* sequence numbers have 8 bits
                         n == IF many THEN 255 + R(i, j + 4, 5) ELSE R(i, j, 3) + 1 IN
          Flat([k \in 1 .. n |-> S!CellEnc([service |-> 0, seq |-> (IF Ch(i, j + 8, 6) THEN k ELSE k - 1) % 256, frag |-> IF Ch(i, j + 12 + k, 12) THEN R(i, j + 13 + k, 4) ELSE IF n = 1 THEN 3 ELSE IF k = 1 THEN 2 ELSE IF k = n THEN 1 ELSE 0, cfg |-> FALSE, rai |-> TRUE,
                                              data |-> Rb(i, j + 20 * k, R(i, j + k, IF many THEN 4 ELSE 60))])]) \o (IF Ch(i, j + 9, 8) THEN <<0>> ELSE <<>>)
    [] OTHER -> Rb(i, j, R(i, j + 1, 40))
Sid(c) == CASE c \in {"h264", "h265", "mpeg4v", "mpeg1v"} -> 224 [] c \in {"klvs"} -> 252 [] c \in {"aac", "latm", "mp1a"} -> 192 [] OTHER -> 189
T0(i, j) == Pick(i, j, <<<<0, 0, 0>>, <<7, 32767, 32767>>, <<0, 2, 24464>>, <<R(i, j + 1, 8), R(i, j + 2, 32768), R(i, j + 3, 32768)>>>>)
\* some units are broken: cut, or with a wrong byte, often among the first ones
Hurt(i, j, u) ==
  LET at == R(i, j + 34, IF Ch(i, j + 35, 2) /\ Len(u) > 10 THEN 10 ELSE Len(u)) + 1 IN
  IF u = <<>> \/ ~Ch(i, j + 33, 9) THEN u
  ELSE IF Ch(i, j + 36, 3) THEN SubSeq(u, 1, at - 1)
  ELSE [u EXCEPT ![at] = IF Ch(i, j + 37, 2) THEN (@ + 1) % 256 ELSE Rnd(i, j + 38)]
Unit1(i, j, c) ==
  LET two == Ch(i, j, 4)
      none == Ch(i, j + 1, 14) \/ (c = "klva" /\ ~Ch(i, j + 1, 3))
      v == c \in {"h264", "h265", "mpeg4v", "mpeg1v"}
      t == T0(i, j + 2)
      \* the forbidden value of PTS_DTS_flags
      forbid(p) == IF Ch(i, j + 9, 30) /\ ~NoHeader(p[4]) THEN [p EXCEPT ![8] = 64] ELSE p
  IN forbid(PesEnc(IF Ch(i, j + 3, 30) THEN Pick(i, j + 4, <<190, 191>>) ELSE Sid(c), IF none THEN <<>> ELSE <<t>>, IF two /\ ~none THEN <<IF Ch(i, j + 5, 3) THEN t ELSE T0(i, j + 6)>> ELSE <<>>,
            Pick(i, j + 7, <<0, 0, 0, 5, 1>>), IF v THEN Ch(i, j + 8, 3) ELSE ~Ch(i, j + 8, 4), Hurt(i, j, Unit0(i, j + 40, c))))
PcrAf(i, j) == Pick(i, j, <<<<>>, <<>>, <<64>>, <<80, 0, 0, 10, 20, 126, 0>>, <<16, 255, 255, 255, 255, 254, 0>>>>)
Pks(pid, d, af, first) == LET u == Cut(d, af, 1, <<>>) IN [k \in 1 .. Len(u) |-> [pid |-> pid, pusi |-> u[k].pusi, af |-> u[k].af, pl |-> u[k].pl, tei |-> 0, jump |-> 0, first |-> first]]
Zip2(x, y) == LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y) IN
  Flat([k \in 1 .. n |-> <<x[k], y[k]>>]) \o SubSeq(x, n + 1, Len(x)) \o SubSeq(y, n + 1, Len(y))

Pids == <<256, 257, 300, 8190, 33, 4660, 511, 258>>
PidOf(k, i) == Pids[((k + i) % 8) + 1]
Tracks0(i) == [k \in 1 .. Pick(i, 1, <<1, 1, 2, 2, 3, 4>>) |-> [c |-> Codecs[IF k = 1 THEN (i % 17) + 1 ELSE R(i, 10 + k, 17) + 1], pid |-> PidOf(k, i)]]
PmtPid(i) == Pick(i, 3, <<4096, 32, 4097>>)
Psi(i, j, tr, bad) ==
  LET es == [k \in 1 .. Len(tr) |-> Es(i, 500 + 60 * k, tr[k].c, tr[k].pid)]
      pat == PatEnc(R(i, j, 32), (IF Ch(i, 5, 5) THEN <<<<0, 16>>>> ELSE <<>>) \o <<<<R(i, 6, 65535) + 1, PmtPid(i)>>>>)
      big == IF Ch(i, 7, 6) THEN <<<<160, Rb(i, 8, 200)>>>> ELSE <<>>
      pmt == PmtEnc(R(i, j + 1, 32), tr[1].pid, big \o Misc(i, 9), es)
      hurt(b) == [b EXCEPT ![9] = (@ + 1) % 256]
      ptr == Pick(i, j + 2, <<0, 0, 0, 3>>)
  IN Pks(0, PsiEnc(ptr, IF bad = 1 THEN hurt(pat) ELSE pat), <<>>, 3) \o Pks(PmtPid(i), PsiEnc(ptr, IF bad = 2 THEN hurt(pmt) ELSE pmt), <<>>, 11)

\* units in order; some pairs have their packets interleaved
Body(i, tr) ==
  LET n == Pick(i, 20, <<1, 2, 3, 4, 5, 6, 8>>)
      u(k) == LET t == tr[R(i, 30 + k, Len(tr)) + 1] IN Pks(t.pid, Unit1(i, 2000 + 500 * k, t.c), PcrAf(i, 60 + k), R(i, 25, 16))
      first == [k \in 1 .. Len(tr) |-> Pks(tr[k].pid, Unit1(i, 1000 + 100 * k, tr[k].c), PcrAf(i, 50 + k), R(i, 25, 16))]
      us == (IF Ch(i, 26, 12) THEN <<>> ELSE first) \o [k \in 1 .. n |-> u(k)]
      rep(k) == IF Ch(i, 100 + k, 6) THEN Psi(i, 110 + k, tr, 0) ELSE IF Ch(i, 120 + k, 20) THEN Psi(i, 110 + k, tr, 2) ELSE <<>>
  IN Flat([k \in 1 .. Len(us) |->
       rep(k) \o (IF k < Len(us) /\ Ch(i, 140 + (k \div 2), 4) /\ k % 2 = 1 /\ us[k][1].pid # us[k + 1][1].pid THEN Zip2(us[k], us[k + 1])
                  ELSE IF k > 1 /\ k % 2 = 0 /\ Ch(i, 140 + ((k - 1) \div 2), 4) /\ us[k][1].pid # us[k - 1][1].pid THEN <<>> ELSE us[k])])
Null == [pid |-> 8191, pusi |-> 0, af |-> <<>>, pl |-> Zeros(184, 255), tei |-> 0, jump |-> 0, first |-> 0]
\* faults which are seen packet by packet
Faults(i, pk) ==
  Flat([k \in 1 .. Len(pk) |->
    LET p == pk[k] f == R(i, 3000 + k, IF ~Rough THEN 2000 ELSE IF Ch(i, 2, 2) THEN 400 ELSE 60) IN
    CASE f = 0 -> <<[p EXCEPT !.tei = 1]>>
      [] f = 1 -> <<[p EXCEPT !.jump = 3]>>
      [] f = 2 -> <<Null, p>>
      [] f = 3 -> <<[p EXCEPT !.pl = <<>>, !.pusi = 0, !.af = <<64>>], p>>
      [] f = 4 /\ p.af = <<>> /\ Len(p.pl) < 180 -> <<[p EXCEPT !.jump = 5, !.af = <<128>>]>>
      [] f = 5 -> Pks(701, Unit1(i, 3300 + k, "dvb"), <<>>, 0) \o <<p>>
      [] f = 6 -> Pks(702, Rb(i, k, 50), <<>>, 0) \o <<p>>
      [] f = 7 -> <<[p EXCEPT !.pusi = 0]>>
      [] f = 8 -> <<[p EXCEPT !.tei = 1, !.jump = 15], p>>
      [] OTHER -> <<p>>])
\* faults on the bytes: lost packets, garbage, truncation
Garbage(i, j) == LET n == Pick(i, j, <<1, 2, 4, 100, 187, 188, 189, 376, 400>>) IN IF Ch(i, j + 1, 3) THEN Rb(i, j, n) ELSE [k \in 1 .. n |-> LET x == Rnd(i, j + k) IN IF x = 71 THEN 72 ELSE x]
Bytes(i, ps) ==
  LET calm == ~Rough \/ ~Ch(i, 4, 2)
      b == Flat([k \in 1 .. Len(ps) |-> LET f == R(i, 4000 + k, IF calm THEN 100000 ELSE 30) IN IF f = 0 THEN <<>> ELSE IF f = 1 THEN Garbage(i, 5000 + k) \o ps[k] ELSE ps[k]])
  IN IF ~Rough THEN b ELSE (IF Ch(i, 8, 5) THEN Garbage(i, 4900) ELSE <<>>) \o (IF Ch(i, 9, 4) THEN SubSeq(b, 1, Len(b) - R(i, 10, Len(b))) ELSE IF Ch(i, 11, 4) THEN b \o Garbage(i, 4950) ELSE b)
Stream(i) ==
  LET tr == Tracks0(i)
      lead == IF Ch(i, 12, 6) THEN Psi(i, 13, tr, Pick(i, 14, <<1, 2>>)) ELSE IF Ch(i, 12, 4) THEN Pks(tr[1].pid, Unit1(i, 15, tr[1].c), <<>>, 1) ELSE <<>>
      psi == Psi(i, 16, tr, 0)
      pk == lead \o psi \o Body(i, tr)
  IN Bytes(i, Number(Faults(i, pk)))
Chunks(i) ==
  << [sizes |-> <<188>>, with |-> FALSE], [sizes |-> <<1316>>, with |-> TRUE], [sizes |-> Pick(i, 5999, <<<<188>>, <<1316>>, <<376, 188, 1316>>>>), with |-> FALSE, buffered |-> TRUE],
     [sizes |-> Pick(i, 6000, <<<<1>>, <<187>>, <<189, 0>>, <<0, 0, 1, 375>>, <<2, 3, 5, 7, 11>>>>), with |-> Ch(i, 6001, 2)],
     [sizes |-> [k \in 1 .. 5 |-> R(i, 6100 + k, 400) + 1], with |-> Ch(i, 6002, 2)] >>
Case(i) ==
  LET tr == Tracks0(i) IN
  [cfg |-> [x |-> 0], ops |-> <<[op |-> "read", buf |-> Stream(i), final |-> Pick(i, 6003, <<"eof", "eof", "eof", "ueof", "custom">>), chunks |-> Chunks(i),
      nocb |-> IF Ch(i, 6004, 6) THEN <<tr[1].pid>> ELSE <<>>, fails |-> IF Rough /\ Ch(i, 6005, 3) THEN <<R(i, 6006, 4) + 1, R(i, 6007, 4) + 1>> ELSE <<>>]>>]
\* fixed streams which show the findings
T(n) == <<<<0, 0, n>>>>
Fix(name, pk) == [cfg |-> [x |-> 0, finding |-> name],
  ops |-> <<[op |-> "read_all", stream |-> Flat(pk), final |-> "eof", chunks |-> <<[sizes |-> <<188>>, with |-> FALSE]>>, nocb |-> <<>>, fails |-> <<>>]>>]
FixPsi == Pks(0, PsiEnc(0, PatEnc(0, <<<<1, 4096>>>>)), <<>>, 0) \o Pks(4096, PsiEnc(0, PmtEnc(0, 256, <<>>, <<[type |-> 27, pid |-> 256, desc |-> <<>>]>>)), <<>>, 0)
FixUnit(n, bounded) == Pks(256, PesEnc(224, T(n), <<>>, 0, bounded, X!Encode(<<<<5>> \o Zeros(IF bounded THEN 20 ELSE 400, n)>>)), <<>>, 0)
Twice(l) == Flat([k \in 1 .. Len(l) |-> <<l[k], l[k]>>])
Extra == << Fix("unbounded-unit-then-single-packet-unit", Number(FixPsi \o FixUnit(1, FALSE) \o FixUnit(2, TRUE) \o FixUnit(3, FALSE))),
            Fix("duplicate-packets", Number(FixPsi) \o Twice(Number(FixUnit(1, FALSE) \o FixUnit(2, FALSE)))) >>
ASSUME ndJsonSerialize(IOEnv.OUT, IF Rough THEN <<Extra[2]>> ELSE <<Extra[1]>>)
Total == IF Deep THEN 6000 ELSE 850
One(i) == Case(i)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
