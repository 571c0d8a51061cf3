----------------------------- MODULE GenM4Vals ------------------------------
(* Values of MPEG-4 audio configurations, for generation and model checking. *)
EXTENDS Mpeg4Audio, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
FS == <<FALSE, TRUE>>
Up(n) == [i \in 1 .. n |-> i - 1]

\* raw elements of an AudioSpecificConfig
AVals == [type |-> <<2, 5, 29>> \o Up(32), fi |-> <<3>> \o Up(16), rate |-> <<48001, 0, 44100, 7350, 65536, 16777215>>,
          chan |-> <<2>> \o Up(16), efi |-> <<3>> \o Up(16), erate |-> <<96001, 0, 24000, 16777215>>, core |-> <<2, 2, 2, 2>> \o Up(32),
          short |-> FS, dep |-> FS, delay |-> <<0, 1, 10922, 16383>>, gaext |-> <<FALSE, FALSE, FALSE, FALSE, TRUE>>]
A0 == Default(AVals)
ABases == <<A0, [A0 EXCEPT !.type = 5, !.dep = TRUE], [A0 EXCEPT !.type = 29, !.fi = 15, !.efi = 15], [A0 EXCEPT !.fi = 15]>>

\* configurations as callers give them
CC == <<<<2, 2>>, <<0, 0>>, <<1, 1>>, <<6, 6>>, <<7, 8>>, <<1, 0>>, <<5, 0>>, <<7, 0>>, <<6, 0>>, <<2, 0>>, <<0, 1>>, <<0, 3>>, <<0, 6>>, <<0, 8>>, <<0, 7>>, <<0, 9>>>>
CVals == [rate |-> Rates \o <<1, 0, 48001, 16777215>>, cc |-> CC, etype |-> <<0, 5, 29>>, erate |-> Rates \o <<1, 0, 16777215>>,
          short |-> FS, dep |-> FS, delay |-> <<1, 0, 8192, 16383>>]
C0 == Default(CVals)
CBases == <<C0, [C0 EXCEPT !.etype = 5, !.dep = TRUE], [C0 EXCEPT !.etype = 29, !.rate = 5, !.erate = 7]>>
AscOf(x) == [type |-> 2, rate |-> x.rate, chan |-> x.cc[1], count |-> x.cc[2], etype |-> x.etype,
             erate |-> IF x.etype = 0 THEN 0 ELSE x.erate, short |-> x.short, dep |-> x.dep, delay |-> IF x.dep THEN x.delay ELSE 0]

\* stream mux configurations
A1 == AscOf(C0)
A2 == [AscOf(CBases[2]) EXCEPT !.delay = 16383, !.chan = 1, !.count = 1]
A3 == [AscOf(CBases[3]) EXCEPT !.chan = 0, !.count = 0, !.short = TRUE]
Lay(a, flt) == [asc |-> a, flt |-> flt, full |-> IF flt = 0 THEN 171 ELSE 0, len |-> IF flt = 1 THEN 341 ELSE 0,
                celp |-> IF flt \in {3, 4, 5} THEN 42 ELSE 0, hvxc |-> flt \in {6, 7}]
Zero(a) == [Lay(a, 0) EXCEPT !.full = 255]
ProgsA == \* all payloads of variable size
  <<<<<<Lay(<<A1>>, 0)>>>>, <<<<Lay(<<A2>>, 0)>>>>, <<<<Zero(<<A3>>)>>>>,
    <<<<Lay(<<A1>>, 0), Zero(<<>>)>>>>, <<<<Lay(<<A1>>, 0), Lay(<<A2>>, 0)>>>>,
    <<<<Lay(<<A1>>, 0)>>, <<Zero(<<>>)>>>>, <<<<Lay(<<A3>>, 0), Zero(<<>>), Lay(<<A2>>, 0)>>, <<Lay(<<A1>>, 0)>>, <<Zero(<<>>), Zero(<<A2>>)>>>>,
    [k \in 1 .. 16 |-> <<IF k = 1 THEN Lay(<<A1>>, 0) ELSE Lay(<<>>, 0)>>],
    <<[k \in 1 .. 8 |-> IF k = 1 THEN Lay(<<A1>>, 0) ELSE Lay(<<>>, 0)]>>>>
ProgsB == \* other frame length types
  [f \in 1 .. 8 |-> <<<<Lay(<<A1>>, f - 1)>>>>]
  \o <<<<<<Lay(<<A1>>, 1), Lay(<<A2>>, 3)>>, <<Lay(<<>>, 6), Lay(<<A3>>, 2), Lay(<<>>, 7)>>>>,
       <<<<Lay(<<A1>>, 0)>>, <<Lay(<<>>, 4)>>>>, <<<<Lay(<<A1>>, 0), Lay(<<>>, 1)>>>>>>
SVals == [sub |-> <<0, 1, 2, 63>>, progs |-> ProgsA \o ProgsB, other |-> FS, crc |-> FS, crcsum |-> <<165, 0, 255>>,
          otherlen |-> <<<<0, 200>>, <<0, 0>>, <<0, 255>>, <<0, 256>>, <<0, 65535>>, <<1, 0>>, <<255, 65535>>, <<256, 0>>, <<65535, 65535>>>>]
S0 == Default(SVals)
SBases == <<S0, [S0 EXCEPT !.other = TRUE], [S0 EXCEPT !.crc = TRUE, !.progs = ProgsA[7]]>>
SmcOf(x) == [sub |-> x.sub, progs |-> x.progs, other |-> x.other, otherlen |-> IF x.other THEN x.otherlen ELSE <<0, 0>>,
             crc |-> x.crc, crcsum |-> IF x.crc THEN x.crcsum ELSE 0]

\* mux elements: payload sizes follow each other in the list, from a starting point
Sizes == <<5, 0, 1, 254, 255, 256, 3, 509, 510, 2, 511, 765, 7>>
Payload(n, salt) == [k \in 1 .. n |-> (k * 37 + salt * 11) % 256]
DataOf(c, start) ==
  LET total == FoldLeft(LAMBDA n, p : n + Len(p), 0, c.progs)
      at(i, k) == FoldLeft(LAMBDA n, j : n + Len(c.progs[j]), 0, [j \in 1 .. k - 1 |-> j]) + (i - 1) * total
      size(n) == IF (c.sub + 1) * total > 12 THEN n % 4 ELSE Sizes[1 + (n % Len(Sizes))]
  IN [i \in 1 .. c.sub + 1 |-> [k \in 1 .. Len(c.progs) |-> [j \in 1 .. Len(c.progs[k]) |->
        Payload(size(start + at(i, k) + j - 1), start + i + k + j)]]]
EVals == [sub |-> <<0, 1, 2, 7>>, progs |-> ProgsA, crc |-> FS, crcsum |-> <<165>>, other |-> <<FALSE, FALSE>>, otherlen |-> <<<<0, 0>>>>,
          present |-> <<TRUE, FALSE>>, same |-> FS, start |-> Up(13)]
E0 == Default(EVals)
EBases == <<E0, [E0 EXCEPT !.present = FALSE], [E0 EXCEPT !.same = TRUE, !.progs = ProgsA[5]]>>
AmeOf(x) == LET c == SmcOf(x) IN [present |-> x.present, same |-> x.present /\ x.same, given |-> <<c>>, data |-> DataOf(c, x.start)]
=============================================================================
