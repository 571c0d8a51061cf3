-------------------------------- MODULE Pmp4 --------------------------------
(***************************************************************************)
(* pmp4.Presentation: MP4 files with sample tables (ISO 14496-12, 8.6-8.7) *)
(*                                                                         *)
(* A track is [id, ts, off, codec, samples]; a sample is                   *)
(* [dur, off, ns, data].  ts: ticks per second; off of a track: ticks      *)
(* before its first sample (a pause if positive).                          *)
(*                                                                         *)
(* A layout has, besides the fields of module Mp4,                         *)
(*   cut    samples per chunk (0: all in one); cut2: of every other chunk  *)
(*   order  order of the chunks: "rounds", "turn", "back"                  *)
(*   gap    bytes that belong to nobody ahead of every chunk               *)
(*   tables order of the tables: "a", "b"                                  *)
(* and alternatives                                                        *)
(*   mdat     mdat comes before moov                                       *)
(*   long     stts, ctts and stsc with an entry per item                   *)
(*   stss     a table of sync samples even if all are                      *)
(*   noctts   no composition offsets if all zero                           *)
(*   v0       version 0 of ctts if possible                                *)
(*   same     size declared once if possible                               *)
(*   noedts   no edit list                                                 *)
(*   co64     64-bit offsets                                               *)
(***************************************************************************)
EXTENDS Mp4

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Durs(ss) == [k \in 1 .. Len(ss) |-> ss[k].dur]
Length(t) == Sum(Durs(t.samples))
Sizes(ss) == [k \in 1 .. Len(ss) |-> Len(ss[k].data)]

\* digits n of the fraction r / d, as a number (r < d)
RECURSIVE Frac(_, _, _, _)
Frac(r, d, n, acc) == IF n = 0 THEN acc ELSE Frac((r * 10) % d, d, n - 1, acc * 10 + (r * 10) \div d)
\* v ticks in thousandths (v >= 0)
Ms(v, ts) == IF ts = 0 THEN 0 ELSE ((v \div ts) * 1000) + Frac(v % ts, ts, 3, 0)
\* v ticks in seconds and nanoseconds, towards zero
Time(v, ts) == LET a == IF v < 0 THEN -v ELSE v
                   p == IF ts = 0 THEN <<0, 0>> ELSE <<a \div ts, Frac(a % ts, ts, 9, 0)>>
               IN IF v < 0 THEN <<-p[1], -p[2]>> ELSE p
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

\* ---- order of the samples in the file: pairs <<track, sample>>
\* as written: by decoding time, then by track
RECURSIVE Merge(_, _, _)
Merge(ts, nx, el) ==
  LET open == {k \in 1 .. Len(ts) : nx[k] <= Len(ts[k].samples)} IN
  IF open = {} THEN <<>>
  ELSE LET tm == [k \in open |-> Time(el[k], ts[k].ts)]
           b == CHOOSE k \in open : \A m \in open : IF m < k THEN Less(tm[k], tm[m]) ELSE ~Less(tm[m], tm[k])
       IN <<<<b, nx[b]>>>> \o Merge(ts, [nx EXCEPT ![b] = @ + 1], [el EXCEPT ![b] = @ + ts[b].samples[nx[b]].dur])
Sorted(ts) == Merge(ts, [k \in 1 .. Len(ts) |-> 1], [k \in 1 .. Len(ts) |-> ts[k].off])

\* chunks of a track as sequences of sample numbers
RECURSIVE Chop(_, _, _)
Chop(q, n, m) == IF n = 0 \/ Len(q) <= n THEN (IF q = <<>> THEN <<>> ELSE <<q>>) ELSE <<SubSeq(q, 1, n)>> \o Chop(SubSeq(q, n + 1, Len(q)), m, n)
Numbers(n) == [k \in 1 .. n |-> k]
RECURSIVE Rounds(_, _)
Rounds(counts, r) ==
  IF \A k \in 1 .. Len(counts) : counts[k] < r THEN <<>>
  ELSE SelectSeq([k \in 1 .. Len(counts) |-> <<k, r>>], LAMBDA x : counts[x[1]] >= r) \o Rounds(counts, r + 1)
Turn(counts) == Flat([k \in 1 .. Len(counts) |-> [r \in 1 .. counts[k] |-> <<k, r>>]])
Back(q) == [k \in 1 .. Len(q) |-> q[Len(q) + 1 - k]]

\* positions, in the data, of items of the given sizes
RECURSIVE Positions(_, _)
Positions(sizes, at) == IF sizes = <<>> THEN <<>> ELSE <<at>> \o Positions(Tail(sizes), at + sizes[1])

\* the chunks of every track: sequences of [n, at]; and the data
RECURSIVE Contiguous(_, _, _)
\* maximal runs of samples of a track that follow each other: at, sizes -> chunks
Contiguous(at, sizes, cur) ==
  IF at = <<>> THEN (IF cur.n = 0 THEN <<>> ELSE <<[n |-> cur.n, at |-> cur.at]>>)
  ELSE IF cur.n # 0 /\ cur.end = at[1] THEN Contiguous(Tail(at), Tail(sizes), [cur EXCEPT !.n = @ + 1, !.end = @ + sizes[1]])
  ELSE (IF cur.n = 0 THEN <<>> ELSE <<[n |-> cur.n, at |-> cur.at]>>) \o Contiguous(Tail(at), Tail(sizes), [n |-> 1, at |-> at[1], end |-> at[1] + sizes[1]])
PlainPlan(ts) ==
  LET order == Sorted(ts)
      size(x) == Len(ts[x[1]].samples[x[2]].data)
      pos == Positions([k \in 1 .. Len(order) |-> size(order[k])], 0)
      of(t) == LET mine == SelectSeq(Numbers(Len(order)), LAMBDA k : order[k][1] = t) IN [k \in 1 .. Len(mine) |-> pos[mine[k]]]
  IN [chunks |-> [t \in 1 .. Len(ts) |-> Contiguous(of(t), Sizes(ts[t].samples), [n |-> 0, at |-> 0, end |-> 0])],
      data |-> Flat([k \in 1 .. Len(order) |-> ts[order[k][1]].samples[order[k][2]].data])]
OtherPlan(l, ts) ==
  LET chunks == [t \in 1 .. Len(ts) |-> Chop(Numbers(Len(ts[t].samples)), l.cut, l.cut2)]
      counts == [t \in 1 .. Len(ts) |-> Len(chunks[t])]
      order == CASE l.order = "rounds" -> Rounds(counts, 1) [] l.order = "turn" -> Turn(counts) [] OTHER -> Back(Rounds(counts, 1))
      data(x) == Flat([k \in 1 .. Len(chunks[x[1]][x[2]]) |-> ts[x[1]].samples[chunks[x[1]][x[2]][k]].data])
      pos == Positions([k \in 1 .. Len(order) |-> l.gap + Len(data(order[k]))], l.gap)
      at(x) == pos[CHOOSE k \in 1 .. Len(order) : order[k] = x]
  IN [chunks |-> [t \in 1 .. Len(ts) |-> [c \in 1 .. counts[t] |-> [n |-> Len(chunks[t][c]), at |-> at(<<t, c>>)]]],
      data |-> Flat([k \in 1 .. Len(order) |-> [m \in 1 .. l.gap |-> 170] \o data(order[k])])]

\* ---- tables
RECURSIVE Runs(_)
\* <<value, count>> of the runs of equal values
Runs(q) == IF q = <<>> THEN <<>>
           ELSE LET n == CHOOSE n \in 1 .. Len(q) : (\A k \in 1 .. n : q[k] = q[1]) /\ (n = Len(q) \/ q[n + 1] # q[1])
                IN <<<<q[1], n>>>> \o Runs(SubSeq(q, n + 1, Len(q)))
RunsOf(l, q) == IF Mem("long", l.alt) THEN [k \in 1 .. Len(q) |-> <<q[k], 1>>] ELSE Runs(q)
Table(l, n, ver, q) == Full(l, n, ver, 0, B4(Len(q)) \o Flat(q))
Stts(l, ss) == LET r == RunsOf(l, Durs(ss)) IN Table(l, "stts", 0, [k \in 1 .. Len(r) |-> B4(r[k][2]) \o B4(r[k][1])])
Stss(l, ss) ==
  LET sync == SelectSeq(Numbers(Len(ss)), LAMBDA k : ~ss[k].ns)
  IN IF Len(sync) = Len(ss) /\ ~Mem("stss", l.alt) THEN <<>> ELSE Table(l, "stss", 0, [k \in 1 .. Len(sync) |-> B4(sync[k])])
Ctts(l, ss) ==
  LET offs == [k \in 1 .. Len(ss) |-> ss[k].off]
      r == RunsOf(l, offs)
      v0 == Mem("v0", l.alt) /\ \A k \in 1 .. Len(offs) : offs[k] >= 0
  IN IF Mem("noctts", l.alt) /\ \A k \in 1 .. Len(offs) : offs[k] = 0 THEN <<>>
     ELSE Table(l, "ctts", IF v0 THEN 0 ELSE 1, [k \in 1 .. Len(r) |-> B4(r[k][2]) \o BI(r[k][1])])
\* first chunk, samples per chunk
RECURSIVE Firsts(_, _)
Firsts(r, c) == IF r = <<>> THEN <<>> ELSE <<B4(c) \o B4(r[1][1]) \o B4(1)>> \o Firsts(Tail(r), c + r[1][2])
Stsc(l, chunks) == Table(l, "stsc", 0, Firsts(RunsOf(l, [k \in 1 .. Len(chunks) |-> chunks[k].n]), 1))
Stsz(l, ss) ==
  LET z == Sizes(ss) IN
  IF Mem("same", l.alt) /\ z # <<>> /\ z[1] # 0 /\ \A k \in 1 .. Len(z) : z[k] = z[1] THEN Full(l, "stsz", 0, 0, B4(z[1]) \o B4(Len(z)))
  ELSE Full(l, "stsz", 0, 0, Z(4) \o B4(Len(z)) \o Flat([k \in 1 .. Len(z) |-> B4(z[k])]))
Stco(l, chunks, base) == IF Mem("co64", l.alt) THEN Table(l, "co64", 0, [k \in 1 .. Len(chunks) |-> Z(4) \o B4(base + chunks[k].at)])
                         ELSE Table(l, "stco", 0, [k \in 1 .. Len(chunks) |-> B4(base + chunks[k].at)])

\* ---- headers
Elst(l, t) ==
  LET v1 == Mem("elst", l.v1)
      ent(dur, time) == (IF v1 THEN Z(4) ELSE <<>>) \o B4(dur) \o (IF v1 THEN (IF time < 0 THEN <<255, 255, 255, 255>> ELSE Z(4)) ELSE <<>>) \o BI(time) \o B2(1) \o Z(2)
      len == Length(t)
      \* alternative "elst": the segment is longer than the presentation; what the library writes (finding pmp4-elst)
      q == IF t.off > 0 THEN <<ent(Ms(t.off, t.ts), -1), ent(Ms(len, t.ts), 0)>>
           ELSE <<ent(Ms(IF Mem("elst", l.alt) THEN len - t.off ELSE len + t.off, t.ts), -t.off)>>
  IN Box(l, "edts", Times(l, "elst", Full(l, "elst", IF v1 THEN 1 ELSE 0, 0, B4(Len(q)) \o Flat(q))))
Shown(t) == Ms(Length(t) + t.off, t.ts)
Rate(c) == IF Video(c) THEN B4(1000000) ELSE B4(128825)
Trak(kn, l, t, chunks, base) ==
  LET c == t.codec
      r == Rate(c)
      tail == IF Mem("colr", l.alt) THEN Box(l, "pasp", B4(1) \o B4(1)) \o Box(l, "colr", Codes["zzzz"] \o <<1, 2>>) ELSE <<>>
      stsd == Times(l, "stsd", Full(l, "stsd", 0, 0, B4(1) \o Entry(kn, l, c, t.id, r, r, tail)))
      stts == Times(l, "stts", Stts(l, t.samples))
      stsc == Times(l, "stsc", Stsc(l, chunks))
      stsz == Times(l, "stsz", Stsz(l, t.samples))
      stco == Times(l, "stco", Stco(l, chunks, base))
      ss == t.samples
      tables == IF l.tables = "a" THEN stts \o Stss(l, ss) \o Ctts(l, ss) \o stsc \o stsz \o stco
                ELSE stts \o Ctts(l, ss) \o stsz \o stsc \o stco \o Stss(l, ss)
      dur == IF Length(t) + t.off < 0 THEN Z(4) ELSE B4(Shown(t))
  IN Box(l, "trak", Times(l, "tkhd", Tkhd(kn, l, c, B4(t.id), dur)) \o (IF Mem("noedts", l.alt) THEN <<>> ELSE Elst(l, t))
       \o Times(l, "mdia", Box(l, "mdia", Times(l, "mdhd", Mdhd(l, B4(t.ts), BI(Length(t) + t.off))) \o Hdlr(l, c)
            \o Times(l, "minf", Box(l, "minf", Mhd(l, c) \o Dinf(l) \o Times(l, "stbl", Box(l, "stbl", stsd \o tables)))))))
MaxOf(q) == CHOOSE m \in {q[k] : k \in 1 .. Len(q)} \cup {0} : \A k \in 1 .. Len(q) : q[k] <= m
\* what the identifier of a next track would be; alternative "next": what the library writes (finding pmp4-next-id)
Next(l, ts) == LET n == Len(ts) + 1 m == MaxOf([k \in 1 .. Len(ts) |-> ts[k].id]) IN IF Mem("next", l.alt) \/ m < n THEN n ELSE m + 1
Moov(kn, l, ts, chunks, base) ==
  Times(l, "moov", Box(l, "moov", Times(l, "mvhd", Mvhd(l, B4(MaxOf([k \in 1 .. Len(ts) |-> IF Length(ts[k]) + ts[k].off < 0 THEN 0 ELSE Shown(ts[k])])), B4(Next(l, ts))))
                 \o Flat([k \in 1 .. Len(ts) |-> Trak(kn, LayOf(l, ts, k), ts[k], chunks[k], base)])))
IsPlain(l) == l.cut = -1
PlainFile == Plain @@ [cut |-> -1, cut2 |-> 0, order |-> "turn", gap |-> 0, tables |-> "a"]
File(kn, l, ts) ==
  LET plan == IF IsPlain(l) THEN PlainPlan(ts) ELSE OtherPlan(l, ts)
      ftyp == Times(l, "ftyp", Ftyp(l, "isom", <<"isom", "iso2", "mp41", "mp42">>))
      mdat == Box(l, "mdat", plan.data)
      h == IF Mem("mdat", l.big) THEN 16 ELSE 8
      first == Len(ftyp) + h
      last == Len(ftyp) + Len(Moov(kn, l, ts, plan.chunks, 0)) + h
  IN IF Mem("mdat", l.alt) THEN ftyp \o mdat \o Moov(kn, l, ts, plan.chunks, first)
     ELSE ftyp \o Moov(kn, l, ts, plan.chunks, last) \o mdat

Supported(ts) == SelectSeq(ts, LAMBDA t : t.codec.k # "c608")
Tracks(kn, ts) == LET s == Supported(ts) IN [k \in 1 .. Len(s) |-> [s[k] EXCEPT !.codec = View(kn, s[k].codec)]]
\* position of every sample of every track in a file that is read
RECURSIVE Spread(_, _, _)
Spread(chunks, sizes, base) ==
  IF chunks = <<>> THEN <<>>
  ELSE Positions(SubSeq(sizes, 1, chunks[1].n), base + chunks[1].at) \o Spread(Tail(chunks), SubSeq(sizes, chunks[1].n + 1, Len(sizes)), base)

Fail == [err |-> TRUE]
Has(l, ds) == \E k \in 1 .. Len(ds) : Mem(ds[k], l.alt)
\* boxes are missing or repeated
Defective(l, ts) ==
  IF ts = <<>> THEN FALSE
  ELSE LET t == ts[BadTrack(l, ts)] IN
       \/ Has(l, HeadDefects) \/ Has(l, <<"-stts", "+stts">>)
       \/ Mem("+elst", l.alt) /\ ~Mem("noedts", l.alt)
       \/ t.samples # <<>> /\ (Has(l, <<"-stsc", "-stsz", "+stsc">>) \/ (Mem("-stco", l.alt) /\ t.codec.k # "c608"))
Crashed(r) == "panic" \in DOMAIN r \/ "hang" \in DOMAIN r \/ "big" \in DOMAIN r
Wide(t) == IF t.codec.k \in {"lpcm", "mp1a", "ac3", "eac3"} THEN t.codec.rate > 65535 ELSE FALSE
\* what the library may write (in strict cases, only the first)
Written(s) == LET deployed(x) == [PlainFile EXCEPT !.alt = x]
                  all == {<<>>, <<"raw">>, <<"elst">>, <<"next">>, <<"raw", "elst">>, <<"raw", "next">>, <<"elst", "next">>, <<"raw", "elst", "next">>}
              IN {File(s.known, deployed(x), s.tracks) : x \in IF "strict" \in DOMAIN s THEN {<<>>} ELSE all}
Negative(s) == \E k \in 1 .. Len(s.tracks) : Length(s.tracks[k]) + s.tracks[k].off < 0

\* presentations of more than 4 GB: sizes of the samples of the first track in <<MiB, bytes>>
RECURSIVE Huge(_)
Huge(q) == IF q = <<>> THEN <<0, 0>> ELSE LET t == Huge(Tail(q)) IN <<q[1][1] + t[1], q[1][2] + t[2]>>

\* tracks of many or large samples: patterns [n, dur, off, size, gop], of which the k-th sample takes
\* the k-th elements, cyclically; one sample of gop is a sync sample
Cyclic(q, n) == ((n \div Len(q)) * Sum(q)) + Sum(SubSeq(q, 1, n % Len(q)))
Extent(p) == [n |-> p.n, syncs |-> (p.n + p.gop - 1) \div p.gop, bytes |-> Cyclic(p.size, p.n), dur |-> Cyclic(p.dur, p.n), diff |-> <<>>]

StartStates(cfg) == {cfg}
Outcomes(s, e) ==
  LET keep(x) == {[st |-> s, res |-> x]}
      any == IF Crashed(e.r) THEN keep(Fail) ELSE IF PrintT("UNSPECIFIED") THEN keep(e.r) ELSE {}
      odd == \E k \in 1 .. Len(s.tracks) : Unknown(s.known, s.tracks[k].codec)
      ok == \A k \in 1 .. Len(s.tracks) : Valid(s.known, s.tracks[k].codec)
      zero == \E k \in 1 .. Len(s.tracks) : s.tracks[k].ts = 0
      wide == \E k \in 1 .. Len(s.tracks) : Wide(s.tracks[k])
      good == Supported(s.tracks) # <<>>
      none == \A k \in 1 .. Len(s.tracks) : s.tracks[k].samples = <<>>
  IN
  CASE e.op = "huge" ->
         LET h == Huge(e.sizes)
             mib == h[1] + (h[2] \div 1048576)
             rest == h[2] % 1048576
             \* the samples of the track are contiguous: the length of the tables depends on their number only
             head == Len(File(s.known, PlainFile, <<[s.tracks[1] EXCEPT !.samples = [k \in 1 .. Len(e.sizes) |-> [dur |-> 1, off |-> 0, ns |-> FALSE, data |-> <<>>]]]>>))
         IN IF mib > 4095 THEN keep(Fail)
            \* no position exceeds 32 bits
            ELSE IF mib = 4095 /\ rest + head > 1048575 THEN keep(Fail)
            ELSE keep([mib |-> mib + ((rest + head) \div 1048576), rest |-> (rest + head) % 1048576])
    [] e.op = "wide" -> \* every sample is found again as it was
         keep([wide |-> [k \in 1 .. Len(e.pats) |-> Extent(e.pats[k])]])
    [] e.op = "long" -> \* durations of the single track, too long for 32 bits: a failure, or the duration in 64 bits
         {[st |-> s, res |-> x] : x \in {Fail, [ver |-> 1, dur |-> e.total]}}
    [] odd -> any
    [] e.op = "marshal" -> IF zero \/ Negative(s) THEN any ELSE IF ok THEN {[st |-> s, res |-> [buf |-> b]] : b \in Written(s)} ELSE keep(Fail)
    [] e.op = "fail" -> IF zero THEN any ELSE IF none THEN any ELSE keep(Fail) \* a payload cannot be obtained
    [] e.op = "round" ->
         IF zero THEN any ELSE IF ~ok THEN keep(Fail) ELSE IF ~good THEN any ELSE IF wide THEN any
         ELSE keep([tracks |-> Tracks(s.known, s.tracks)])
    [] e.op \in {"unmarshal", "after"} ->
         IF "damaged" \in DOMAIN e THEN any
         ELSE IF ~ok THEN any ELSE IF wide THEN any
         ELSE IF e.buf # File(s.known, e.lay, s.tracks) THEN any
         ELSE IF ~good \/ zero \/ Defective(e.lay, s.tracks) THEN keep(Fail)
         ELSE IF Has(e.lay, TableDefects) THEN any
         ELSE IF \E k \in 1 .. Len(s.tracks) : Lacks(e.lay, s.tracks[k].codec) THEN keep(Fail)
         \* 64-bit offsets are not supported; without chunks, any offset will do
         ELSE IF Mem("co64", e.lay.alt) THEN (IF none THEN any ELSE IF \E k \in 1 .. Len(s.tracks) : s.tracks[k].codec.k # "c608" /\ s.tracks[k].samples # <<>> THEN keep(Fail) ELSE any)
         ELSE IF e.op = "unmarshal" THEN keep([tracks |-> Tracks(s.known, s.tracks)])
         ELSE \* after opening, the file shrinks to n bytes, or (n < 0) seeking fails: the samples that are still there, errors for the others
              LET sup == Supported(s.tracks)
                  plan == OtherPlan(e.lay, s.tracks)
                  ks == SelectSeq(Numbers(Len(s.tracks)), LAMBDA k : s.tracks[k].codec.k # "c608")
                  h == IF Mem("mdat", e.lay.big) THEN 16 ELSE 8
                  ftyp == Len(Ftyp(e.lay, "isom", <<"isom", "iso2", "mp41", "mp42">>))
                  base == IF Mem("mdat", e.lay.alt) THEN ftyp + h ELSE ftyp + Len(Moov(s.known, e.lay, s.tracks, plan.chunks, 0)) + h
                  one(k, m, at) == LET d == s.tracks[k].samples[m].data IN
                     IF e.n < 0 THEN Fail ELSE IF d = <<>> \/ at[m] + Len(d) <= e.n THEN [data |-> d] ELSE Fail
              IN keep([payloads |-> [q \in 1 .. Len(ks) |-> LET k == ks[q] at == Spread(plan.chunks[k], Sizes(s.tracks[k].samples), base) IN
                   [m \in 1 .. Len(at) |-> one(k, m, at)]]])
=============================================================================
