---------------------------- MODULE GenVideoHdr -----------------------------
EXTENDS VideoHdr, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
FS == <<FALSE, TRUE>>
Wide == <<<<0, 1001>>, <<0, 0>>, <<65535, 65535>>, <<1, 34463>>>>
Vals ==
  [profile |-> <<0, 1, 2, 2, 3>>, still |-> FS, reduced |-> <<FALSE, FALSE, TRUE>>, level0 |-> <<0, 8, 31>>,
   timing |-> FS, units |-> Wide, scale |-> Wide, equal |-> FS, ticks |-> <<<<0, 0>>, <<0, 1>>, <<0, 254>>, <<1, 5>>, <<65535, 65534>>>>,
   model |-> <<FALSE, FALSE, FALSE, TRUE>>, delay |-> <<FALSE, FALSE, FALSE, TRUE>>, opcnt |-> <<0, 1, 2, 31>>,
   ops |-> <<<<[idc |-> 0, lev |-> 5, tier |-> TRUE]>>,
             <<[idc |-> 257, lev |-> 8, tier |-> TRUE], [idc |-> 4095, lev |-> 7, tier |-> FALSE], [idc |-> 2048, lev |-> 31, tier |-> FALSE]>>>>,
   wbits |-> <<10, 0, 15, 7, 8>>, hbits |-> <<10, 0, 15, 7, 8>>, width |-> <<1919, 0, 1, 1365, 65535>>, height |-> <<1079, 0, 1, 1365, 65535>>,
   frameid |-> FS, delta_id |-> <<0, 9, 15>>, add_id |-> <<0, 5, 7>>,
   sb128 |-> FS, filter_intra |-> FS, intra_edge |-> FS, interintra |-> FS, masked |-> FS, warped |-> FS, dual |-> FS,
   order_hint |-> <<TRUE, FALSE>>, jnt |-> FS, refmvs |-> FS, choose_sct |-> <<TRUE, FALSE>>, force_sct |-> <<0, 1>>,
   choose_mv |-> <<TRUE, FALSE>>, force_mv |-> <<0, 1>>, hint_bits |-> <<6, 0, 7>>,
   superres |-> FS, cdef |-> FS, restoration |-> FS,
   high |-> FS, twelve |-> FS, mono |-> FS, cdesc |-> FS, cp |-> <<1, 1, 2, 9, 255>>, tc |-> <<13, 13, 1, 255>>, mc |-> <<0, 0, 1, 255>>,
   crange |-> FS, subx |-> FS, suby |-> FS, csp |-> <<1, 0, 2, 3>>, uvdelta |-> FS, grain |-> FS]
B0 == Default(Vals)
Bases == <<B0, [B0 EXCEPT !.profile = 2, !.high = TRUE, !.twelve = TRUE, !.subx = TRUE],
           [B0 EXCEPT !.reduced = TRUE, !.grain = TRUE], [B0 EXCEPT !.cdesc = TRUE, !.uvdelta = TRUE],
           [B0 EXCEPT !.cdesc = TRUE, !.cp = 9, !.profile = 1, !.timing = TRUE, !.equal = TRUE],
           [B0 EXCEPT !.opcnt = 2, !.ops = Vals.ops[2], !.frameid = TRUE, !.choose_sct = FALSE],
           [B0 EXCEPT !.mono = TRUE, !.choose_mv = FALSE, !.force_mv = 1]>>
Clip(v) == [[v EXCEPT !.width = v.width % (2 ^ (v.wbits + 1))] EXCEPT !.height = v.height % (2 ^ (v.hbits + 1))]
Payload(v) == RBSP(Encode(SeqHdr, Clip(v)))
Leb(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128), n \div 128>>
Obu(v) == <<8>> \o Payload(v)
Sized(v) == LET p == Payload(v) IN <<10>> \o Leb(Len(p)) \o p
C(b) == [cfg |-> [x |-> 0], ops |-> <<[op |-> "av1", buf |-> b]>>]
C9(b) == [cfg |-> [x |-> 0], ops |-> <<[op |-> "vp9", buf |-> b]>>]

Vals9 ==
  [marker |-> <<2, 2, 2, 2, 2, 2, 2, 0, 1, 3>>, lo |-> <<0, 1>>, hi |-> <<0, 1>>, existing |-> <<FALSE, FALSE, FALSE, TRUE>>, idx |-> <<5, 0, 7>>,
   nonkey |-> <<FALSE, FALSE, TRUE>>, show |-> <<TRUE, FALSE>>, resilient |-> FS,
   sync0 |-> <<73, 73, 73, 73, 73, 72, 131>>, sync1 |-> <<131, 131, 131, 131, 131, 130>>, sync2 |-> <<66, 66, 66, 66, 66, 67>>,
   twelve |-> FS, space |-> <<1, 0, 2, 3, 4, 5, 6, 7, 7>>, crange |-> FS, sx |-> FS, sy |-> FS,
   w |-> <<1919, 0, 1, 255, 256, 65535>>, h |-> <<1079, 0, 1, 255, 256, 65535>>]
D0 == Default(Vals9)
Bases9 == <<D0, [D0 EXCEPT !.lo = 1], [D0 EXCEPT !.hi = 1], [D0 EXCEPT !.hi = 1, !.lo = 1], [D0 EXCEPT !.lo = 1, !.space = 7],
            [D0 EXCEPT !.existing = TRUE], [D0 EXCEPT !.nonkey = TRUE]>>
Frame(v) == Bytes(Encode(Vp9, v))

Singles == SinglesOf(Vals, Bases)
Order == OrderOf(Vals)
Singles9 == SinglesOf(Vals9, Bases9)
Order9 == OrderOf(Vals9)
K == IF Deep THEN 8000 ELSE 800
N1 == Len(Singles) + K
Total == N1 + Len(Singles9) + K
One(i) == IF i <= N1 THEN C(IF i % 3 = 0 THEN Sized(PickOne(Vals, Bases, Singles, Order, Seed, i))
                           ELSE Obu(PickOne(Vals, Bases, Singles, Order, Seed, i)))
          ELSE C9(Frame(PickOne(Vals9, Bases9, Singles9, Order9, Seed, i - N1)))

ObuOf == [b \in 1 .. Len(Bases) |-> Obu(Bases[b])]
SizedOf == [b \in 1 .. Len(Bases) |-> Sized(Bases[b])]
Cuts(b) == {SubSeq(b, 1, k) : k \in 0 .. Len(b)}
FrameOf == [b \in 1 .. Len(Bases9) |-> Frame(Bases9[b])]
Extra == SetToSeq({C(x) : x \in UNION {Cuts(ObuOf[b]) \cup Cuts(SizedOf[b]) : b \in 1 .. Len(Bases)}})
         \o [h \in 1 .. 256 |-> C(<<h - 1>> \o Tail(ObuOf[1]))] \o [h \in 1 .. 256 |-> C(<<h - 1>> \o Tail(SizedOf[1]))]
         \o [h \in 1 .. 256 |-> C(<<10, h - 1>> \o Tail(Tail(SizedOf[1])))]
         \o SetToSeq({C9(x) : x \in UNION {Cuts(FrameOf[b]) : b \in 1 .. Len(Bases9)}})
         \o SetToSeq({C9(<<a, b>>) : a \in 0 .. 255, b \in {0, 73, 255}}) \o [a \in 1 .. 256 |-> C9(<<a - 1>>)]
ASSUME ndJsonSerialize(IOEnv.OUT, Extra)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
