----------------------------- MODULE GenH265Ps ------------------------------
EXTENDS H265Ps, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
FS == <<FALSE, TRUE>>
UES == <<Zero, <<0, 1>>, <<0, 2>>, <<0, 5>>, <<0, 255>>, <<0, 256>>>>
UEL == <<Zero, <<0, 1>>, <<0, 30>>, <<0, 65535>>, <<1, 0>>, <<65535, 65534>>>>
Wide == <<<<0, 1001>>, <<0, 0>>, <<0, 1>>, <<65535, 65535>>, <<1, 34463>>, <<15, 16960>>, <<0, 60000>>>>
E(d, u) == [d |-> <<0, d>>, used |-> u]
\* short-term reference picture sets: explicit and predicted
X(neg, pos) == [inter |-> FALSE, nneg |-> <<0, Len(neg)>>, npos |-> <<0, Len(pos)>>,
                neg |-> IF neg = <<>> THEN <<E(0, TRUE)>> ELSE neg, pos |-> IF pos = <<>> THEN <<E(0, TRUE)>> ELSE pos]
I(sign, abs, n, flags) == [inter |-> TRUE, sign |-> sign, abs |-> <<0, abs>>, nflags |-> n, flags |-> flags]
T == [used |-> TRUE, use |-> TRUE]
Fu == [used |-> FALSE, use |-> TRUE]
Ff == [used |-> FALSE, use |-> FALSE]
X1 == X(<<E(0, TRUE), E(1, FALSE), E(3, TRUE)>>, <<E(0, FALSE), E(2, TRUE)>>)
X2 == X(<<E(0, TRUE)>>, <<>>)
X3 == X(<<>>, <<E(1, TRUE)>>)
X4 == X(<<E(0, TRUE), E(0, TRUE)>>, <<E(0, TRUE), E(0, FALSE), E(4, TRUE)>>)
\* flag counts: the number of pictures of the previous set, plus one
SetLists == <<
  <<X1>>, <<X1, X2, X3, X4>>, <<X(<<>>, <<>>)>>,
  <<X1, I(TRUE, 0, 6, <<T, Fu, Ff, T>>)>>, <<X1, I(FALSE, 1, 6, <<T, T, Fu>>)>>, <<X1, I(TRUE, 7, 6, <<T>>)>>,
  <<X2, I(FALSE, 0, 2, <<T, Fu>>), X4>>, <<X3, I(TRUE, 2, 2, <<Fu, T>>)>>, <<X4, I(FALSE, 3, 6, <<Fu, T, Ff>>)>>,
  <<X2, I(TRUE, 4, 2, <<T>>), I(TRUE, 1, 3, <<T, Fu>>), I(FALSE, 2, 4, <<T>>)>>,
  <<X1, I(TRUE, 0, 6, <<Ff>>), I(TRUE, 0, 1, <<T>>), I(FALSE, 5, 2, <<T>>)>>,
  <<[X2 EXCEPT !.nneg = <<0, 255>>]>>, <<[X2 EXCEPT !.nneg = <<0, 256>>]>>, <<[X3 EXCEPT !.npos = <<0, 255>>]>>, <<[X3 EXCEPT !.npos = <<0, 256>>]>>,
  <<[X4 EXCEPT !.nneg = <<0, 16>>, !.npos = <<0, 16>>]>>>>
Lists ==
  <<<<[mode |-> FALSE, delta |-> Zero, dc |-> SL(0), coefs |-> <<SL(0)>>]>>,
    <<[mode |-> TRUE, delta |-> Zero, dc |-> SL(5), coefs |-> <<SL(1), SL(-1)>>],
      [mode |-> FALSE, delta |-> <<0, 2>>, dc |-> SL(0), coefs |-> <<SL(0)>>],
      [mode |-> TRUE, delta |-> Zero, dc |-> SL(-7), coefs |-> <<SL(0), SL(100), SL(-100)>>]>>,
    <<[mode |-> FALSE, delta |-> <<0, 1>>, dc |-> SL(0), coefs |-> <<SL(0)>>],
      [mode |-> TRUE, delta |-> Zero, dc |-> SL(247), coefs |-> <<SL(0)>>]>>>>
Compats == <<[i \in 1 .. 32 |-> i \in {2, 3}], [i \in 1 .. 32 |-> i = 6], [i \in 1 .. 32 |-> i = 10],
             [i \in 1 .. 32 |-> i = 11], [i \in 1 .. 32 |-> i = 12], [i \in 1 .. 32 |-> i % 3 = 0],
             [i \in 1 .. 32 |-> i = 32], [i \in 1 .. 32 |-> i = 5]>>
Vals ==
  [vps |-> <<0, 5, 15>>, maxsub |-> <<0, 1, 2, 6, 7>>, nesting |-> FS,
   space |-> <<0, 1, 3>>, tier |-> <<0, 1>>, profile |-> <<1, 2, 4, 5, 9, 10, 11, 31>>, compat |-> Compats,
   progressive |-> FS, interlaced |-> FS, nonpacked |-> FS, frameonly |-> FS, max12 |-> FS, max10 |-> FS, max8 |-> FS,
   max422 |-> FS, max420 |-> FS, mono |-> FS, intra |-> FS, onepic |-> FS, lower |-> FS, max14 |-> <<TRUE, FALSE>>,
   level |-> <<93, 0, 255>>,
   sub |-> <<<<[p |-> FALSE, l |-> FALSE]>>, <<[p |-> FALSE, l |-> FALSE]>>, <<[p |-> FALSE, l |-> FALSE]>>, <<[p |-> FALSE, l |-> TRUE]>>, <<[p |-> FALSE, l |-> FALSE], [p |-> TRUE, l |-> FALSE]>>>>,
   subpad |-> <<<<[x |-> 0]>>>>,
   id |-> <<Zero, <<0, 3>>, <<0, 15>>, <<0, 16>>>>, chroma |-> <<<<0, 1>>, Zero, <<0, 2>>, <<0, 3>>, <<0, 4>>>>, separate |-> FS,
   width |-> <<<<0, 1920>>, <<0, 1>>, <<0, 65535>>, <<2, 0>>, <<65535, 65534>>>>,
   height |-> <<<<0, 1088>>, <<0, 1>>, <<0, 65535>>, <<2, 0>>, <<65535, 65534>>>>,
   conf_present |-> FS, conf_l |-> <<Zero, <<0, 3>>, <<0, 65535>>>>, conf_r |-> <<Zero, <<0, 2>>>>, conf_t |-> <<Zero, <<0, 1>>>>, conf_b |-> <<<<0, 4>>, Zero, <<1, 1>>>>,
   depth_luma |-> UES, depth_chroma |-> UES, log2_poc |-> UES, ordering_present |-> <<TRUE, FALSE>>,
   ordering |-> <<<<[buf |-> <<0, 4>>, reorder |-> <<0, 2>>, latency |-> <<0, 1>>]>>,
                  <<[buf |-> <<0, 4>>, reorder |-> <<0, 2>>, latency |-> <<0, 5>>], [buf |-> <<0, 3>>, reorder |-> <<0, 1>>, latency |-> Zero],
                    [buf |-> <<0, 1>>, reorder |-> Zero, latency |-> <<65535, 65534>>]>>>>,
   min_cb |-> UES, diff_cb |-> UES, min_tb |-> UES, diff_tb |-> UES, depth_inter |-> UES, depth_intra |-> UES,
   scaling_enabled |-> FS, scaling_present |-> FS, scaling |-> Lists,
   amp |-> FS, sao |-> FS, pcm |-> FS, pcm_luma |-> <<7, 0, 15>>, pcm_chroma |-> <<3, 0, 15>>, pcm_min |-> UES, pcm_diff |-> UES, pcm_loop |-> FS,
   rpslists |-> SetLists, toomany |-> <<0, 0, 0, 0, 0, 0, 64, 65>>,
   longterm |-> FS, nlong |-> <<Zero, Zero, <<0, 1>>>>, mvp |-> FS, smoothing |-> FS,
   vui_present |-> FS, ar_present |-> FS, ar_idc |-> <<1, 255, 0, 254>>, sar_w |-> <<0, 1, 65535>>, sar_h |-> <<0, 1, 65535>>,
   overscan_present |-> FS, overscan |-> FS, signal_present |-> FS, video_format |-> <<5, 0, 7>>, full_range |-> FS,
   colour_present |-> FS, primaries |-> <<1, 0, 255>>, transfer |-> <<2, 0, 255>>, matrix |-> <<3, 0, 255>>,
   loc_present |-> FS, loc_top |-> UES, loc_bottom |-> UES, neutral |-> FS, field_seq |-> FS, frame_field |-> FS,
   disp_present |-> FS, disp_l |-> UEL, disp_r |-> UES, disp_t |-> UES, disp_b |-> UEL,
   timing_present |-> FS, units |-> Wide, scale |-> <<<<0, 60000>>, <<0, 50>>, <<0, 0>>, <<0, 1>>, <<65535, 65535>>, <<1, 34463>>, <<2, 43712>>>>,
   poc_prop |-> FS, ticks |-> UEL]

B0 == Default(Vals)
B1 == [B0 EXCEPT !.conf_present = TRUE, !.scaling_enabled = TRUE, !.scaling_present = TRUE, !.scaling = Lists[2], !.pcm = TRUE, !.longterm = TRUE]
B2 == [B0 EXCEPT !.rpslists = SetLists[2], !.maxsub = 2, !.ordering = Vals.ordering[2], !.chroma = <<0, 3>>, !.conf_present = TRUE]
B3 == [B0 EXCEPT !.vui_present = TRUE, !.ar_present = TRUE, !.ar_idc = 255, !.overscan_present = TRUE, !.signal_present = TRUE,
                 !.colour_present = TRUE, !.loc_present = TRUE, !.disp_present = TRUE, !.timing_present = TRUE, !.poc_prop = TRUE, !.profile = 5]
B4 == [B0 EXCEPT !.rpslists = SetLists[10], !.longterm = TRUE]
Bases == <<B0, B1, B2, B3, B4>>
Real(v) == v @@ [rps |-> v.rpslists, nrps |-> IF v.toomany # 0 THEN <<0, v.toomany>> ELSE <<0, Len(v.rpslists)>>]
\* encoding of the reference picture sets needs the index only (nflags, not prev)

Nal(v) == <<66, 1>> \o AddEPB(RBSP(Encode(Sps, Real(v))))
C(b) == [cfg |-> [x |-> 0], ops |-> <<[op |-> "sps", buf |-> b]>>]
CP(b) == [cfg |-> [x |-> 0], ops |-> <<[op |-> "pps", buf |-> b]>>]

Singles == SinglesOf(Vals, Bases)
Order == OrderOf(Vals)
NRandom == IF Deep THEN 8000 ELSE 700
Total == Len(Singles) + NRandom
One(i) == C(Nal(PickOne(Vals, Bases, Singles, Order, Seed, i)))

PpsNal(v) == <<68, 1>> \o AddEPB(RBSP(Encode(Pps, v)))
PpsVals == {[id |-> i, sps |-> p, dependent |-> d, output |-> o, extra |-> x] :
            i \in {Zero, <<0, 1>>, <<0, 63>>, <<0, 64>>, <<1, 0>>}, p \in {Zero, <<0, 2>>, <<0, 15>>, <<0, 255>>}, d \in BOOLEAN, o \in BOOLEAN, x \in 0 .. 7}
P0 == PpsNal([id |-> <<0, 1>>, sps |-> <<0, 2>>, dependent |-> TRUE, output |-> FALSE, extra |-> 5])
NalOfBase == [b \in 1 .. Len(Bases) |-> Nal(Bases[b])]
Extra == SetToSeq(UNION {{C(SubSeq(NalOfBase[b], 1, k)) : k \in 0 .. Len(NalOfBase[b])} : b \in 1 .. Len(Bases)})
         \o [h \in 1 .. 256 |-> C(<<h - 1>> \o Tail(NalOfBase[1]))]
         \o [h \in 1 .. 256 |-> CP(<<h - 1>> \o Tail(P0))]
         \o SetToSeq({CP(PpsNal(v)) : v \in PpsVals}) \o SetToSeq({CP(SubSeq(P0, 1, k)) : k \in 0 .. Len(P0)})
         \o SetToSeq({CP(<<68, 1, a, b>>) : a \in 0 .. 255, b \in {0, 1, 128, 255, 90}})
ASSUME ndJsonSerialize(IOEnv.OUT, Extra)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
