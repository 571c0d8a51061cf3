----------------------------- MODULE GenH264Sps -----------------------------
(* SPSs encoded from the syntax tables: every interesting value of every    *)
(* syntax element on several bases, random assignments, truncations.        *)
EXTENDS H264Sps, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
UEs == <<Zero, <<0, 1>>, <<0, 3>>, <<0, 7>>, <<0, 255>>, <<0, 65535>>, <<1, 0>>, <<65535, 65534>>>>
UES == <<Zero, <<0, 1>>, <<0, 2>>, <<0, 5>>, <<0, 30>>>>
SEs == <<ZeroS, SL(1), SL(-1), SL(2), SL(-2), SL(127), SL(-128), SL(70000), SL(-70000)>>
FS == <<FALSE, TRUE>>
TF == <<TRUE, FALSE>>
Wide == <<<<0, 1001>>, <<0, 0>>, <<0, 1>>, <<65535, 65535>>, <<1, 34463>>, <<15, 16960>>, <<0, 60000>>>>
Deltas == <<<<0>>, <<1, -1>>, <<-8>>, <<5, -3, 2>>, <<3, -11>>, <<100, -100>>, <<127, -128, 3>>, <<-128, 127>>, <<8, 8>>, <<-4, -4>>, <<-200, 3>>>>
Vals ==
  [profile |-> <<66, 77, 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135, 88, 0, 255, 99, 101>>, level |-> <<31, 0, 255, 10>>,
   c0 |-> FS, c1 |-> FS, c2 |-> FS, c3 |-> FS, c4 |-> FS, c5 |-> FS,
   id |-> UEs, chroma |-> <<<<0, 1>>, Zero, <<0, 2>>, <<0, 3>>>>, separate |-> FS, depth_luma |-> UES, depth_chroma |-> UES,
   qpprime |-> FS, matrix_present |-> FS,
   lists |-> << <<[present |-> FALSE, deltas |-> <<0>>]>>,
                <<[present |-> TRUE, deltas |-> Deltas[1]]>>,
                [i \in 1 .. Len(Deltas) |-> [present |-> TRUE, deltas |-> Deltas[i]]],
                [i \in 1 .. Len(Deltas) |-> [present |-> i % 2 = 0, deltas |-> Deltas[Len(Deltas) + 1 - i]]],
                <<[present |-> TRUE, deltas |-> <<3, -11>>], [present |-> FALSE, deltas |-> <<0>>], [present |-> TRUE, deltas |-> <<-8>>]>> >>,
   log2_fn |-> UES, poc_type |-> <<Zero, <<0, 1>>, <<0, 2>>, <<0, 1>>, <<0, 3>>>>, log2_poc |-> UES,
   delta_zero |-> FS, off_nonref |-> SEs, off_bottom |-> SEs,
   n_ref |-> <<Zero, <<0, 1>>, <<0, 2>>, <<0, 255>>, <<0, 256>>, <<1, 0>>>>,
   offs |-> <<[i \in 1 .. Len(SEs) |-> [off |-> SEs[i]]], <<[off |-> SL(5)], [off |-> SL(-5)]>>>>,
   max_ref |-> UES, gaps |-> FS,
   width |-> <<<<0, 119>>, <<0, 0>>, <<0, 39>>, <<0, 255>>, <<0, 65535>>, <<1, 5>>>>,
   height |-> <<<<0, 67>>, <<0, 0>>, <<0, 33>>, <<0, 29>>, <<0, 65535>>, <<1, 5>>>>,
   frame_only |-> TF, mbaff |-> FS, direct8 |-> FS, crop_present |-> FS,
   crop_l |-> <<Zero, <<0, 1>>, <<0, 3>>, <<0, 65535>>>>, crop_r |-> <<Zero, <<0, 2>>, <<0, 4>>, <<1, 0>>>>,
   crop_t |-> <<Zero, <<0, 1>>, <<0, 5>>>>, crop_b |-> <<Zero, <<0, 4>>, <<0, 7>>>>,
   vui_present |-> FS, ar_present |-> FS, ar_idc |-> <<1, 255, 0, 254>>, sar_w |-> <<0, 1, 65535>>, sar_h |-> <<0, 1, 65535>>,
   overscan_present |-> FS, overscan |-> FS, signal_present |-> FS, video_format |-> <<5, 0, 7>>, full_range |-> FS,
   colour_present |-> FS, primaries |-> <<1, 0, 255>>, transfer |-> <<2, 0, 255>>, matrix |-> <<3, 0, 255>>,
   loc_present |-> FS, loc_top |-> UES, loc_bottom |-> UES,
   timing_present |-> FS, units |-> Wide, scale |-> <<<<0, 60000>>, <<0, 50>>, <<0, 0>>, <<0, 1>>, <<65535, 65535>>, <<1, 34463>>, <<2, 43712>>>>,
   fixed_rate |-> FS, low_delay |-> FS, pic_struct |-> FS,
   nal_present |-> FS, nal_cpb_cnt |-> <<Zero, <<0, 1>>, <<0, 31>>, <<0, 32>>>>, nal_bit_rate_scale |-> <<0, 15, 6>>, nal_cpb_size_scale |-> <<0, 15, 9>>,
   nal_cpb |-> <<[i \in 1 .. Len(UEs) |-> [rate |-> UEs[i], size |-> UEs[Len(UEs) + 1 - i], cbr |-> i % 3 = 1]]>>,
   nal_init |-> <<23, 0, 31>>, nal_rem |-> <<22, 0, 31>>, nal_out |-> <<21, 0, 31>>, nal_off |-> <<20, 0, 31>>,
   vcl_present |-> FS, vcl_cpb_cnt |-> <<Zero, <<0, 1>>, <<0, 2>>>>, vcl_bit_rate_scale |-> <<0, 15, 6>>, vcl_cpb_size_scale |-> <<0, 15, 9>>,
   vcl_cpb |-> <<[i \in 1 .. Len(UEs) |-> [rate |-> UEs[Len(UEs) + 1 - i], size |-> UEs[i], cbr |-> i % 2 = 1]]>>,
   vcl_init |-> <<23, 0, 31>>, vcl_rem |-> <<22, 0, 31>>, vcl_out |-> <<21, 0, 31>>, vcl_off |-> <<20, 0, 31>>,
   restriction_present |-> FS, mv_over |-> FS, max_bytes |-> UES, max_bits |-> UES, mv_h |-> UES, mv_v |-> UES, reorder |-> UES, buffering |-> UES]

B0 == Default(Vals)
BHigh == [B0 EXCEPT !.profile = 100, !.matrix_present = TRUE, !.crop_present = TRUE, !.crop_l = <<0, 1>>, !.crop_b = <<0, 4>>]
B444 == [BHigh EXCEPT !.profile = 244, !.chroma = <<0, 3>>, !.lists = Vals.lists[3]]
BPoc1 == [B0 EXCEPT !.poc_type = <<0, 1>>, !.n_ref = <<0, 2>>, !.crop_present = TRUE, !.frame_only = FALSE]
BVui == [B0 EXCEPT !.vui_present = TRUE, !.ar_present = TRUE, !.ar_idc = 255, !.overscan_present = TRUE, !.signal_present = TRUE,
                   !.colour_present = TRUE, !.loc_present = TRUE, !.timing_present = TRUE, !.nal_present = TRUE, !.nal_cpb_cnt = <<0, 1>>,
                   !.vcl_present = TRUE, !.restriction_present = TRUE]
Bases == <<B0, BHigh, B444, BPoc1, BVui, [BVui EXCEPT !.vcl_present = FALSE], [BVui EXCEPT !.nal_present = FALSE]>>

Nal(v) == <<103>> \o AddEPB(RBSP(Encode(Sps, v)))
C(b) == [cfg |-> [x |-> 0], ops |-> <<[op |-> "sps", buf |-> b]>>]

Singles == SinglesOf(Vals, Bases)
Order == OrderOf(Vals)
NRandom == IF Deep THEN 12000 ELSE 700
Total == Len(Singles) + NRandom
One(i) == C(Nal(PickOne(Vals, Bases, Singles, Order, Seed, i)))

NalOfBase == [b \in 1 .. Len(Bases) |-> Nal(Bases[b])]
Extra == SetToSeq(UNION {{C(SubSeq(NalOfBase[b], 1, k)) : k \in 0 .. Len(NalOfBase[b])} : b \in 1 .. Len(Bases)})
         \o [h \in 1 .. 256 |-> C(<<h - 1>> \o Tail(NalOfBase[1]))]
ASSUME ndJsonSerialize(IOEnv.OUT, Extra)
VARIABLES gi, gc
INSTANCE GenRun
=============================================================================
