------------------------------- MODULE H264Sps ------------------------------
(***************************************************************************)
(* h264.SPS: ITU-T H.264 7.3.2.1.1 (sequence parameter set data),          *)
(* 7.3.2.1.1.1 (scaling lists), E.1.1 (VUI), E.1.2 (HRD).                  *)
(***************************************************************************)
EXTENDS Syntax, Epb

\* ---- syntax tables
Hrd(n) == <<
  <<"ue", n \o "cpb_cnt">>, <<"check", n \o "cpb32">>,
  <<"u", n \o "bit_rate_scale", 4>>, <<"u", n \o "cpb_size_scale", 4>>,
  <<"rep", n \o "cpb", n \o "cpb",
    <<<<"ue", "rate">>, <<"ue", "size">>, <<"f", "cbr">>>>>>,
  <<"u", n \o "init", 5>>, <<"u", n \o "rem", 5>>, <<"u", n \o "out", 5>>, <<"u", n \o "off", 5>>>>

Vui == <<
  <<"f", "ar_present">>,
  <<"if", "ar_present", <<
     <<"u", "ar_idc", 8>>,
     <<"if", "sar", <<<<"u", "sar_w", 16>>, <<"u", "sar_h", 16>>>>>>>>>>,
  <<"f", "overscan_present">>,
  <<"if", "overscan_present", <<<<"f", "overscan">>>>>>,
  <<"f", "signal_present">>,
  <<"if", "signal_present", <<
     <<"u", "video_format", 3>>, <<"f", "full_range">>, <<"f", "colour_present">>,
     <<"if", "colour_present", <<<<"u", "primaries", 8>>, <<"u", "transfer", 8>>, <<"u", "matrix", 8>>>>>>>>>>,
  <<"f", "loc_present">>,
  <<"if", "loc_present", <<<<"ue", "loc_top">>, <<"ue", "loc_bottom">>>>>>,
  <<"f", "timing_present">>,
  <<"if", "timing_present", <<<<"w", "units", 32>>, <<"w", "scale", 32>>, <<"f", "fixed_rate">>>>>>,
  <<"f", "nal_present">>, <<"if", "nal_present", Hrd("nal_")>>,
  <<"f", "vcl_present">>, <<"if", "vcl_present", Hrd("vcl_")>>,
  <<"if", "any_hrd", <<<<"f", "low_delay">>>>>>,
  <<"f", "pic_struct">>,
  <<"f", "restriction_present">>,
  <<"if", "restriction_present", <<
     <<"f", "mv_over">>, <<"ue", "max_bytes">>, <<"ue", "max_bits">>, <<"ue", "mv_h">>, <<"ue", "mv_v">>,
     <<"ue", "reorder">>, <<"ue", "buffering">>>>>>>>

Sps == <<
  <<"u", "profile", 8>>,
  <<"f", "c0">>, <<"f", "c1">>, <<"f", "c2">>, <<"f", "c3">>, <<"f", "c4">>, <<"f", "c5">>, <<"fix", 2, 0>>,
  <<"u", "level", 8>>,
  <<"ue", "id">>,
  <<"if", "high", <<
     <<"ue", "chroma">>, <<"range", "chroma">>,
     <<"if", "444", <<<<"f", "separate">>>>>>,
     <<"ue", "depth_luma">>, <<"ue", "depth_chroma">>, <<"f", "qpprime">>,
     <<"f", "matrix_present">>,
     <<"if", "matrix_present", <<
        <<"rep", "lists", "lists", <<<<"f", "present">>, <<"if", "present", <<<<"ext", "list">>>>>>>>>>>>>>>>>>,
  <<"ue", "log2_fn">>,
  <<"ue", "poc_type">>, <<"check", "poc_type">>,
  <<"if", "poc0", <<<<"ue", "log2_poc">>>>>>,
  <<"if", "poc1", <<
     <<"f", "delta_zero">>, <<"se", "off_nonref">>, <<"se", "off_bottom">>,
     <<"ue", "n_ref">>, <<"check", "n_ref">>,
     <<"rep", "offs", "n_ref", <<<<"se", "off">>>>>>>>>>,
  <<"ue", "max_ref">>, <<"f", "gaps">>,
  <<"ue", "width">>, <<"ue", "height">>,
  <<"f", "frame_only">>,
  <<"if", "fields", <<<<"f", "mbaff">>>>>>,
  <<"f", "direct8">>,
  <<"f", "crop_present">>,
  <<"if", "crop_present", <<<<"ue", "crop_l">>, <<"ue", "crop_r">>, <<"ue", "crop_t">>, <<"ue", "crop_b">>>>>>,
  <<"f", "vui_present">>,
  <<"if", "vui_present", Vui>>>>

High == {100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}

Has(v, n) == n \in DOMAIN v
ChromaOf(v) == IF v.profile \in High THEN N(v.chroma) ELSE 1

MyCond(c, v) ==
  CASE c = "high" -> v.profile \in High
    [] c = "chroma" -> N(v.chroma) <= 3
    [] c = "444" -> N(v.chroma) = 3
    [] c = "poc_type" -> N(v.poc_type) <= 2
    [] c = "poc0" -> N(v.poc_type) = 0
    [] c = "poc1" -> N(v.poc_type) = 1
    [] c = "n_ref" -> N(v.n_ref) <= 255
    [] c = "fields" -> ~v.frame_only
    [] c = "sar" -> v.ar_idc = 255
    [] c = "any_hrd" -> v.nal_present \/ v.vcl_present
    [] c = "nal_cpb32" -> N(v.nal_cpb_cnt) <= 31
    [] c = "vcl_cpb32" -> N(v.vcl_cpb_cnt) <= 31
    [] OTHER -> v[c]
MyCount(c, v) ==
  CASE c = "lists" -> IF N(v.chroma) = 3 THEN 12 ELSE 8
    [] c = "n_ref" -> N(v.n_ref)
    [] c = "nal_cpb" -> N(v.nal_cpb_cnt) + 1
    [] c = "vcl_cpb" -> N(v.vcl_cpb_cnt) + 1
MyCalc(c, v) == 0

\* scaling_list(): deltas are read until the scale becomes 0, which repeats the last one
ScalingStep(st, size) ==
  IF ~st.ok \/ st.next = 0 THEN [st EXCEPT !.list = Append(@, st.last)]
  ELSE With(LAMBDA d :
         IF ~d.ok THEN [st EXCEPT !.ok = FALSE, !.list = Append(@, 0)]
         ELSE With(LAMBDA delta :
                With(LAMBDA nx :
                  [s |-> d, ok |-> TRUE, next |-> nx, last |-> IF nx = 0 THEN st.last ELSE nx,
                   list |-> Append(st.list, IF nx = 0 THEN st.last ELSE nx),
                   odd |-> st.odd \/ delta < -128 \/ delta > 127,
                   def |-> st.def \/ (st.list = <<>> /\ nx = 0)],
                  (st.last + delta + 256) % 256),
                SN(d.v.d)),
         RdSE([st.s EXCEPT !.v = NoValues], "d"))
MyExt(name, s) ==
  With(LAMBDA r :
    IF ~r.ok THEN [Bad(s) EXCEPT !.odd = @ \/ r.odd]
    ELSE [s EXCEPT !.p = r.s.p, !.odd = @ \/ r.odd,
                   !.v = @ @@ ("list" :> r.list) @@ ("default" :> r.def)],
    LET size == IF s.ctx.i <= 6 THEN 16 ELSE 64 IN
    FoldLeft(LAMBDA st, k : ScalingStep(st, size),
             [s |-> s, ok |-> TRUE, next |-> 8, last |-> 8, list |-> <<>>, odd |-> FALSE, def |-> FALSE],
             [k \in 1 .. size |-> k]))
\* deltas are given: cyclically, until the scale becomes zero
RECURSIVE ListEnc(_, _, _, _)
ListEnc(ds, k, size, last) ==
  IF k > size THEN <<>>
  ELSE LET d == ds[((k - 1) % Len(ds)) + 1]
           nx == (last + d + 256) % 256
       IN SEnc(SL(d)) \o (IF nx = 0 THEN <<>> ELSE ListEnc(ds, k + 1, size, nx))
MyExtEnc(name, v) == ListEnc(v.deltas, 1, IF v.i <= 6 THEN 16 ELSE 64, 8)

\* ---- what the API shows
Pick(v, ns) == [n \in ns \cap DOMAIN v |-> v[n]]
HrdNames(n) == {n \o x : x \in {"cpb_cnt", "bit_rate_scale", "cpb_size_scale", "init", "rem", "out", "off"}}
HrdView(v, n) ==
  IF ~v[n \o "present"] THEN NoValues
  ELSE Pick(v, HrdNames(n)) @@ ((n \o "cpb") :> v[n \o "cpb"])
VuiView(v) ==
  IF ~v.vui_present THEN NoValues
  ELSE Pick(v, {"ar_present", "ar_idc", "sar_w", "sar_h", "overscan_present", "overscan", "signal_present",
                "video_format", "full_range", "colour_present", "primaries", "transfer", "matrix",
                "loc_present", "loc_top", "loc_bottom", "timing_present", "units", "scale", "fixed_rate",
                "nal_present", "vcl_present", "low_delay", "pic_struct", "restriction_present",
                "mv_over", "max_bytes", "max_bits", "mv_h", "mv_v", "reorder", "buffering"})
       @@ HrdView(v, "nal_") @@ HrdView(v, "vcl_")
Lists(v, lo, hi) ==
  IF ~Has(v, "lists") THEN <<>>
  ELSE LET l == [i \in 1 .. Len(v.lists) |-> v.lists[i] @@ ("i" :> i)]
       IN SelectSeq(l, LAMBDA x : x.present /\ x.i >= lo /\ x.i <= hi)
ListView(ls) == [i \in 1 .. Len(ls) |-> [list |-> ls[i].list, default |-> ls[i].default]]
Or(v, n, d) == IF Has(v, n) THEN v[n] ELSE d
Zero == <<0, 0>>
ZeroS == [neg |-> FALSE, mag |-> Zero]
View(v) ==
  Pick(v, {"profile", "c0", "c1", "c2", "c3", "c4", "c5", "level", "id", "log2_fn", "poc_type", "max_ref", "gaps",
           "width", "height", "frame_only", "direct8", "crop_present", "crop_l", "crop_r", "crop_t", "crop_b",
           "vui_present"})
  @@ [chroma |-> Or(v, "chroma", <<0, 1>>), separate |-> Or(v, "separate", FALSE),
      depth_luma |-> Or(v, "depth_luma", Zero), depth_chroma |-> Or(v, "depth_chroma", Zero),
      qpprime |-> Or(v, "qpprime", FALSE),
      lists4 |-> ListView(Lists(v, 1, 6)), lists8 |-> ListView(Lists(v, 7, 12)),
      log2_poc |-> Or(v, "log2_poc", Zero), delta_zero |-> Or(v, "delta_zero", FALSE),
      off_nonref |-> Or(v, "off_nonref", ZeroS), off_bottom |-> Or(v, "off_bottom", ZeroS),
      offs |-> LET o == Or(v, "offs", <<>>) IN [i \in 1 .. Len(o) |-> o[i].off],
      mbaff |-> Or(v, "mbaff", FALSE)]
  @@ VuiView(v)

Fail == [err |-> TRUE]

\* s, or the reason why there is no SPS
Parse(buf) ==
  IF Len(buf) < 1 THEN Bad(Begin(<<>>))
  ELSE IF buf[1] % 32 # 7 THEN Bad(Begin(<<>>))
  ELSE Dec(Sps, Begin(BitsOf(RemoveEPB(Tail(buf)))))

\* ---- derived quantities: 6.2, 7.4.2.1.1
Sep(v) == Or(v, "separate", FALSE)
ArrayType(v) == IF Sep(v) THEN 0 ELSE ChromaOf(v)
SubW(v) == IF ArrayType(v) \in {1, 2} THEN 2 ELSE 1
SubH(v) == IF ArrayType(v) = 1 THEN 2 ELSE 1
F(v) == IF v.frame_only THEN 1 ELSE 2
Small(v) == /\ N(v.width) < 65536 /\ N(v.height) < 65536
            /\ v.crop_present => \A n \in {"crop_l", "crop_r", "crop_t", "crop_b"} : N(v[n]) < 65536
Crop(v, a, b) == IF v.crop_present THEN N(v[a]) + N(v[b]) ELSE 0
WidthOf(v) == 16 * (N(v.width) + 1) - SubW(v) * Crop(v, "crop_l", "crop_r")
HeightOf(v) == 16 * F(v) * (N(v.height) + 1) - SubH(v) * F(v) * Crop(v, "crop_t", "crop_b")
SizeDefined(v) == Small(v) /\ WidthOf(v) > 0 /\ HeightOf(v) > 0

\* frames per second x 1000, rounded down or up by at most one
Timing(v) == v.vui_present /\ v.timing_present
FpsDefined(v) == IF ~Timing(v) THEN FALSE
                 ELSE N(v.units) \in 1 .. 500000000 /\ N(v.scale) <= 2000000
FpsOf(v) == (N(v.scale) * 1000) \div (2 * N(v.units))

Crashed(r) == "panic" \in DOMAIN r \/ "hang" \in DOMAIN r

StartStates(cfg) == {0}
Outcomes(s, e) ==
  With(LAMBDA p :
    LET keep(x) == {[st |-> s, res |-> x]} IN
    IF p.odd THEN keep(IF Crashed(e.r) THEN Fail ELSE e.r)
    ELSE IF ~p.ok THEN keep(Fail)
    ELSE With(LAMBDA v :
      LET size == IF SizeDefined(v) THEN [w |-> L(WidthOf(v)), h |-> L(HeightOf(v))]
                  ELSE IF "w" \in DOMAIN e.r THEN [w |-> e.r.w, h |-> e.r.h] ELSE NoValues
          fps == IF ~Timing(v) THEN {0}
                 ELSE IF FpsDefined(v) THEN FpsOf(v) - 1 .. FpsOf(v) + 1
                 ELSE IF "fps" \in DOMAIN e.r THEN {e.r.fps} ELSE {}
      IN With(LAMBDA w : {[st |-> s, res |-> w @@ [fps |-> x]] : x \in fps}, View(v) @@ size),
      p.v),
    Parse(e.buf))
=============================================================================
