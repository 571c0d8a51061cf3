------------------------------- MODULE H265Ps -------------------------------
(***************************************************************************)
(* h265.SPS and h265.PPS: ITU-T H.265 7.3.2.2 (SPS), 7.3.2.3 (PPS), 7.3.3  *)
(* (profile, tier and level), 7.3.4 (scaling lists), 7.3.7 and 7.4.8       *)
(* (short-term reference picture sets), E.2.1 (VUI).                       *)
(* Unsupported, hence refused: sub-layer profiles and levels, long-term    *)
(* reference pictures listed in the SPS.                                   *)
(***************************************************************************)
EXTENDS Syntax, Epb

Ptl == <<
  <<"u", "space", 2>>, <<"u", "tier", 1>>, <<"u", "profile", 5>>,
  <<"fs", "compat", 32>>,
  <<"f", "progressive">>, <<"f", "interlaced">>, <<"f", "nonpacked">>, <<"f", "frameonly">>,
  <<"f", "max12">>, <<"f", "max10">>, <<"f", "max8">>, <<"f", "max422">>, <<"f", "max420">>, <<"f", "mono">>,
  <<"f", "intra">>, <<"f", "onepic">>, <<"f", "lower">>,
  <<"if", "has14", <<<<"f", "max14">>>>>>,
  <<"if", "no14", <<<<"def", "max14", FALSE>>, <<"fix", 1, 0>>>>>>,
  <<"fix", 29, 0>>, <<"fix", 5, 0>>,
  <<"u", "level", 8>>,
  <<"rep", "sub", "sub", <<<<"f", "p">>, <<"f", "l">>>>>>,
  <<"rep", "subpad", "subpad", <<<<"fix", 2, 0>>>>>>,
  <<"check", "sub">>>>

Window(n) == <<<<"ue", n \o "l">>, <<"ue", n \o "r">>, <<"ue", n \o "t">>, <<"ue", n \o "b">>>>

Scaling == << \* the elements of one list; i = 1 .. 20 enumerates <<sizeId, matrixId>>
  <<"f", "mode">>,
  <<"if", "mode0", <<<<"ue", "delta">>>>>>,
  <<"if", "mode1", <<
     <<"if", "dc", <<<<"se", "dc">>>>>>,
     <<"ses", "coefs", "coefs">>>>>>>>

Rps == <<
  <<"if", "notfirst", <<<<"f", "inter">>>>>>,
  <<"if", "first", <<<<"def", "inter", FALSE>>>>>>,
  <<"if", "inter", <<
     <<"f", "sign">>, <<"ue", "abs">>, <<"range", "abs">>,
     <<"rep", "flags", "flags", <<<<"f", "used">>, <<"if", "unused", <<<<"f", "use">>>>>>>>>>,
     <<"calc", "s0">>, <<"calc", "s1">>>>>>,
  <<"if", "explicit", <<
     <<"ue", "nneg">>, <<"ue", "npos">>, <<"check", "npics">>,
     <<"rep", "neg", "neg", <<<<"ue", "d">>, <<"range", "d">>, <<"f", "used">>>>>>,
     <<"rep", "pos", "pos", <<<<"ue", "d">>, <<"range", "d">>, <<"f", "used">>>>>>,
     <<"calc", "s0">>, <<"calc", "s1">>>>>>>>

Vui == <<
  <<"f", "ar_present">>,
  <<"if", "ar_present", <<
     <<"u", "ar_idc", 8>>,
     <<"if", "sar", <<<<"u", "sar_w", 16>>, <<"u", "sar_h", 16>>>>>>>>>>,
  <<"f", "overscan_present">>,
  <<"if", "overscan_present", <<<<"f", "overscan">>>>>>,
  <<"f", "signal_present">>,
  <<"if", "signal_present", <<
     <<"u", "video_format", 3>>, <<"f", "full_range">>, <<"f", "colour_present">>,
     <<"if", "colour_present", <<<<"u", "primaries", 8>>, <<"u", "transfer", 8>>, <<"u", "matrix", 8>>>>>>>>>>,
  <<"f", "loc_present">>,
  <<"if", "loc_present", <<<<"ue", "loc_top">>, <<"ue", "loc_bottom">>>>>>,
  <<"f", "neutral">>, <<"f", "field_seq">>, <<"f", "frame_field">>,
  <<"f", "disp_present">>, <<"if", "disp_present", Window("disp_")>>,
  <<"f", "timing_present">>,
  <<"if", "timing_present", <<
     <<"w", "units", 32>>, <<"w", "scale", 32>>, <<"f", "poc_prop">>,
     <<"if", "poc_prop", <<<<"ue", "ticks">>>>>>>>>>>>

Sps == <<
  <<"u", "vps", 4>>, <<"u", "maxsub", 3>>, <<"f", "nesting">>>>
  \o Ptl \o <<
  <<"ue", "id">>, <<"range", "id">>,
  <<"ue", "chroma">>, <<"check", "chroma">>,
  <<"if", "444", <<<<"f", "separate">>>>>>,
  <<"ue", "width">>, <<"ue", "height">>,
  <<"f", "conf_present">>, <<"if", "conf_present", Window("conf_")>>,
  <<"ue", "depth_luma">>, <<"ue", "depth_chroma">>, <<"ue", "log2_poc">>,
  <<"f", "ordering_present">>,
  <<"rep", "ordering", "ordering", <<<<"ue", "buf">>, <<"ue", "reorder">>, <<"ue", "latency">>>>>>,
  <<"ue", "min_cb">>, <<"ue", "diff_cb">>, <<"ue", "min_tb">>, <<"ue", "diff_tb">>, <<"ue", "depth_inter">>, <<"ue", "depth_intra">>,
  <<"f", "scaling_enabled">>,
  <<"if", "scaling_enabled", <<<<"f", "scaling_present">>, <<"if", "scaling_present", <<<<"rep", "scaling", "20", Scaling>>>>>>>>>>,
  <<"f", "amp">>, <<"f", "sao">>, <<"f", "pcm">>,
  <<"if", "pcm", <<
     <<"u", "pcm_luma", 4>>, <<"u", "pcm_chroma", 4>>, <<"ue", "pcm_min">>, <<"ue", "pcm_diff">>, <<"f", "pcm_loop">>>>>>,
  <<"ue", "nrps">>, <<"check", "nrps">>,
  <<"rep", "rps", "rps", Rps>>,
  <<"f", "longterm">>,
  <<"if", "longterm", <<<<"ue", "nlong">>, <<"check", "nlong">>>>>>,
  <<"f", "mvp">>, <<"f", "smoothing">>,
  <<"f", "vui_present">>, <<"if", "vui_present", Vui>>>>

Pps == <<<<"ue", "id">>, <<"ue", "sps">>, <<"f", "dependent">>, <<"f", "output">>, <<"u", "extra", 3>>>>

\* <<sizeId, matrixId>> of the i-th scaling list
SizeId(i) == IF i <= 6 THEN 0 ELSE IF i <= 12 THEN 1 ELSE IF i <= 18 THEN 2 ELSE 3
MatrixId(i) == IF i <= 18 THEN (i - 1) % 6 ELSE 3 * (i - 19)

Compat(v, n) == v.compat[n + 1]
Has14(v) == v.profile \in {5, 9, 10, 11} \/ \E n \in {5, 9, 10, 11} : Compat(v, n)
Sets(v) == v.rps

MyCond(c, v) ==
  CASE c = "has14" -> Has14(v)
    [] c = "no14" -> ~Has14(v)
    [] c = "sub" -> \A i \in 1 .. Len(v.sub) : ~v.sub[i].p /\ ~v.sub[i].l
    [] c = "id" -> N(v.id) <= 15
    [] c = "chroma" -> N(v.chroma) <= 3
    [] c = "444" -> N(v.chroma) = 3
    [] c = "mode0" -> ~v.mode
    [] c = "mode1" -> v.mode
    [] c = "dc" -> SizeId(v.i) > 1
    [] c = "notfirst" -> v.i > 1
    [] c = "first" -> v.i = 1
    [] c = "explicit" -> ~v.inter
    [] c = "abs" -> N(v.abs) < 32768
    [] c = "d" -> N(v.d) < 32768
    [] c = "unused" -> ~v.used
    [] c = "npics" -> N(v.nneg) <= 255 /\ N(v.npos) <= 255
    [] c = "nrps" -> N(v.nrps) <= 64
    [] c = "nlong" -> N(v.nlong) = 0
    [] c = "sar" -> v.ar_idc = 255
    [] OTHER -> v[c]
Prev(v) == v.prev[Len(v.prev)]
MyCount(c, v) ==
  CASE c = "20" -> 20
    [] c = "sub" -> v.maxsub
    [] c = "subpad" -> IF v.maxsub = 0 THEN 0 ELSE 8 - v.maxsub
    [] c = "ordering" -> IF v.ordering_present THEN v.maxsub + 1 ELSE 1
    [] c = "coefs" -> IF SizeId(v.i) = 0 THEN 16 ELSE 64
    [] c = "rps" -> N(v.nrps)
    [] c = "flags" -> IF "prev" \in DOMAIN v THEN Len(Prev(v).s0) + Len(Prev(v).s1) + 1 ELSE v.nflags
    [] c = "neg" -> N(v.nneg)
    [] c = "pos" -> N(v.npos)

\* 7.4.8: entries are <<delta POC, used by the current picture>>
Rev(q) == [i \in 1 .. Len(q) |-> q[Len(q) + 1 - i]]
Running(l, sgn) == \* explicit deltas
  FoldLeft(LAMBDA acc, x : Append(acc, <<(IF acc = <<>> THEN 0 ELSE acc[Len(acc)][1]) + sgn * (N(x.d) + 1), x.used>>), <<>>, l)
Predicted(v, sgn) ==
  LET ref == Prev(v)
      dr == IF v.sign THEN -(N(v.abs) + 1) ELSE N(v.abs) + 1
      n0 == Len(ref.s0)
      n1 == Len(ref.s1)
      \* candidates <<delta, index of the flags>>, in the order of the derivation
      own == <<<<dr, n0 + n1 + 1>>>>
      c0 == [j \in 1 .. n0 |-> <<ref.s0[j][1] + dr, j>>]
      c1 == [j \in 1 .. n1 |-> <<ref.s1[j][1] + dr, n0 + j>>]
      cand == IF sgn < 0 THEN Rev(c1) \o own \o c0 ELSE Rev(c0) \o own \o c1
      Use(k) == IF v.flags[k].used THEN TRUE ELSE v.flags[k].use
      sel == SelectSeq(cand, LAMBDA c : sgn * c[1] > 0 /\ Use(c[2]))
  IN [k \in 1 .. Len(sel) |-> <<sel[k][1], v.flags[sel[k][2]].used>>]
MyCalc(name, v) ==
  LET sgn == IF name = "s0" THEN -1 ELSE 1
  IN IF "prev" \notin DOMAIN v THEN <<>> \* encoding
     ELSE IF v.inter THEN Predicted(v, sgn) ELSE Running(IF sgn < 0 THEN v.neg ELSE v.pos, sgn)
MyExt(name, s) == s
MyExtEnc(name, v) == <<>>

\* ---- what the API shows
Pick(v, ns) == [n \in ns \cap DOMAIN v |-> v[n]]
Or(v, n, d) == IF n \in DOMAIN v THEN v[n] ELSE d
Zero == <<0, 0>>
RpsView(r) == [inter |-> r.inter, sign |-> Or(r, "sign", FALSE), abs |-> Or(r, "abs", Zero),
               s0 |-> r.s0, s1 |-> r.s1]
\* by <<sizeId, matrixId>>, zero where nothing was transmitted
ScalingView(l) ==
  [mode |-> [z \in 1 .. 4 |-> [m \in 1 .. 6 |->
               IF z = 4 /\ m \notin {1, 4} THEN FALSE ELSE l[IF z = 4 THEN 19 + (m - 1) \div 3 ELSE 6 * (z - 1) + m].mode]],
   delta |-> [z \in 1 .. 4 |-> [m \in 1 .. 6 |->
               IF z = 4 /\ m \notin {1, 4} THEN Zero
               ELSE LET x == l[IF z = 4 THEN 19 + (m - 1) \div 3 ELSE 6 * (z - 1) + m] IN Or(x, "delta", Zero)]],
   dc |-> [z \in 1 .. 4 |-> [m \in 1 .. 6 |-> \* of sizeId z + 1
               IF z > 2 \/ (z = 2 /\ m \notin {1, 4}) THEN 0
               ELSE LET x == l[IF z = 2 THEN 19 + (m - 1) \div 3 ELSE 12 + m]
                    IN IF "dc" \in DOMAIN x THEN SN(x.dc) ELSE 0]]]

View(v) ==
  Pick(v, {"vps", "maxsub", "nesting", "space", "tier", "profile", "compat", "progressive", "interlaced", "nonpacked",
           "frameonly", "max12", "max10", "max8", "max422", "max420", "mono", "intra", "onepic", "lower", "max14", "level",
           "id", "chroma", "width", "height", "conf_present", "conf_l", "conf_r", "conf_t", "conf_b", "depth_luma", "depth_chroma",
           "log2_poc", "ordering_present", "min_cb", "diff_cb", "min_tb", "diff_tb", "depth_inter", "depth_intra",
           "scaling_enabled", "amp", "sao", "pcm", "pcm_luma", "pcm_chroma", "pcm_min", "pcm_diff", "pcm_loop",
           "longterm", "mvp", "smoothing", "vui_present"})
  @@ [separate |-> Or(v, "separate", FALSE),
      scaling_present |-> Or(v, "scaling_present", FALSE),
      rps |-> [i \in 1 .. Len(v.rps) |-> RpsView(v.rps[i])],
      nsub |-> Len(v.sub)]
  @@ (IF Or(v, "scaling_present", FALSE) THEN ScalingView(v.scaling) ELSE NoValues)
  @@ (IF v.vui_present
      THEN Pick(v, {"ar_present", "ar_idc", "sar_w", "sar_h", "overscan_present", "overscan", "signal_present",
                    "video_format", "full_range", "colour_present", "primaries", "transfer", "matrix",
                    "loc_present", "loc_top", "loc_bottom", "neutral", "field_seq", "frame_field",
                    "disp_present", "disp_l", "disp_r", "disp_t", "disp_b", "timing_present", "units", "scale", "poc_prop", "ticks"})
      ELSE NoValues)

\* what is not transmitted for the lower sub-layers is unspecified
Ordering(v, r) ==
  LET n == v.maxsub + 1
      ok == "ordering" \in DOMAIN r
  IN [i \in 1 .. n |-> IF v.ordering_present THEN v.ordering[i]
                       ELSE IF i = n THEN v.ordering[1]
                       ELSE IF ok /\ i \in DOMAIN r.ordering THEN r.ordering[i] ELSE v.ordering[1]]

\* ---- derived quantities: Table 6-1, 7.4.3.2.1
ArraySub(v) == IF N(v.chroma) = 3 \/ N(v.chroma) = 0 THEN <<1, 1>> ELSE IF N(v.chroma) = 1 THEN <<2, 2>> ELSE <<2, 1>>
Small(v) == /\ N(v.width) < 1000000 /\ N(v.height) < 1000000
            /\ v.conf_present => \A n \in {"conf_l", "conf_r", "conf_t", "conf_b"} : N(v[n]) < 1000000
WidthOf(v) == N(v.width) - (IF v.conf_present THEN ArraySub(v)[1] * (N(v.conf_l) + N(v.conf_r)) ELSE 0)
HeightOf(v) == N(v.height) - (IF v.conf_present THEN ArraySub(v)[2] * (N(v.conf_t) + N(v.conf_b)) ELSE 0)
SizeDefined(v) == IF Small(v) THEN WidthOf(v) > 0 /\ HeightOf(v) > 0 ELSE FALSE
Timing(v) == v.vui_present /\ v.timing_present
FpsDefined(v) == N(v.units) \in 1 .. 1000000000 /\ N(v.scale) <= 2000000
FpsOf(v) == (N(v.scale) * 1000) \div N(v.units)

Fail == [err |-> TRUE]
Crashed(r) == "panic" \in DOMAIN r \/ "hang" \in DOMAIN r
Type(buf) == (buf[1] \div 2) % 64
Parse(t, buf, want) ==
  IF Len(buf) < 2 THEN Bad(Begin(<<>>))
  ELSE IF Type(buf) # want THEN Bad(Begin(<<>>))
  ELSE With(LAMBDA d : IF buf[2] % 8 = 0 THEN [d EXCEPT !.odd = TRUE] ELSE d, \* nuh_temporal_id_plus1
            Dec(t, Begin(BitsOf(Tail(RemoveEPB(Tail(buf)))))))

StartStates(cfg) == {0}
Outcomes(s, e) ==
  With(LAMBDA p :
    LET keep(x) == {[st |-> s, res |-> x]} IN
    IF p.odd THEN keep(IF Crashed(e.r) THEN Fail ELSE e.r)
    ELSE IF ~p.ok THEN keep(Fail)
    ELSE IF e.op = "pps" THEN keep(p.v)
    ELSE With(LAMBDA v :
      LET size == IF SizeDefined(v) THEN [w |-> L(WidthOf(v)), h |-> L(HeightOf(v))]
                  ELSE IF "w" \in DOMAIN e.r THEN [w |-> e.r.w, h |-> e.r.h] ELSE NoValues
          fps == IF ~Timing(v) THEN {0}
                 ELSE IF FpsDefined(v) THEN FpsOf(v) - 1 .. FpsOf(v) + 1
                 ELSE IF "fps" \in DOMAIN e.r THEN {e.r.fps} ELSE {}
      IN With(LAMBDA w : {[st |-> s, res |-> w @@ [fps |-> x]] : x \in fps},
              View(v) @@ size @@ [ordering |-> Ordering(v, e.r)]),
      p.v),
    IF e.op = "pps" THEN Parse(Pps, e.buf, 34) ELSE Parse(Sps, e.buf, 33))
=============================================================================
