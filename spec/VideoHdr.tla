------------------------------ MODULE VideoHdr ------------------------------
(***************************************************************************)
(* av1.SequenceHeader: AV1 5.5 (sequence header OBU).                      *)
(* vp9.Header: VP9 6.2 (uncompressed header), and random access.           *)
(* Refused because unsupported: AV1 decoder model and initial display      *)
(* delay.                                                                  *)
(***************************************************************************)
EXTENDS Syntax

Timing == <<<<"w", "units", 32>>, <<"w", "scale", 32>>, <<"f", "equal">>, <<"if", "equal", <<<<"ext", "ticks">>>>>>>>
Color == <<
  <<"f", "high">>,
  <<"if", "12able", <<<<"f", "twelve">>>>>>, <<"calc", "depth">>,
  <<"if", "monoable", <<<<"f", "mono">>>>>>, <<"if", "nomono", <<<<"def", "mono", FALSE>>>>>>,
  <<"f", "cdesc">>,
  <<"if", "cdesc", <<<<"u", "cp", 8>>, <<"u", "tc", 8>>, <<"u", "mc", 8>>>>>>,
  <<"if", "nocdesc", <<<<"def", "cp", 2>>, <<"def", "tc", 2>>, <<"def", "mc", 2>>>>>>,
  <<"calc", "layout">>,
  <<"if", "ranged", <<<<"f", "crange">>>>>>, <<"if", "srgb", <<<<"def", "crange", TRUE>>>>>>,
  <<"if", "subx", <<<<"f", "subx">>, <<"if", "suby", <<<<"f", "suby">>>>>>>>>>,
  <<"calc", "sx">>, <<"calc", "sy">>,
  <<"if", "csp", <<<<"u", "csp", 2>>>>>>,
  <<"if", "uvdelta", <<<<"f", "uvdelta">>>>>>>>
Op == <<<<"u", "idc", 12>>, <<"u", "lev", 5>>, <<"if", "tier", <<<<"f", "tier">>>>>>, <<"check", "no_delay">>>>
SeqHdr == <<
  <<"u", "profile", 3>>, <<"range", "profile">>, <<"f", "still">>, <<"f", "reduced">>,
  <<"if", "reduced", <<<<"u", "level0", 5>>>>>>,
  <<"if", "full", <<
     <<"f", "timing">>,
     <<"if", "timing", Timing \o <<<<"f", "model">>, <<"check", "no_model">>>>>>,
     <<"f", "delay">>, <<"u", "opcnt", 5>>,
     <<"rep", "ops", "ops", Op>>>>>>,
  <<"u", "wbits", 4>>, <<"u", "hbits", 4>>, <<"ext", "width">>, <<"ext", "height">>,
  <<"if", "full", <<<<"f", "frameid">>, <<"if", "frameid", <<<<"u", "delta_id", 4>>, <<"u", "add_id", 3>>>>>>>>>>,
  <<"f", "sb128">>, <<"f", "filter_intra">>, <<"f", "intra_edge">>,
  <<"if", "full", <<
     <<"f", "interintra">>, <<"f", "masked">>, <<"f", "warped">>, <<"f", "dual">>, <<"f", "order_hint">>,
     <<"if", "order_hint", <<<<"f", "jnt">>, <<"f", "refmvs">>>>>>,
     <<"f", "choose_sct">>, <<"if", "force_sct", <<<<"u", "force_sct", 1>>>>>>,
     <<"if", "sct", <<<<"f", "choose_mv">>, <<"if", "force_mv", <<<<"u", "force_mv", 1>>>>>>>>>>,
     <<"if", "order_hint", <<<<"u", "hint_bits", 3>>>>>>>>>>,
  <<"f", "superres">>, <<"f", "cdef">>, <<"f", "restoration">>>>
  \o Color \o <<<<"f", "grain">>>>

Vp9Color == <<
  <<"if", "vp9_deep", <<<<"f", "twelve">>>>>>, <<"calc", "vp9_depth">>,
  <<"u", "space", 3>>, <<"range", "vp9_rgb">>,
  <<"if", "vp9_yuv", <<
     <<"f", "crange">>,
     <<"if", "vp9_odd", <<<<"f", "sx">>, <<"f", "sy">>, <<"fix", 1, 0>>>>>>,
     <<"if", "vp9_even", <<<<"def", "sx", TRUE>>, <<"def", "sy", TRUE>>>>>>>>>>,
  <<"if", "rgb", <<<<"def", "crange", TRUE>>, <<"if", "vp9_odd", <<<<"def", "sx", FALSE>>, <<"def", "sy", FALSE>>, <<"fix", 1, 0>>>>>>>>>>>>
Vp9 == <<
  <<"u", "marker", 2>>, <<"check", "marker">>, <<"u", "lo", 1>>, <<"u", "hi", 1>>, <<"calc", "vp9_profile">>,
  <<"if", "vp9_3", <<<<"fix", 1, 0>>>>>>,
  <<"f", "existing">>,
  <<"if", "existing", <<<<"u", "idx", 3>>>>>>,
  <<"if", "vp9_new", <<
     <<"f", "nonkey">>, <<"f", "show">>, <<"f", "resilient">>,
     <<"if", "key", <<<<"u", "sync0", 8>>, <<"check", "sync0">>, <<"u", "sync1", 8>>, <<"check", "sync1">>, <<"u", "sync2", 8>>, <<"check", "sync2">>>>
                     \o Vp9Color \o <<<<"u", "w", 16>>, <<"u", "h", 16>>>>>>>>>>>>

Or(v, n, d) == IF n \in DOMAIN v THEN v[n] ELSE d
IsSrgb(v) == v.cp = 1 /\ v.tc = 13 /\ v.mc = 0
Sct(v) == IF v.choose_sct THEN 2 ELSE v.force_sct
Depth(v) == IF v.profile = 2 /\ v.high THEN (IF v.twelve THEN 12 ELSE 10) ELSE IF v.high THEN 10 ELSE 8
\* who decides the subsampling: "mono", "srgb", or the profile
Layout(v) == IF v.mono THEN "mono" ELSE IF IsSrgb(v) THEN "srgb" ELSE "yuv"
Coded(v) == v.layout = "yuv" /\ v.profile > 1 /\ v.depth = 12
Vp9Profile(v) == 2 * v.hi + v.lo

MyCond(c, v) ==
  CASE c = "profile" -> v.profile <= 2
    [] c = "full" -> ~v.reduced
    [] c = "no_model" -> ~v.model
    [] c = "no_delay" -> ~v.delay
    [] c = "tier" -> v.lev > 7
    [] c = "force_sct" -> ~v.choose_sct
    [] c = "sct" -> Sct(v) > 0
    [] c = "force_mv" -> ~v.choose_mv
    [] c = "12able" -> v.profile = 2 /\ v.high
    [] c = "monoable" -> v.profile # 1
    [] c = "nomono" -> v.profile = 1
    [] c = "nocdesc" -> ~v.cdesc
    [] c = "ranged" -> v.layout # "srgb"
    [] c = "srgb" -> v.layout = "srgb"
    [] c = "subx" -> Coded(v)
    [] c = "suby" -> v.subx
    [] c = "csp" -> v.layout = "yuv" /\ v.sx /\ v.sy
    [] c = "uvdelta" -> v.layout # "mono"
    [] c = "marker" -> v.marker = 2
    [] c = "vp9_3" -> v.vp9_profile = 3
    [] c = "vp9_new" -> ~v.existing
    [] c = "key" -> ~v.nonkey
    [] c = "sync0" -> v.sync0 = 73
    [] c = "sync1" -> v.sync1 = 131
    [] c = "sync2" -> v.sync2 = 66
    [] c = "vp9_deep" -> v.vp9_profile >= 2
    [] c = "vp9_rgb" -> ~(v.space = 7 /\ v.vp9_profile \in {0, 2})
    [] c = "vp9_yuv" -> v.space # 7
    [] c = "rgb" -> v.space = 7
    [] c = "vp9_odd" -> v.vp9_profile \in {1, 3}
    [] c = "vp9_even" -> v.vp9_profile \in {0, 2}
    [] OTHER -> v[c]
MyCount(c, v) == v.opcnt + 1
MyCalc(n, v) ==
  CASE n = "depth" -> Depth(v)
    [] n = "layout" -> Layout(v)
    [] n = "sx" -> IF v.layout = "mono" THEN TRUE ELSE IF v.layout = "srgb" THEN FALSE
                   ELSE IF v.profile = 0 THEN TRUE ELSE IF v.profile = 1 THEN FALSE ELSE IF v.depth = 12 THEN v.subx ELSE TRUE
    [] n = "sy" -> IF v.layout = "mono" THEN TRUE ELSE IF v.layout = "srgb" THEN FALSE
                   ELSE IF v.profile = 0 THEN TRUE ELSE IF v.profile = 1 THEN FALSE
                   ELSE IF v.depth = 12 /\ v.subx THEN v.suby ELSE FALSE
    [] n = "vp9_profile" -> Vp9Profile(v)
    [] n = "vp9_depth" -> IF v.vp9_profile < 2 THEN 8 ELSE IF v.twelve THEN 12 ELSE 10
\* widths and heights have a variable number of bits; uvlc() of 4.10.3, whose
\* codes of 32 and more zeros are not decided here
MyExt(name, s) ==
  CASE name = "width" -> RdU(s, "width", s.v.wbits + 1)
    [] name = "height" -> RdU(s, "height", s.v.hbits + 1)
    [] name = "ticks" -> IF Left(s) >= 32 /\ GZ1(s, 1, 32) < 0 THEN [s EXCEPT !.odd = TRUE, !.ok = FALSE] ELSE RdUE(s, "ticks")
MyExtEnc(name, v) ==
  CASE name = "width" -> ToBits(v.width, v.wbits + 1)
    [] name = "height" -> ToBits(v.height, v.hbits + 1)
    [] name = "ticks" -> GEnc(v.ticks)

Pick(v, ns) == [n \in ns \cap DOMAIN v |-> v[n]]
SeqView(v) ==
  Pick(v, {"profile", "still", "reduced", "units", "scale", "equal", "width", "height",
           "sb128", "filter_intra", "intra_edge", "superres", "cdef", "restoration",
           "high", "depth", "mono", "cdesc", "cp", "tc", "mc", "crange", "sx", "sy", "grain"})
  @@ [twelve |-> Or(v, "twelve", FALSE), timing |-> Or(v, "timing", FALSE), csp |-> Or(v, "csp", 0),
      frameid |-> Or(v, "frameid", FALSE), delta_id |-> Or(v, "delta_id", 0), add_id |-> Or(v, "add_id", 0),
      interintra |-> Or(v, "interintra", FALSE), masked |-> Or(v, "masked", FALSE), warped |-> Or(v, "warped", FALSE),
      dual |-> Or(v, "dual", FALSE), order_hint |-> Or(v, "order_hint", FALSE), jnt |-> Or(v, "jnt", FALSE),
      refmvs |-> Or(v, "refmvs", FALSE), hint_bits |-> Or(v, "hint_bits", 0),
      choose_sct |-> Or(v, "choose_sct", FALSE), choose_mv |-> Or(v, "choose_mv", FALSE),
      sct |-> IF v.reduced THEN 2 ELSE Sct(v),
      mv |-> IF v.reduced THEN 2 ELSE IF Sct(v) = 0 THEN 2 ELSE IF v.choose_mv THEN 2 ELSE v.force_mv,
      ops |-> IF v.reduced THEN <<[idc |-> 0, lev |-> v.level0, tier |-> FALSE]>>
              ELSE [i \in 1 .. Len(v.ops) |-> [idc |-> v.ops[i].idc, lev |-> v.ops[i].lev, tier |-> Or(v.ops[i], "tier", FALSE)]],
      w |-> v.width + 1, h |-> v.height + 1]
  @@ (IF Or(v, "timing", FALSE) THEN [ticks |-> Or(v, "ticks", <<0, 0>>)] ELSE NoValues)

Chroma(v) == IF ~v.sx /\ ~v.sy THEN {3} ELSE IF v.sx /\ ~v.sy THEN {2} ELSE IF v.sx THEN {1} ELSE 0 .. 255
Vp9View(v) ==
  [profile |-> v.vp9_profile, existing |-> v.existing]
  @@ (IF v.existing THEN [idx |-> v.idx, w |-> 0, h |-> 0, ra |-> FALSE, chroma |-> 1]
      ELSE IF v.nonkey THEN [nonkey |-> TRUE, show |-> v.show, resilient |-> v.resilient, w |-> 0, h |-> 0, ra |-> FALSE, chroma |-> 1]
      ELSE [nonkey |-> FALSE, show |-> v.show, resilient |-> v.resilient, w |-> v.w + 1, h |-> v.h + 1, ra |-> TRUE,
            twelve |-> Or(v, "twelve", FALSE), depth |-> v.vp9_depth, space |-> v.space, crange |-> v.crange, sx |-> v.sx, sy |-> v.sy])

Fail == [err |-> TRUE]
Crashed(r) == "panic" \in DOMAIN r \/ "hang" \in DOMAIN r

\* OBU header and size field (AV1 5.3): the payload
LebVal(b, i) == \* <<length, value>> of a LEB128, or <<0, 0>>; values of 2^21 and above count as not matching any buffer
  IF i > Len(b) THEN <<0, 0>>
  ELSE IF b[i] < 128 THEN <<1, b[i]>>
  ELSE IF i + 1 > Len(b) THEN <<0, 0>>
  ELSE IF b[i + 1] < 128 THEN <<2, (b[i] - 128) + 128 * b[i + 1]>>
  ELSE IF i + 2 > Len(b) THEN <<0, 0>>
  ELSE IF b[i + 2] < 128 THEN <<3, (b[i] - 128) + 128 * (b[i + 1] - 128) + 16384 * b[i + 2]>>
  ELSE <<-1, 0>>
ParseSeq(b) ==
  IF Len(b) < 1 THEN Bad(Begin(<<>>))
  ELSE IF b[1] >= 128 \/ (b[1] \div 4) % 2 = 1 THEN Bad(Begin(<<>>))
  ELSE With(LAMBDA d : IF (b[1] \div 8) % 16 # 1 THEN [d EXCEPT !.odd = TRUE] ELSE d,
       IF (b[1] \div 2) % 2 = 0 THEN Dec(SeqHdr, Begin(BitsOf(Tail(b))))
       ELSE LET l == LebVal(b, 2) IN
            IF l[1] = 0 THEN Bad(Begin(<<>>))
            ELSE IF l[1] = -1 THEN [Bad(Begin(<<>>)) EXCEPT !.odd = TRUE] \* non-minimal sizes
            ELSE IF Len(b) # 1 + l[1] + l[2] THEN Bad(Begin(<<>>))
            ELSE Dec(SeqHdr, Begin(BitsOf(SubSeq(b, 2 + l[1], Len(b))))))

StartStates(cfg) == {0}
Outcomes(s, e) ==
  With(LAMBDA p :
    LET keep(x) == {[st |-> s, res |-> x]} IN
    IF p.odd THEN keep(IF Crashed(e.r) THEN Fail ELSE e.r)
    ELSE IF ~p.ok THEN keep(IF e.op = "vp9" THEN [err |-> TRUE, ra |-> FALSE] ELSE Fail)
    ELSE IF e.op = "av1" THEN keep(SeqView(p.v))
    ELSE IF p.v.existing THEN keep(Vp9View(p.v))
    ELSE IF p.v.nonkey THEN keep(Vp9View(p.v))
    ELSE UNION {keep(Vp9View(p.v) @@ [chroma |-> c]) : c \in Chroma(p.v)},
    IF e.op = "av1" THEN ParseSeq(e.buf) ELSE Dec(Vp9, Begin(BitsOf(e.buf))))
=============================================================================
