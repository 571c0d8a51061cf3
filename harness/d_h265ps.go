package main

import (
	"slices"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
)

func init() {
	drivers["h265ps"] = &Driver{Mutate: true, New: func(M) Session { return sessionFunc(doH265Ps) }}
}

func sizeRes(m M, w, h int) {
	if w >= 0 && h >= 0 {
		m["w"], m["h"] = limbs(uint64(w))[2:], limbs(uint64(h))[2:]
	} else {
		m["w"], m["h"] = []int{-1}, []int{-1}
	}
}

func doH265Ps(op M) M {
	in := private(op["buf"])
	if str(op["op"]) == "pps" {
		p := object[h265.PPS]()
		if err := p.Unmarshal(in); err != nil {
			return errRes
		}
		return M{
			"id": u32(p.ID), "sps": u32(p.SPSID), "dependent": p.DependentSliceSegmentsEnabledFlag,
			"output": p.OutputFlagPresentFlag, "extra": int(p.NumExtraSliceHeaderBits),
		}
	}
	s := object[h265.SPS]()
	if err := s.Unmarshal(in); err != nil {
		return errRes
	}
	scribble(in)
	p := &s.ProfileTierLevel
	m := M{
		"vps": int(s.VPSID), "maxsub": int(s.MaxSubLayersMinus1), "nesting": s.TemporalIDNestingFlag,
		"space": int(p.GeneralProfileSpace), "tier": int(p.GeneralTierFlag), "profile": int(p.GeneralProfileIdc),
		"compat": slices.Clone(p.GeneralProfileCompatibilityFlag[:]), "progressive": p.GeneralProgressiveSourceFlag,
		"interlaced": p.GeneralInterlacedSourceFlag, "nonpacked": p.GeneralNonPackedConstraintFlag,
		"frameonly": p.GeneralFrameOnlyConstraintFlag, "max12": p.GeneralMax12bitConstraintFlag,
		"max10": p.GeneralMax10bitConstraintFlag, "max8": p.GeneralMax8bitConstraintFlag,
		"max422": p.GeneralMax422ChromeConstraintFlag, "max420": p.GeneralMax420ChromaConstraintFlag,
		"mono": p.GeneralMaxMonochromeConstraintFlag, "intra": p.GeneralIntraConstraintFlag,
		"onepic": p.GeneralOnePictureOnlyConstraintFlag, "lower": p.GeneralLowerBitRateConstraintFlag,
		"max14": p.GeneralMax14BitConstraintFlag, "level": int(p.GeneralLevelIdc),
		"nsub": len(p.SubLayerProfilePresentFlag),
		"id":   u32(uint32(s.ID)), "chroma": u32(s.ChromaFormatIdc), "separate": s.SeparateColourPlaneFlag,
		"width": u32(s.PicWidthInLumaSamples), "height": u32(s.PicHeightInLumaSamples),
		"conf_present": s.ConformanceWindow != nil,
		"depth_luma":   u32(s.BitDepthLumaMinus8), "depth_chroma": u32(s.BitDepthChromaMinus8),
		"log2_poc": u32(s.Log2MaxPicOrderCntLsbMinus4), "ordering_present": s.SubLayerOrderingInfoPresentFlag,
		"min_cb": u32(s.Log2MinLumaCodingBlockSizeMinus3), "diff_cb": u32(s.Log2DiffMaxMinLumaCodingBlockSize),
		"min_tb": u32(s.Log2MinLumaTransformBlockSizeMinus2), "diff_tb": u32(s.Log2DiffMaxMinLumaTransformBlockSize),
		"depth_inter": u32(s.MaxTransformHierarchyDepthInter), "depth_intra": u32(s.MaxTransformHierarchyDepthIntra),
		"scaling_enabled": s.ScalingListEnabledFlag, "scaling_present": s.ScalingListData != nil,
		"amp": s.AmpEnabledFlag, "sao": s.SampleAdaptiveOffsetEnabledFlag, "pcm": s.PcmEnabledFlag,
		"longterm": s.LongTermRefPicsPresentFlag, "mvp": s.TemporalMvpEnabledFlag,
		"smoothing": s.StrongIntraSmoothingEnabledFlag, "vui_present": s.VUI != nil,
		"fps": milli(s.FPS()),
	}
	sizeRes(m, s.Width(), s.Height())
	window := func(n string, w *h265.SPS_Window) {
		if w != nil {
			m[n+"l"], m[n+"r"], m[n+"t"], m[n+"b"] = u32(w.LeftOffset), u32(w.RightOffset), u32(w.TopOffset), u32(w.BottomOffset)
		}
	}
	window("conf_", s.ConformanceWindow)
	ord := []M{}
	for i := range s.MaxDecPicBufferingMinus1 {
		ord = append(ord, M{
			"buf": u32(s.MaxDecPicBufferingMinus1[i]), "reorder": u32(s.MaxNumReorderPics[i]),
			"latency": u32(s.MaxLatencyIncreasePlus1[i]),
		})
	}
	m["ordering"] = ord
	if d := s.ScalingListData; d != nil {
		var delta [4][6][]int
		for i := range delta {
			for j := range delta[i] {
				delta[i][j] = u32(d.ScalingListPredmatrixIDDelta[i][j])
			}
		}
		m["mode"], m["delta"], m["dc"] = d.ScalingListPredModeFlag, delta, d.ScalingListDcCoefMinus8
	}
	if s.PcmEnabledFlag {
		m["pcm_luma"], m["pcm_chroma"] = int(s.PcmSampleBitDepthLumaMinus1), int(s.PcmSampleBitDepthChromaMinus1)
		m["pcm_min"], m["pcm_diff"] = u32(s.Log2MinPcmLumaCodingBlockSizeMinus3), u32(s.Log2DiffMaxMinPcmLumaCodingBlockSize)
		m["pcm_loop"] = s.PcmLoopFilterDisabledFlag
	}
	rps := []M{}
	pairs := func(n uint32, d []int32, u []bool) []any {
		o := []any{}
		if int(n) != len(d) || len(d) != len(u) {
			return []any{"inconsistent"}
		}
		for i := range d {
			o = append(o, []any{int(d[i]), u[i]})
		}
		return o
	}
	for _, r := range s.ShortTermRefPicSets {
		rps = append(rps, M{
			"inter": r.InterRefPicSetPredictionFlag, "sign": r.DeltaRpsSign, "abs": u32(r.AbsDeltaRpsMinus1),
			"s0": pairs(r.NumNegativePics, r.DeltaPocS0, r.UsedByCurrPicS0Flag),
			"s1": pairs(r.NumPositivePics, r.DeltaPocS1, r.UsedByCurrPicS1Flag),
		})
	}
	m["rps"] = rps
	if v := s.VUI; v != nil {
		m["ar_present"] = v.AspectRatioInfoPresentFlag
		if v.AspectRatioInfoPresentFlag {
			m["ar_idc"] = int(v.AspectRatioIdc)
			if v.AspectRatioIdc == 255 {
				m["sar_w"], m["sar_h"] = int(v.SarWidth), int(v.SarHeight)
			}
		}
		m["overscan_present"] = v.OverscanInfoPresentFlag
		if v.OverscanInfoPresentFlag {
			m["overscan"] = v.OverscanAppropriateFlag
		}
		m["signal_present"] = v.VideoSignalTypePresentFlag
		if v.VideoSignalTypePresentFlag {
			m["video_format"], m["full_range"] = int(v.VideoFormat), v.VideoFullRangeFlag
			m["colour_present"] = v.ColourDescriptionPresentFlag
			if v.ColourDescriptionPresentFlag {
				m["primaries"], m["transfer"], m["matrix"] =
					int(v.ColourPrimaries), int(v.TransferCharacteristics), int(v.MatrixCoefficients)
			}
		}
		m["loc_present"] = v.ChromaLocInfoPresentFlag
		if v.ChromaLocInfoPresentFlag {
			m["loc_top"], m["loc_bottom"] = u32(v.ChromaSampleLocTypeTopField), u32(v.ChromaSampleLocTypeBottomField)
		}
		m["neutral"], m["field_seq"], m["frame_field"] = v.NeutralChromaIndicationFlag, v.FieldSeqFlag, v.FrameFieldInfoPresentFlag
		m["disp_present"] = v.DefaultDisplayWindow != nil
		window("disp_", v.DefaultDisplayWindow)
		m["timing_present"] = v.TimingInfo != nil
		if t := v.TimingInfo; t != nil {
			m["units"], m["scale"], m["poc_prop"] = u32(t.NumUnitsInTick), u32(t.TimeScale), t.POCProportionalToTimingFlag
			if t.POCProportionalToTimingFlag {
				m["ticks"] = u32(t.NumTicksPOCDiffOneMinus1)
			}
		}
	}
	return m
}
