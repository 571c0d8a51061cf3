package main

import (
	"bytes"
	"math"
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
)

func init() {
	drivers["h264sps"] = &Driver{Mutate: true, New: func(M) Session { return sessionFunc(doH264Sps) }}
}

func s32(v int32) M {
	a := int64(v)
	if a < 0 {
		a = -a
	}
	return M{"neg": v < 0, "mag": u32(uint32(a))}
}

func s32s(l []int32) []M {
	o := []M{}
	for _, v := range l {
		o = append(o, s32(v))
	}
	return o
}

func i32s(l []int32) []int {
	o := []int{}
	for _, v := range l {
		o = append(o, int(v))
	}
	return o
}

func milli(f float64) int {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return -1
	}
	return int(max(-math.MaxInt32, min(math.MaxInt32, math.Floor(f*1000)))) // the specification has no larger value
}

func doH264Sps(op M) M {
	s := object[h264.SPS]()
	in := private(op["buf"])
	if err := s.Unmarshal(in); err != nil {
		return errRes
	}
	scribble(in)
	m := M{
		"profile": int(s.ProfileIdc), "c0": s.ConstraintSet0Flag, "c1": s.ConstraintSet1Flag, "c2": s.ConstraintSet2Flag,
		"c3": s.ConstraintSet3Flag, "c4": s.ConstraintSet4Flag, "c5": s.ConstraintSet5Flag,
		"level": int(s.LevelIdc), "id": u32(s.ID), "chroma": u32(s.ChromaFormatIdc), "separate": s.SeparateColourPlaneFlag,
		"depth_luma": u32(s.BitDepthLumaMinus8), "depth_chroma": u32(s.BitDepthChromaMinus8),
		"qpprime": s.QpprimeYZeroTransformBypassFlag, "log2_fn": u32(s.Log2MaxFrameNumMinus4),
		"poc_type": u32(s.PicOrderCntType), "log2_poc": u32(s.Log2MaxPicOrderCntLsbMinus4),
		"delta_zero": s.DeltaPicOrderAlwaysZeroFlag, "off_nonref": s32(s.OffsetForNonRefPic),
		"off_bottom": s32(s.OffsetForTopToBottomField), "offs": s32s(s.OffsetForRefFrames),
		"max_ref": u32(s.MaxNumRefFrames), "gaps": s.GapsInFrameNumValueAllowedFlag,
		"width": u32(s.PicWidthInMbsMinus1), "height": u32(s.PicHeightInMapUnitsMinus1),
		"frame_only": s.FrameMbsOnlyFlag, "mbaff": s.MbAdaptiveFrameFieldFlag, "direct8": s.Direct8x8InferenceFlag,
		"crop_present": s.FrameCropping != nil, "vui_present": s.VUI != nil,
	}
	m["fps"] = milli(s.FPS())
	if w, h := s.Width(), s.Height(); w >= 0 && h >= 0 {
		m["w"], m["h"] = limbs(uint64(w))[2:], limbs(uint64(h))[2:]
	} else {
		m["w"], m["h"] = []int{-1}, []int{-1}
	}
	lists := func(l [][]int32, d []bool) []M {
		o := []M{}
		for i := range l {
			o = append(o, M{"list": i32s(l[i]), "default": d[i]})
		}
		return o
	}
	m["lists4"] = lists(s.ScalingList4x4, s.UseDefaultScalingMatrix4x4Flag)
	m["lists8"] = lists(s.ScalingList8x8, s.UseDefaultScalingMatrix8x8Flag)
	if c := s.FrameCropping; c != nil {
		m["crop_l"], m["crop_r"], m["crop_t"], m["crop_b"] =
			u32(c.LeftOffset), u32(c.RightOffset), u32(c.TopOffset), u32(c.BottomOffset)
	}
	hrd := func(n string, h *h264.SPS_HRD) {
		if h == nil {
			return
		}
		m[n+"cpb_cnt"] = u32(h.CpbCntMinus1)
		m[n+"bit_rate_scale"], m[n+"cpb_size_scale"] = int(h.BitRateScale), int(h.CpbSizeScale)
		l := []M{}
		for i := range h.BitRateValueMinus1 {
			l = append(l, M{"rate": u32(h.BitRateValueMinus1[i]), "size": u32(h.CpbSizeValueMinus1[i]), "cbr": h.CbrFlag[i]})
		}
		m[n+"cpb"] = l
		m[n+"init"], m[n+"rem"] = int(h.InitialCpbRemovalDelayLengthMinus1), int(h.CpbRemovalDelayLengthMinus1)
		m[n+"out"], m[n+"off"] = int(h.DpbOutputDelayLengthMinus1), int(h.TimeOffsetLength)
	}
	if v := s.VUI; v != nil {
		m["ar_present"] = v.AspectRatioInfoPresentFlag
		if v.AspectRatioInfoPresentFlag {
			m["ar_idc"] = int(v.AspectRatioIdc)
			if v.AspectRatioIdc == 255 {
				m["sar_w"], m["sar_h"] = int(v.SarWidth), int(v.SarHeight)
			}
		}
		m["overscan_present"] = v.OverscanInfoPresentFlag
		if v.OverscanInfoPresentFlag {
			m["overscan"] = v.OverscanAppropriateFlag
		}
		m["signal_present"] = v.VideoSignalTypePresentFlag
		if v.VideoSignalTypePresentFlag {
			m["video_format"], m["full_range"] = int(v.VideoFormat), v.VideoFullRangeFlag
			m["colour_present"] = v.ColourDescriptionPresentFlag
			if v.ColourDescriptionPresentFlag {
				m["primaries"], m["transfer"], m["matrix"] =
					int(v.ColourPrimaries), int(v.TransferCharacteristics), int(v.MatrixCoefficients)
			}
		}
		m["loc_present"] = v.ChromaLocInfoPresentFlag
		if v.ChromaLocInfoPresentFlag {
			m["loc_top"], m["loc_bottom"] = u32(v.ChromaSampleLocTypeTopField), u32(v.ChromaSampleLocTypeBottomField)
		}
		m["timing_present"] = v.TimingInfo != nil
		if t := v.TimingInfo; t != nil {
			m["units"], m["scale"], m["fixed_rate"] = u32(t.NumUnitsInTick), u32(t.TimeScale), t.FixedFrameRateFlag
		}
		m["nal_present"], m["vcl_present"] = v.NalHRD != nil, v.VclHRD != nil
		hrd("nal_", v.NalHRD)
		hrd("vcl_", v.VclHRD)
		if v.NalHRD != nil || v.VclHRD != nil {
			m["low_delay"] = v.LowDelayHrdFlag
		}
		m["pic_struct"] = v.PicStructPresentFlag
		m["restriction_present"] = v.BitstreamRestriction != nil
		if b := v.BitstreamRestriction; b != nil {
			m["mv_over"] = b.MotionVectorsOverPicBoundariesFlag
			m["max_bytes"], m["max_bits"] = u32(b.MaxBytesPerPicDenom), u32(b.MaxBitsPerMbDenom)
			m["mv_h"], m["mv_v"] = u32(b.Log2MaxMvLengthHorizontal), u32(b.Log2MaxMvLengthVertical)
			m["reorder"], m["buffering"] = u32(b.MaxNumReorderFrames), u32(b.MaxDecFrameBuffering)
		}
	}
	return m
}

// mutate derives cases from those generated by the specification: truncated,
// extended, with flipped bits or replaced bytes.
func mutate(r *rand.Rand, in []Case, n int) []Case {
	var out, all []Case
	all, in = in, nil
	for _, c := range all {
		if _, ok := c.Ops[0]["buf"]; ok {
			in = append(in, c)
		}
	}
	if len(in) == 0 {
		return nil
	}
	for range n {
		c := in[r.Intn(len(in))]
		d := Case{Cfg: c.Cfg}
		first := byts(c.Ops[0]["buf"])
		b := bytes.Clone(first)
		for range 1 + r.Intn(3) {
			switch r.Intn(5) {
			case 0:
				b = b[:r.Intn(len(b)+1)]
			case 1:
				x := make([]byte, r.Intn(8))
				r.Read(x)
				b = append(b, x...)
			case 2:
				if len(b) > 0 {
					b[r.Intn(len(b))] = byte(r.Intn(256))
				}
			default:
				if len(b) > 0 {
					b[r.Intn(len(b))] ^= 1 << r.Intn(8)
				}
			}
		}
		for _, op := range c.Ops {
			o := M{}
			for k, v := range op {
				o[k] = v
			}
			if bytes.Equal(byts(op["buf"]), first) {
				o["buf"] = ints(b)
			}
			d.Ops = append(d.Ops, o)
		}
		out = append(out, d)
	}
	return out
}
