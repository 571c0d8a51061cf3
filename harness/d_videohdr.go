package main

import (
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp9"
)

func init() {
	drivers["videohdr"] = &Driver{Mutate: true, New: func(M) Session { return sessionFunc(doVideoHdr) }}
}

func doVideoHdr(op M) M {
	in := private(op["buf"])
	if str(op["op"]) == "vp9" {
		ra := vp9.IsRandomAccess(in)
		h := object[vp9.Header]()
		if err := h.Unmarshal(in); err != nil {
			return M{"err": true, "ra": ra}
		}
		m := M{"profile": int(h.Profile), "existing": h.ShowExistingFrame, "w": h.Width(), "h": h.Height(), "ra": ra,
			"chroma": int(h.ChromaSubsampling())}
		if h.ShowExistingFrame {
			m["idx"] = int(h.FrameToShowMapIdx)
			return m
		}
		m["nonkey"], m["show"], m["resilient"] = h.NonKeyFrame, h.ShowFrame, h.ErrorResilientMode
		if c := h.ColorConfig; c != nil {
			m["twelve"], m["depth"], m["space"], m["crange"] = c.TenOrTwelveBit, int(c.BitDepth), int(c.ColorSpace), c.ColorRange
			m["sx"], m["sy"] = c.SubsamplingX, c.SubsamplingY
		}
		return m
	}
	h := object[av1.SequenceHeader]()
	if err := h.Unmarshal(in); err != nil {
		return errRes
	}
	scribble(in)
	c := &h.ColorConfig
	m := M{
		"profile": int(h.SeqProfile), "still": h.StillPicture, "reduced": h.ReducedStillPictureHeader,
		"timing": h.TimingInfo != nil, "width": int(h.MaxFrameWidthMinus1), "height": int(h.MaxFrameHeightMinus1),
		"frameid": h.FrameIDNumbersPresentFlag, "delta_id": int(h.DeltaFrameIDLengthMinus2), "add_id": int(h.AdditionalFrameIDLengthMinus1),
		"sb128": h.Use128x128Superblock, "filter_intra": h.EnableFilterIntra, "intra_edge": h.EnableIntraEdgeFilter,
		"interintra": h.EnableInterintraCompound, "masked": h.EnableMaskedCompound, "warped": h.EnableWarpedMotion,
		"dual": h.EnableDualFilter, "order_hint": h.EnableOrderHint, "jnt": h.EnableJntComp, "refmvs": h.EnableRefFrameMvs,
		"choose_sct": h.SeqChooseScreenContentTools, "sct": int(h.SeqForceScreenContentTools),
		"choose_mv": h.SeqChooseIntegerMv, "mv": int(h.SeqForceIntegerMv), "hint_bits": int(h.OrderHintBitsMinus1),
		"superres": h.EnableSuperRes, "cdef": h.EnableCdef, "restoration": h.EnableRestoration,
		"high": c.HighBitDepth, "twelve": c.TwelveBit, "depth": c.BitDepth, "mono": c.MonoChrome, "cdesc": c.ColorDescriptionPresentFlag,
		"cp": int(c.ColorPrimaries), "tc": int(c.TransferCharacteristics), "mc": int(c.MatrixCoefficients), "crange": c.ColorRange,
		"sx": c.SubsamplingX, "sy": c.SubsamplingY, "csp": int(c.ChromaSamplePosition), "grain": h.FilmGrainParamsPresent,
		"w": h.Width(), "h": h.Height(),
	}
	if t := h.TimingInfo; t != nil {
		m["units"], m["scale"], m["equal"], m["ticks"] = u32(t.NumUnitsInDisplayTick), u32(t.TimeScale), t.EqualPictureInterval, u32(t.NumTicksPerPictureMinus1)
	}
	ops := []M{}
	for i := range h.OperatingPointIdc {
		ops = append(ops, M{"idc": int(h.OperatingPointIdc[i]), "lev": int(h.SeqLevelIdx[i]), "tier": h.SeqTier[i]})
	}
	m["ops"] = ops
	return m
}
