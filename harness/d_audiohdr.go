package main

import (
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/eac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
)

func init() {
	drivers["audiohdr"] = &Driver{Mutate: true, New: func(M) Session { return sessionFunc(doAudioHdr) }}
}

func doAudioHdr(op M) M {
	in := private(op["buf"])
	switch str(op["op"]) {
	case "ac3":
		s := object[ac3.SyncInfo]()
		if s.Unmarshal(in) != nil {
			return errRes
		}
		return M{"fscod": int(s.Fscod), "code": int(s.Frmsizecod), "rate": s.SampleRate(), "size": s.FrameSize()}
	case "bsi":
		s := object[ac3.BSI]()
		if s.Unmarshal(in) != nil {
			return errRes
		}
		return M{"bsid": int(s.Bsid), "bsmod": int(s.Bsmod), "acmod": int(s.Acmod), "lfe": s.LfeOn, "channels": s.ChannelCount()}
	case "eac3":
		s := object[eac3.SyncInfo]()
		if s.Unmarshal(in) != nil {
			return errRes
		}
		return M{"strmtyp": int(s.Strmtyp), "sub": int(s.Substreamid), "frmsiz": int(s.Frmsiz), "fscod": int(s.Fscod),
			"fscod2": int(s.Fscod2), "blkcod": int(s.Numblkscod), "acmod": int(s.Acmod), "lfe": s.Lfeon, "size": s.FrameSize(),
			"rate": s.SampleRate(), "channels": s.ChannelCount(), "blocks": s.NumBlocks()}
	case "mpa":
		h := object[mpeg1audio.FrameHeader]()
		if h.Unmarshal(in) != nil {
			return errRes
		}
		return M{"mpeg2": h.MPEG2, "layer": int(h.Layer), "bitrate": h.Bitrate, "rate": h.SampleRate, "padding": h.Padding,
			"mode": int(h.ChannelMode), "samples": h.SampleCount(), "len": h.FrameLen()}
	case "opus":
		return M{"d": int(opus.PacketDuration2(in)), "us": int(opus.PacketDuration(in).Microseconds())} //nolint:staticcheck
	}
	panic("harness: op")
}
