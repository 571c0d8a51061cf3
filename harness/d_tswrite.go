package main

import (
	"errors"

	"github.com/asticode/go-astits"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
)

func init() {
	drivers["tswrite"] = &Driver{New: newTsWrite}
}

// a sink which fails once it has taken a number of bytes, for ever or for one call
type sink struct {
	b     []byte
	limit int // -1: none
	once  bool
	hit   bool
}

func (s *sink) Write(p []byte) (int, error) {
	if s.limit >= 0 && len(p) > s.limit {
		n := s.limit
		s.b = append(s.b, p[:n]...)
		s.limit = 0
		if s.once {
			s.limit = -1
		}
		s.hit = true
		return n, errSource
	}
	if s.limit >= 0 {
		s.limit -= len(p)
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

func dvbItemsOf(b []byte) []*astits.DescriptorSubtitlingItem {
	var out []*astits.DescriptorSubtitlingItem
	for ; len(b) >= 8; b = b[8:] {
		out = append(out, &astits.DescriptorSubtitlingItem{
			Language: b[:3:3], Type: b[3],
			CompositionPageID: uint16(b[4])<<8 | uint16(b[5]), AncillaryPageID: uint16(b[6])<<8 | uint16(b[7]),
		})
	}
	return out
}

func tsTrackOf(t M) *mpegts.Track {
	o := &mpegts.Track{PID: uint16(num(t["pid"])), Language: string(byts(t["lang"]))}
	switch str(t["codec"]) {
	case "h264":
		o.Codec = &codecs.H264{}
	case "h265":
		o.Codec = &codecs.H265{}
	case "mpeg4v":
		o.Codec = &codecs.MPEG4Video{}
	case "mpeg1v":
		o.Codec = &codecs.MPEG1Video{}
	case "opus":
		c := &codecs.Opus{ChannelCount: num(t["chan"])}
		if d, ok := first(t["desc"]); ok {
			c = &codecs.Opus{Desc: opusDescOf(obj(d))}
		}
		o.Codec = c
	case "aac":
		o.Codec = &codecs.MPEG4Audio{Config: mpeg4audio.AudioSpecificConfig{
			Type: mpeg4audio.ObjectType(num(t["type"])), SampleRate: num(t["rate"]), ChannelConfig: uint8(num(t["chan"])), ChannelCount: num(t["count"]),
		}}
	case "latm":
		o.Codec = &codecs.MPEG4AudioLATM{}
	case "mp1a":
		o.Codec = &codecs.MPEG1Audio{}
	case "ac3":
		o.Codec = &codecs.AC3{SampleRate: 48000, ChannelCount: num(t["chan"])}
	case "eac3":
		o.Codec = &codecs.EAC3{SampleRate: 48000, ChannelCount: num(t["chan"])}
	case "klvs":
		o.Codec = &codecs.KLV{Synchronous: true}
	case "klva":
		o.Codec = &codecs.KLV{}
	case "dvb":
		o.Codec = &codecs.DVBSubtitle{Items: dvbItemsOf(byts(t["items"]))}
	default:
		panic("harness: codec")
	}
	return o
}

func tsWriteUnit(w *mpegts.Writer, t *mpegts.Track, pts, dts int64, d [][]byte) error {
	switch c := t.Codec.(type) {
	case *codecs.H264:
		return w.WriteH264(t, pts, dts, d)
	case *codecs.H265:
		return w.WriteH265(t, pts, dts, d)
	case *codecs.MPEG4Video:
		return w.WriteMPEG4Video(t, pts, d[0])
	case *codecs.MPEG1Video:
		return w.WriteMPEG1Video(t, pts, d[0])
	case *codecs.Opus:
		return w.WriteOpus(t, pts, d)
	case *codecs.MPEG4Audio:
		return w.WriteMPEG4Audio(t, pts, d)
	case *codecs.MPEG4AudioLATM:
		return w.WriteMPEG4AudioLATM(t, pts, d)
	case *codecs.MPEG1Audio:
		return w.WriteMPEG1Audio(t, pts, d)
	case *codecs.AC3:
		return w.WriteAC3(t, pts, d[0])
	case *codecs.EAC3:
		return w.WriteEAC3(t, pts, d[0])
	case *codecs.KLV:
		_ = c
		return w.WriteKLV(t, pts, d[0])
	case *codecs.DVBSubtitle:
		return w.WriteDVBSubtitle(t, pts, d[0])
	}
	panic("harness: codec")
}

func newTsWrite(cfg M) Session {
	sk := &sink{limit: -1}
	if l, ok := cfg["limit"]; ok {
		sk.limit = num(l)
		sk.once = num(cfg["once"]) == 1
	}
	w := &mpegts.Writer{W: sk}
	for _, t := range list(cfg["tracks"]) {
		w.Tracks = append(w.Tracks, tsTrackOf(obj(t)))
	}
	result := func(err error) M {
		e := ""
		if err != nil {
			e = "err"
			if errors.Is(err, errSource) {
				e = "custom"
			}
		}
		b := ints(sk.b)
		sk.b = nil
		return M{"err": e, "b": b, "hit": sk.hit}
	}
	return sessionFunc(func(op M) M {
		switch str(op["op"]) {
		case "init":
			if err := w.Initialize(); err != nil {
				return M{"err": "err"}
			}
			pids := []int{}
			for _, t := range w.Tracks {
				pids = append(pids, int(t.PID))
			}
			return M{"pids": pids}
		case "tables":
			n, err := w.WriteTables()
			r := result(err)
			r["n"] = n
			return r
		case "write":
			d := privateList(op["data"])
			k := int64(num(op["k"])) << 33
			err := tsWriteUnit(w, w.Tracks[num(op["t"])-1], unstamp(op["pts"])+k, unstamp(op["dts"])+k, d)
			for _, x := range d {
				scribble(x)
			}
			return result(err)
		}
		panic("harness: op")
	})
}
