package main

import (
	"bytes"
	"errors"
	"io"

	amp4 "github.com/abema/go-mp4"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
)

func init() {
	drivers["fmp4init"] = &Driver{MutateFile: true, New: func(cfg M) Session { return &fmp4InitSession{cfg} }}
}

// file is a memory-backed io.ReadWriteSeeker with the semantics of a file.
type file struct {
	b   []byte
	pos int64
}

func (f *file) Read(p []byte) (int, error) {
	if f.pos >= int64(len(f.b)) {
		return 0, io.EOF
	}
	n := copy(p, f.b[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *file) Write(p []byte) (int, error) {
	if need := f.pos + int64(len(p)); need > int64(len(f.b)) {
		f.b = append(f.b, make([]byte, need-int64(len(f.b)))...)
	}
	n := copy(f.b[f.pos:], p)
	f.pos += int64(n)
	return n, nil
}

func (f *file) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.pos
	default:
		off += int64(len(f.b))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

func be32(v any) uint32 {
	b := byts(v)
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func toBe32(v uint32) []int {
	return []int{int(v >> 24), int(v >> 16 & 255), int(v >> 8 & 255), int(v & 255)}
}

func flacInfo(v M) *flac.StreamInfo {
	s := &flac.StreamInfo{
		MinBlockSize: uint16(num(v["minb"])), MaxBlockSize: uint16(num(v["maxb"])), MinFrameSize: uint32(num(v["minf"])),
		MaxFrameSize: uint32(num(v["maxf"])), SampleRate: uint32(num(v["rate"])), ChannelCount: uint8(num(v["ch"])),
		BitDepth: uint8(num(v["depth"])), TotalSamples: unlimbs(v["total"]),
	}
	copy(s.MD5[:], byts(v["md5"]))
	return s
}

func flacInfoView(s *flac.StreamInfo) M {
	return M{"minb": int(s.MinBlockSize), "maxb": int(s.MaxBlockSize), "minf": int(s.MinFrameSize), "maxf": int(s.MaxFrameSize),
		"rate": int(s.SampleRate), "ch": int(s.ChannelCount), "depth": int(s.BitDepth), "total": limbs(s.TotalSamples), "md5": ints(s.MD5[:])}
}

func mp4Codec(c M) codecs.Codec {
	n := func(k string) int { return num(c[k]) }
	u := func(k string) uint8 { return uint8(num(c[k])) }
	switch str(c["k"]) {
	case "av1":
		return &codecs.AV1{SequenceHeader: private(c["seq"])}
	case "vp9":
		return &codecs.VP9{Width: n("w"), Height: n("h"), Profile: u("profile"), BitDepth: u("depth"), ChromaSubsampling: u("chroma"), ColorRange: boolean(c["range"])}
	case "h265":
		return &codecs.H265{VPS: private(c["vps"]), SPS: private(c["sps"]), PPS: private(c["pps"])}
	case "h264":
		return &codecs.H264{SPS: private(c["sps"]), PPS: private(c["pps"])}
	case "mp4v":
		return &codecs.MPEG4Video{Config: private(c["config"])}
	case "mp1v":
		return &codecs.MPEG1Video{Config: private(c["config"])}
	case "mjpeg":
		return &codecs.MJPEG{Width: n("w"), Height: n("h")}
	case "opus":
		return &codecs.Opus{ChannelCount: n("ch")}
	case "flac":
		if _, ok := c["si"]; !ok {
			return &codecs.FLAC{}
		}
		return &codecs.FLAC{StreamInfo: flacInfo(obj(c["si"]))}
	case "aac":
		return &codecs.MPEG4Audio{Config: *ascOf(obj(c["cfg"]))}
	case "mp1a":
		return &codecs.MPEG1Audio{SampleRate: n("rate"), ChannelCount: n("ch")}
	case "ac3":
		return &codecs.AC3{SampleRate: n("rate"), ChannelCount: n("ch"), Bsid: u("bsid"), Bsmod: u("bsmod"), Acmod: u("acmod"), LfeOn: boolean(c["lfe"]), BitRateCode: u("brc")}
	case "eac3":
		return &codecs.EAC3{SampleRate: n("rate"), ChannelCount: n("ch"), DataRate: uint16(n("drate")), Asvc: boolean(c["asvc"]), Bsmod: u("bsmod"), Acmod: u("acmod"),
			LfeOn: boolean(c["lfe"]), NumDepSub: u("ndep"), ChanLoc: uint16(n("chanloc"))}
	case "lpcm":
		return &codecs.LPCM{LittleEndian: boolean(c["le"]), BitDepth: n("depth"), SampleRate: n("rate"), ChannelCount: n("ch")}
	}
	panic("harness: unknown codec " + str(c["k"]))
}

func mp4CodecView(c codecs.Codec) M {
	switch c := c.(type) {
	case *codecs.AV1:
		return M{"k": "av1", "seq": ints(keep(c.SequenceHeader))}
	case *codecs.VP9:
		return M{"k": "vp9", "w": c.Width, "h": c.Height, "profile": int(c.Profile), "depth": int(c.BitDepth), "chroma": int(c.ChromaSubsampling), "range": c.ColorRange}
	case *codecs.H265:
		return M{"k": "h265", "vps": ints(keep(c.VPS)), "sps": ints(keep(c.SPS)), "pps": ints(keep(c.PPS))}
	case *codecs.H264:
		return M{"k": "h264", "sps": ints(keep(c.SPS)), "pps": ints(keep(c.PPS))}
	case *codecs.MPEG4Video:
		return M{"k": "mp4v", "config": ints(keep(c.Config))}
	case *codecs.MPEG1Video:
		return M{"k": "mp1v", "config": ints(keep(c.Config))}
	case *codecs.MJPEG:
		return M{"k": "mjpeg", "w": c.Width, "h": c.Height}
	case *codecs.Opus:
		return M{"k": "opus", "ch": c.ChannelCount}
	case *codecs.FLAC:
		return M{"k": "flac", "si": flacInfoView(c.StreamInfo)}
	case *codecs.MPEG4Audio:
		return M{"k": "aac", "cfg": ascView(&c.Config)}
	case *codecs.MPEG1Audio:
		return M{"k": "mp1a", "rate": c.SampleRate, "ch": c.ChannelCount}
	case *codecs.AC3:
		return M{"k": "ac3", "rate": c.SampleRate, "ch": c.ChannelCount, "fscod": int(c.Fscod), "bsid": int(c.Bsid), "bsmod": int(c.Bsmod), "acmod": int(c.Acmod), "lfe": c.LfeOn, "brc": int(c.BitRateCode)} //nolint:staticcheck
	case *codecs.EAC3:
		return M{"k": "eac3", "rate": c.SampleRate, "ch": c.ChannelCount, "drate": int(c.DataRate), "asvc": c.Asvc, "bsmod": int(c.Bsmod), "acmod": int(c.Acmod), "lfe": c.LfeOn,
			"ndep": int(c.NumDepSub), "chanloc": int(c.ChanLoc)}
	case *codecs.LPCM:
		return M{"k": "lpcm", "le": c.LittleEndian, "depth": c.BitDepth, "rate": c.SampleRate, "ch": c.ChannelCount}
	case nil:
		return M{"k": "none"}
	}
	return M{"k": "other"}
}

type fmp4InitSession struct{ cfg M }

func (s *fmp4InitSession) read(b []byte) M {
	r, _ := s.readFrom(bytes.NewReader(b))
	return r
}

func (s *fmp4InitSession) readFrom(r io.ReadSeeker) (M, error) {
	i := object[fmp4.Init]()
	if err := i.Unmarshal(r); err != nil {
		return errRes, err
	}
	ts := L{}
	for _, t := range i.Tracks {
		ts = append(ts, M{"id": t.ID, "ts": toBe32(t.TimeScale), "codec": mp4CodecView(t.Codec)})
	}
	us := L{}
	for _, x := range i.UserData {
		if g, ok := x.(*amp4.Udta3GppString); ok {
			l := g.Language
			v := int(l[0]&31)<<10 | int(l[1]&31)<<5 | int(l[2]&31)
			if g.Pad {
				v |= 0x8000
			}
			us = append(us, M{"lang": []int{v >> 8, v & 255}, "text": ints(keep(g.Data))})
		} else {
			us = append(us, M{"box": x.GetType().String()})
		}
	}
	return M{"tracks": ts, "udta": us}, nil
}

func (s *fmp4InitSession) build() fmp4.Init {
	var i fmp4.Init
	for _, x := range list(s.cfg["tracks"]) {
		t := obj(x)
		i.Tracks = append(i.Tracks, &fmp4.InitTrack{ID: num(t["id"]), TimeScale: be32(t["ts"]), AvgBitrate: be32(t["avg"]), MaxBitrate: be32(t["max"]), Codec: mp4Codec(obj(t["codec"]))})
	}
	for _, x := range list(s.cfg["udta"]) {
		u := obj(x)
		l := byts(u["lang"])
		v := int(l[0])<<8 | int(l[1])
		i.UserData = append(i.UserData, &amp4.Udta3GppString{AnyTypeBox: amp4.AnyTypeBox{Type: amp4.StrToBoxType("titl")},
			Language: [3]byte{byte(v>>10&31) + 0x60, byte(v>>5&31) + 0x60, byte(v&31) + 0x60}, Data: private(u["text"])})
	}
	return i
}

func (s *fmp4InitSession) Do(op M) M {
	if str(op["op"]) == "unmarshal" {
		return s.read(private(op["buf"]))
	}
	i := s.build()
	f := &file{}
	if _, err := encodedBy(i, func() ([]byte, error) {
		*f = file{}
		err := i.Marshal(f)
		return f.b, err
	}); err != nil {
		return errRes
	}
	if str(op["op"]) == "round" {
		return s.read(f.b)
	}
	return M{"buf": ints(f.b)}
}
