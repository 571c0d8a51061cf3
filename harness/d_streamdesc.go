package main

import (
	"bytes"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/g711"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/jpeg"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4video"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
)

func init() {
	drivers["streamdesc"] = &Driver{Mutate: true, New: func(M) Session { return sessionFunc(doStreamDesc) }}
	drivers["g711"] = &Driver{New: func(M) Session { return sessionFunc(doStreamDesc) }}
}

func doStreamDesc(op M) M {
	var in []byte
	if b, ok := op["buf"]; ok {
		in = private(b)
	}
	pre := bytes.Clone(byts(op["pre"])) // room after it may be used
	var v M
	if x, ok := op["v"]; ok {
		v = obj(x)
	}
	appended := func(b []byte) M { return M{"buf": ints(keep(b))} }
	switch str(op["op"]) {
	case "flac":
		s := object[flac.StreamInfo]()
		if s.Unmarshal(in) != nil {
			return errRes
		}
		return M{"minb": int(s.MinBlockSize), "maxb": int(s.MaxBlockSize), "minf": int(s.MinFrameSize), "maxf": int(s.MaxFrameSize),
			"rate": int(s.SampleRate), "ch": int(s.ChannelCount), "depth": int(s.BitDepth), "total": limbs(s.TotalSamples), "md5": ints(s.MD5[:])}
	case "flac_enc":
		s := flac.StreamInfo{
			MinBlockSize: uint16(num(v["minb"])), MaxBlockSize: uint16(num(v["maxb"])), MinFrameSize: uint32(num(v["minf"])),
			MaxFrameSize: uint32(num(v["maxf"])), SampleRate: uint32(num(v["rate"])), ChannelCount: uint8(num(v["ch"])),
			BitDepth: uint8(num(v["depth"])), TotalSamples: unlimbs(v["total"]),
		}
		copy(s.MD5[:], byts(v["md5"]))
		return bufRes(encoded(s))
	case "opusid":
		h := object[opus.IDHeader]()
		if h.Unmarshal(in) != nil {
			return errRes
		}
		return M{"ch": int(h.ChannelCount), "skip": int(h.PreSkip), "rate": u32(h.InputSampleRate), "gain": int(h.OutputGain),
			"family": int(h.ChannelMappingFamily), "table": ints(keep(h.ChannelMappingTable))}
	case "opusid_enc", "opusid_rfc":
		return bufRes(encoded(opus.IDHeader{
			Version: 1, ChannelCount: uint8(num(v["ch"])), PreSkip: uint16(num(v["skip"])), InputSampleRate: uint32(unlimbs(v["rate"])),
			OutputGain: uint16(num(v["gain"])), ChannelMappingFamily: uint8(num(v["family"])), ChannelMappingTable: private(v["table"]),
		}))
	case "dqt":
		m := object[jpeg.DefineQuantizationTable]()
		if m.Unmarshal(in) != nil {
			return errRes
		}
		t := L{}
		for _, x := range m.Tables {
			if x.Precision != 0 {
				return M{"precision": int(x.Precision)}
			}
			t = append(t, M{"id": int(x.ID), "data": ints(keep(x.Data))})
		}
		return M{"tables": t}
	case "dqt_enc":
		var m jpeg.DefineQuantizationTable
		for _, x := range list(op["tables"]) {
			m.Tables = append(m.Tables, jpeg.QuantizationTable{ID: uint8(num(obj(x)["id"])), Data: private(obj(x)["data"])})
		}
		return appended(m.Marshal(pre))
	case "dri":
		m := object[jpeg.DefineRestartInterval]()
		if m.Unmarshal(in) != nil {
			return errRes
		}
		return M{"interval": int(m.Interval)}
	case "sof":
		m := object[jpeg.StartOfFrame1]()
		if m.Unmarshal(in) != nil {
			return errRes
		}
		return M{"type": int(m.Type), "width": m.Width, "height": m.Height}
	case "sof_enc":
		return appended(jpeg.StartOfFrame1{
			Type: uint8(num(v["type"])), Width: num(v["width"]), Height: num(v["height"]), QuantizationTableCount: uint8(num(v["tables"])),
		}.Marshal(pre))
	case "sos":
		m := object[jpeg.StartOfScan]()
		if m.Unmarshal(in) != nil {
			return errRes
		}
		return M{"ok": true}
	case "sos_enc":
		return appended(jpeg.StartOfScan{}.Marshal(pre))
	case "soi_enc":
		return appended(jpeg.StartOfImage{}.Marshal(pre))
	case "dht_enc":
		return appended(jpeg.DefineHuffmanTable{
			Codes: private(v["codes"]), Symbols: private(v["symbols"]), TableNumber: num(v["num"]), TableClass: num(v["class"]),
		}.Marshal(pre))
	case "m4v":
		if mpeg4video.IsValidConfig(in) != nil {
			return errRes
		}
		return M{"ok": true}
	case "alaw":
		c := object[g711.Alaw]()
		c.Unmarshal(in)
		return appended(*c)
	case "mulaw":
		c := object[g711.Mulaw]()
		c.Unmarshal(in)
		return appended(*c)
	case "alaw_enc":
		b, err := encoded(g711.Alaw(in))
		if err != nil {
			return errRes
		}
		return M{"enc": ints(keep(b))}
	case "mulaw_enc":
		b, err := encoded(g711.Mulaw(in))
		if err != nil {
			return errRes
		}
		return M{"enc": ints(keep(b))}
	}
	panic("harness: op")
}
