package main

import (
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
)

func init() {
	drivers["tssub"] = &Driver{Mutate: true, New: func(M) Session { return sessionFunc(doTsSub) }}
}

// first element of a list of at most one
func first(v any) (any, bool) {
	l := list(v)
	if len(l) == 0 {
		return nil, false
	}
	return l[0], true
}

func opusDescMap(d *substructs.OpusAudioDescriptor) M {
	return M{"code": int(d.ChannelConfigCode), "count": d.ExplicitChannelCount, "family": d.MappingFamily, "streams": d.StreamCount,
		"coupled": d.CoupledStreamCount, "map": ints(keep(d.ChannelMapping)), "channels": d.ChannelCount()}
}

func opusDescOf(v M) *substructs.OpusAudioDescriptor {
	return &substructs.OpusAudioDescriptor{
		ChannelConfigCode: uint8(num(v["code"])), ExplicitChannelCount: num(v["count"]), MappingFamily: num(v["family"]),
		StreamCount: num(v["streams"]), CoupledStreamCount: num(v["coupled"]), ChannelMapping: private(v["map"]),
	}
}

func doTsSub(op M) M {
	var in []byte
	if b, ok := op["buf"]; ok {
		in = private(b)
	}
	var v M
	if x, ok := op["v"]; ok {
		v = obj(x)
	}
	switch str(op["op"]) {
	case "cell":
		c := object[substructs.MetadataAUCell]()
		n, err := c.Unmarshal(in)
		if err != nil {
			return errRes
		}
		return M{"n": n, "service": int(c.MetadataServiceID), "seq": int(c.SequenceNumber), "frag": int(c.CellFragmentIndication),
			"cfg": c.DecoderConfigFlag, "rai": c.RandomAccessIndicator, "data": ints(keep(c.AUCellData))}
	case "cell_enc":
		d := private(v["data"])
		c := substructs.MetadataAUCell{
			MetadataServiceID: uint8(num(v["service"])), SequenceNumber: uint8(num(v["seq"])), CellFragmentIndication: uint8(num(v["frag"])),
			DecoderConfigFlag: boolean(v["cfg"]), RandomAccessIndicator: boolean(v["rai"]), AUCellData: d,
		}
		return bufRes(encodedBy(c, func() ([]byte, error) {
			buf := make([]byte, 5+len(d))
			n, err := c.MarshalTo(buf)
			return buf[:n], err
		}))
	case "mdesc":
		d := object[substructs.MetadataDescriptor]()
		if d.Unmarshal(in) != nil {
			return errRes
		}
		m := M{"app": int(d.MetadataApplicationFormat), "appid": L{}, "format": int(d.MetadataFormat), "formatid": L{},
			"service": int(d.MetadataServiceID), "flags": int(d.DecoderConfigFlags), "dsmcc": L{}, "config": L{}, "ident": L{},
			"cfgservice": L{}, "private": ints(keep(d.PrivateData))}
		if d.MetadataApplicationFormat == 0xFFFF {
			m["appid"] = L{u32(d.MetadataApplicationFormatIdentifier)}
		}
		if d.MetadataFormat == 0xFF {
			m["formatid"] = L{u32(d.MetadataFormatIdentifier)}
		}
		if d.DSMCCFlag {
			m["dsmcc"] = L{ints(keep(d.ServiceIdentification))}
		}
		switch d.DecoderConfigFlags {
		case 1:
			m["config"] = L{ints(keep(d.DecoderConfig))}
		case 3:
			m["ident"] = L{ints(keep(d.DecConfigIdentification))}
		case 4:
			m["cfgservice"] = L{[]int{int(d.DecoderConfigMetadataServiceID)}}
		}
		return m
	case "mdesc_enc":
		d := substructs.MetadataDescriptor{
			MetadataApplicationFormat: uint16(num(v["app"])), MetadataFormat: uint8(num(v["format"])), MetadataServiceID: uint8(num(v["service"])),
			DecoderConfigFlags: uint8(num(v["flags"])), PrivateData: byts(v["private"]),
		}
		if x, ok := first(v["appid"]); ok {
			d.MetadataApplicationFormatIdentifier = uint32(unlimbs(x))
		}
		if x, ok := first(v["formatid"]); ok {
			d.MetadataFormatIdentifier = uint32(unlimbs(x))
		}
		if x, ok := first(v["dsmcc"]); ok {
			d.DSMCCFlag = true
			d.ServiceIdentification = private(x)
		}
		if x, ok := first(v["config"]); ok {
			d.DecoderConfig = private(x)
		}
		if x, ok := first(v["ident"]); ok {
			d.DecConfigIdentification = private(x)
		}
		if x, ok := first(v["cfgservice"]); ok {
			d.DecoderConfigMetadataServiceID = byts(x)[0]
		}
		return bufRes(encoded(d))
	case "mstd":
		d := object[substructs.MetadataSTDDescriptor]()
		if d.Unmarshal(in) != nil {
			return errRes
		}
		return M{"in": int(d.MetadataInputLeakRate), "buf": int(d.MetadataBufferSize), "out": int(d.MetadataOutputLeakRate)}
	case "mstd_enc":
		return bufRes(encoded(substructs.MetadataSTDDescriptor{
			MetadataInputLeakRate: uint32(num(v["in"])), MetadataBufferSize: uint32(num(v["buf"])), MetadataOutputLeakRate: uint32(num(v["out"])),
		}))
	case "opusau":
		u := object[substructs.OpusAccessUnit]()
		n, err := u.Unmarshal(in)
		if err != nil {
			return errRes
		}
		m := M{"n": n, "start": L{}, "end": L{}, "ext": L{}, "packet": ints(keep(u.Packet))}
		if u.ControlHeader.StartTrimFlag {
			m["start"] = L{int(u.ControlHeader.StartTrim)}
		}
		if u.ControlHeader.EndTrimFlag {
			m["end"] = L{int(u.ControlHeader.EndTrim)}
		}
		if u.ControlHeader.ControlExtensionFlag {
			m["ext"] = L{int(u.ControlHeader.ControlExtensionLength)}
		}
		if u.ControlHeader.PayloadSize != len(u.Packet) {
			m["size"] = u.ControlHeader.PayloadSize
		}
		return m
	case "opusau_enc", "opusau_bad":
		u := substructs.OpusAccessUnit{Packet: private(v["packet"])}
		u.ControlHeader.PayloadSize = len(u.Packet)
		if x, ok := first(v["start"]); ok {
			u.ControlHeader.StartTrimFlag = true
			u.ControlHeader.StartTrim = uint16(num(x))
		}
		if x, ok := first(v["end"]); ok {
			u.ControlHeader.EndTrimFlag = true
			u.ControlHeader.EndTrim = uint16(num(x))
		}
		if x, ok := first(v["ext"]); ok {
			u.ControlHeader.ControlExtensionFlag = true
			u.ControlHeader.ControlExtensionLength = uint8(num(x))
		}
		if str(op["op"]) == "opusau_bad" {
			u.ControlHeader.PayloadSize++
		}
		size := u.MarshalSize()
		b, err := encodedBy(&u, func() ([]byte, error) {
			buf := make([]byte, size)
			n, err := u.MarshalTo(buf)
			return buf[:n], err
		})
		if err != nil {
			return errRes
		}
		return M{"buf": ints(b), "size": size}
	case "opusdesc":
		d := object[substructs.OpusAudioDescriptor]()
		if d.Unmarshal(in) != nil {
			return errRes
		}
		return opusDescMap(d)
	case "opusdesc_enc":
		return bufRes(encoded(opusDescOf(v)))
	}
	panic("harness: op")
}
