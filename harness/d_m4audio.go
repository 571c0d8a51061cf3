package main

import (
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
)

func init() {
	drivers["m4cfg"] = &Driver{Mutate: true, New: func(M) Session { return sessionFunc(doM4) }}
	drivers["m4frame"] = &Driver{Mutate: true, New: func(M) Session { return sessionFunc(doM4) }, Gen: genM4Frames}
	drivers["m4raw"] = &Driver{Mutate: true, New: func(M) Session { return sessionFunc(doM4) }, Gen: genM4Raw}
}

func ascView(c *mpeg4audio.AudioSpecificConfig) M {
	return M{"type": int(c.Type), "rate": c.SampleRate, "chan": int(c.ChannelConfig), "count": c.ChannelCount,
		"etype": int(c.ExtensionType), "erate": c.ExtensionSampleRate, "short": c.FrameLengthFlag,
		"dep": c.DependsOnCoreCoder, "delay": int(c.CoreCoderDelay)}
}

func ascOf(v M) *mpeg4audio.AudioSpecificConfig {
	return &mpeg4audio.AudioSpecificConfig{
		Type: mpeg4audio.ObjectType(num(v["type"])), SampleRate: num(v["rate"]), ChannelConfig: uint8(num(v["chan"])),
		ChannelCount: num(v["count"]), ExtensionType: mpeg4audio.ObjectType(num(v["etype"])), ExtensionSampleRate: num(v["erate"]),
		FrameLengthFlag: boolean(v["short"]), DependsOnCoreCoder: boolean(v["dep"]), CoreCoderDelay: uint16(num(v["delay"])),
	}
}

func smcView(c *mpeg4audio.StreamMuxConfig) M {
	progs := L{}
	for _, p := range c.Programs {
		layers := L{}
		for _, l := range p.Layers {
			asc := L{}
			if l.AudioSpecificConfig != nil {
				asc = append(asc, ascView(l.AudioSpecificConfig))
			}
			layers = append(layers, M{"asc": asc, "flt": int(l.FrameLengthType), "full": int(l.LatmBufferFullness),
				"len": int(l.FrameLength), "celp": int(l.CELPframeLengthTableIndex), "hvxc": l.HVXCframeLengthTableIndex})
		}
		progs = append(progs, layers)
	}
	return M{"sub": int(c.NumSubFrames), "progs": progs, "other": c.OtherDataPresent, "otherlen": u32(c.OtherDataLenBits),
		"crc": c.CRCCheckPresent, "crcsum": int(c.CRCCheckSum)}
}

func smcOf(v M) *mpeg4audio.StreamMuxConfig {
	c := &mpeg4audio.StreamMuxConfig{
		NumSubFrames: uint(num(v["sub"])), OtherDataPresent: boolean(v["other"]), OtherDataLenBits: uint32(unlimbs(v["otherlen"])),
		CRCCheckPresent: boolean(v["crc"]), CRCCheckSum: uint8(num(v["crcsum"])),
	}
	for _, p := range list(v["progs"]) {
		pr := &mpeg4audio.StreamMuxConfigProgram{}
		for _, x := range list(p) {
			l := obj(x)
			la := &mpeg4audio.StreamMuxConfigLayer{
				FrameLengthType: uint(num(l["flt"])), LatmBufferFullness: uint(num(l["full"])), FrameLength: uint(num(l["len"])),
				CELPframeLengthTableIndex: uint(num(l["celp"])), HVXCframeLengthTableIndex: boolean(l["hvxc"]),
			}
			if a := list(l["asc"]); len(a) > 0 {
				la.AudioSpecificConfig = ascOf(obj(a[0]))
			}
			pr.Layers = append(pr.Layers, la)
		}
		c.Programs = append(c.Programs, pr)
	}
	return c
}

func bufRes(b []byte, err error) M {
	if err != nil {
		return errRes
	}
	return M{"buf": ints(keep(b))}
}

func doM4(op M) M {
	switch str(op["op"]) {
	case "asc":
		in := private(op["buf"])
		c := object[mpeg4audio.AudioSpecificConfig]()
		if c.Unmarshal(in) != nil {
			return errRes
		}
		return ascView(c)
	case "asc_enc":
		return bufRes(encoded(ascOf(obj(op["v"]))))
	case "smc":
		in := private(op["buf"])
		c := object[mpeg4audio.StreamMuxConfig]()
		if c.Unmarshal(in) != nil {
			return errRes
		}
		scribble(in)
		return smcView(c)
	case "smc_enc":
		return bufRes(encoded(smcOf(obj(op["v"]))))
	case "ame":
		in := private(op["buf"])
		e := object[mpeg4audio.AudioMuxElement]()
		e.MuxConfigPresent, e.UseSameStreamMux = boolean(op["present"]), false
		if g := list(op["given"]); len(g) > 0 {
			e.StreamMuxConfig = smcOf(obj(g[0]))
			if w := watching(); w != nil {
				w.take(e.StreamMuxConfig)
			}
		} else if !e.MuxConfigPresent || len(in) == 0 || in[0]&0x80 != 0 {
			e.StreamMuxConfig = nil
		}
		if e.Unmarshal(in) != nil {
			return errRes
		}
		scribble(in)
		data := L{}
		for _, f := range e.Payloads {
			x := L{}
			for _, p := range f {
				y := L{}
				for _, l := range p {
					y = append(y, ints(keep(l)))
				}
				x = append(x, y)
			}
			data = append(data, x)
		}
		return M{"same": e.UseSameStreamMux, "cfg": smcView(e.StreamMuxConfig), "data": data}
	case "ame_enc":
		e := mpeg4audio.AudioMuxElement{MuxConfigPresent: boolean(op["present"]), UseSameStreamMux: boolean(op["same"]),
			StreamMuxConfig: smcOf(obj(list(op["given"])[0]))}
		for _, f := range list(op["data"]) {
			var x [][][]byte
			for _, p := range list(f) {
				x = append(x, naluLists(p))
			}
			e.Payloads = append(e.Payloads, x)
		}
		return bufRes(encoded(&e))
	case "ass":
		in := private(op["buf"])
		s := object[mpeg4audio.AudioSyncStream]()
		if s.Unmarshal(in) != nil {
			return errRes
		}
		return M{"els": listInts(s.AudioMuxElements)}
	case "ass_enc":
		return bufRes(encoded(mpeg4audio.AudioSyncStream{AudioMuxElements: naluLists(op["els"])}))
	case "adts":
		in := private(op["buf"])
		ps := object[mpeg4audio.ADTSPackets]()
		if ps.Unmarshal(in) != nil {
			return errRes
		}
		out := L{}
		for _, p := range *ps {
			out = append(out, M{"type": int(p.Type), "rate": p.SampleRate, "chan": int(p.ChannelConfig), "count": p.ChannelCount,
				"au": ints(keep(p.AU))})
		}
		return M{"pkts": out}
	case "adts_enc":
		var ps mpeg4audio.ADTSPackets
		for _, x := range list(op["pkts"]) {
			p := obj(x)
			ps = append(ps, &mpeg4audio.ADTSPacket{Type: mpeg4audio.ObjectType(num(p["type"])), SampleRate: num(p["rate"]),
				ChannelConfig: uint8(num(p["chan"])), ChannelCount: num(p["count"]), AU: private(p["au"])})
		}
		return bufRes(encoded(ps))
	case "pce":
		in := private(op["buf"])
		p, err := mpeg4audio.ParsePCEFromRawDataBlock(in)
		if err != nil {
			return errRes
		}
		return M{"tag": int(p.ElementInstanceTag), "otype": int(p.ObjectType), "fi": int(p.SamplingFrequencyIndex),
			"front": int(p.NumFrontChannelElements), "side": int(p.NumSideChannelElements), "back": int(p.NumBackChannelElements),
			"lfe": int(p.NumLFEChannelElements), "assoc": int(p.NumAssocDataElements), "cc": int(p.NumValidCCElements),
			"channels": p.ChannelCount}
	case "count":
		in := private(op["buf"])
		n, err := mpeg4audio.CountChannelsFromRawDataBlock(in)
		if err != nil {
			return errRes
		}
		return M{"n": n}
	}
	panic("harness: op")
}

var m4Rates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

func genM4Frames(r *rand.Rand, n int, _ bool) []Case {
	var cs []Case
	add := func(op M) { cs = append(cs, Case{Cfg: M{"x": 0}, Ops: []M{op}}) }
	sizes := []int{0, 1, 2, 7, 248, 249, 250, 255, 256, 2040, 2041, 2042, 4095, 4096, 5119, 5120, 5121, 8184, 8185, 8191, 8192, 9000}
	for i, s := range sizes {
		add(M{"op": "adts_enc", "pkts": []M{{"type": 2, "rate": 48000, "chan": 2, "count": 0, "au": ints(randBytes(r, s))}}})
		add(M{"op": "ass_enc", "els": L{ints(randBytes(r, s))}})
		add(M{"op": "ass_enc", "els": L{ints(randBytes(r, i)), ints(randBytes(r, s))}})
		if s >= 1 && s <= 8184 {
			p := mpeg4audio.ADTSPackets{{Type: 2, SampleRate: 48000, ChannelConfig: 2, AU: randBytes(r, s)}}
			b := adtsRef(p)
			add(M{"op": "adts", "buf": ints(b)})
			b[6] |= byte(i % 4)
			add(M{"op": "adts", "buf": ints(b)})
		}
	}
	for range n / 4 {
		var ps mpeg4audio.ADTSPackets
		var m []M
		for range 1 + r.Intn(4) {
			p := &mpeg4audio.ADTSPacket{Type: mpeg4audio.ObjectType(1 + r.Intn(4)), SampleRate: m4Rates[r.Intn(13)], ChannelConfig: uint8(r.Intn(8)),
				AU: randBytes(r, 1+r.Intn(20))}
			x := M{"type": int(p.Type), "rate": p.SampleRate, "chan": int(p.ChannelConfig), "count": 0, "au": ints(p.AU)}
			switch r.Intn(12) {
			case 0:
				x["type"] = r.Intn(7)
			case 1:
				x["rate"] = []int{48001, 0, 7350, 11024, 88200}[r.Intn(5)]
			case 2, 3:
				x["chan"], x["count"] = 0, r.Intn(10)
			case 4:
				x["chan"] = []int{8, 9, 15, 16, 64, 255}[r.Intn(6)]
			case 5:
				p.AU = nil // a frame without content, which is refused
			}
			ps = append(ps, p)
			m = append(m, x)
		}
		add(M{"op": "adts_enc", "pkts": m})
		b := adtsRef(ps)
		switch r.Intn(5) {
		case 0:
			b = b[:r.Intn(len(b)+1)]
		case 1:
			b[r.Intn(min(7, len(b)))] ^= 1 << r.Intn(8)
		case 2:
			b = append(b, randBytes(r, 1+r.Intn(9))...)
		}
		add(M{"op": "adts", "buf": ints(b)})
	}
	for range n / 8 {
		var els L
		var b []byte
		for range 1 + r.Intn(4) {
			x := randBytes(r, []int{0, 1, 5, 255, 256, 300}[r.Intn(6)])
			els = append(els, ints(x))
			b = append(b, 0x56, 0xe0|byte(len(x)>>8), byte(len(x)))
			b = append(b, x...)
		}
		add(M{"op": "ass_enc", "els": els})
		switch r.Intn(5) {
		case 0:
			b = b[:r.Intn(len(b)+1)]
		case 1:
			b[r.Intn(3)] ^= 1 << r.Intn(8)
		case 2:
			b = append(b, randBytes(r, 1+r.Intn(4))...)
		}
		add(M{"op": "ass", "buf": ints(b)})
	}
	return cs
}

// adtsRef encodes ADTS frames independently of the code under test.
func adtsRef(ps mpeg4audio.ADTSPackets) []byte {
	var out []byte
	for _, p := range ps {
		fi := 0
		for i, x := range m4Rates {
			if x == p.SampleRate {
				fi = i
			}
		}
		w := &bitw{}
		w.u(0xfff, 12)
		w.u(1, 4)
		w.u(uint64(p.Type-1), 2)
		w.u(uint64(fi), 4)
		w.u(0, 1)
		w.u(uint64(p.ChannelConfig), 3)
		w.u(0, 4)
		w.u(uint64(len(p.AU)+7), 13)
		w.u(0x7ff, 11)
		w.u(0, 2)
		out = append(append(out, w.b...), p.AU...)
	}
	return out
}

// raw data blocks starting with fill and data stream elements
func genM4Raw(r *rand.Rand, n int, _ bool) []Case {
	var cs []Case
	for range n {
		w := &bitw{}
		if r.Intn(4) == 0 { // many short elements, so that any alignment is reached
			for range r.Intn(10) {
				w.u(6, 3).u(0, 4)
			}
			w.u(uint64([]int{4, 6}[r.Intn(2)]), 3)
			w.u([]uint64{0xffffff, uint64(r.Intn(1 << 24))}[r.Intn(2)], []int{4, 5, 13, 21}[r.Intn(4)])
			w.u([]uint64{0, uint64(r.Intn(256))}[r.Intn(2)], r.Intn(8))
			cs = append(cs, Case{Cfg: M{"x": 0}, Ops: []M{{"op": "count", "buf": ints(w.b)}}})
			continue
		}
		pce := r.Intn(4) == 0
		for range r.Intn(4) {
			if pce {
				break
			}
			if r.Intn(2) == 0 {
				w.u(6, 3)
				c := []int{0, 1, 2, 3, 14, 15, 15}[r.Intn(7)]
				w.u(uint64(c), 4)
				if c == 15 {
					e := []int{0, 1, 2, 10}[r.Intn(4)]
					w.u(uint64(e), 8)
					c += e - 1
				}
				for range c {
					w.u(uint64(r.Intn(256)), 8)
				}
			} else {
				w.u(4, 3)
				w.u(uint64(r.Intn(16)), 4)
				al := r.Intn(2)
				w.u(uint64(al), 1)
				c := []int{0, 1, 2, 5, 254, 255, 255}[r.Intn(7)]
				w.u(uint64(c), 8)
				if c == 255 {
					e := []int{0, 1, 255, 10}[r.Intn(4)]
					w.u(uint64(e), 8)
					c += e
				}
				for al == 1 && w.n%8 != 0 {
					w.u(uint64(r.Intn(2)), 1)
				}
				for range c {
					w.u(uint64(r.Intn(256)), 8)
				}
			}
		}
		id := r.Intn(9)
		if id == 8 || (pce && r.Intn(8) != 0) {
			id = 5
		}
		w.u(uint64(id), 3)
		if id == 5 {
			w.u(uint64(r.Intn(1<<10)), 10)
			f, s, b, l := r.Intn(4), r.Intn(3), r.Intn(3), r.Intn(4)
			w.u(uint64(f), 4)
			w.u(uint64(s), 4)
			w.u(uint64(b), 4)
			w.u(uint64(l), 2)
			w.u(uint64(r.Intn(128)), 7)
			for _, k := range []int{4, 4, 3} {
				x := r.Intn(2)
				w.u(uint64(x), 1)
				if x == 1 {
					w.u(uint64(r.Intn(1<<k)), k)
				}
			}
			for range f + s + b {
				w.u(uint64(r.Intn(32)), 5)
			}
			for range l {
				w.u(uint64(r.Intn(16)), 4)
			}
		}
		for range r.Intn(12) {
			w.u(uint64(r.Intn(2)), 1)
		}
		b := w.b
		if r.Intn(3) == 0 && len(b) > 0 {
			b = b[:r.Intn(len(b))]
		}
		op := "count"
		if pce && r.Intn(4) != 0 {
			op = "pce"
		}
		cs = append(cs, Case{Cfg: M{"x": 0}, Ops: []M{{"op": op, "buf": ints(b)}}})
	}
	return cs
}
