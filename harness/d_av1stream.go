package main

import (
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
)

func init() {
	drivers["av1stream"] = &Driver{Gen: genAv1Stream, New: func(M) Session { return sessionFunc(doAv1Stream) }}
}

func doAv1Stream(op M) M {
	switch str(op["op"]) {
	case "lebdec":
		v := av1.LEB128(0xdeadbeef)
		n, err := v.Unmarshal(private(op["buf"]))
		if err != nil {
			return errRes
		}
		return M{"v": u32(uint32(v)), "n": n}
	case "lebenc":
		v := av1.LEB128(unlimbs(op["v"]))
		buf := make([]byte, 16)
		n := v.MarshalTo(buf)
		return M{"buf": ints(buf[:n]), "n": n, "size": v.MarshalSize()}
	case "obu":
		h := object[av1.OBUHeader]()
		if err := h.Unmarshal(private(op["buf"])); err != nil {
			return errRes
		}
		return M{"type": int(h.Type), "size": h.HasSize}
	case "dec":
		in := private(op["buf"])
		bs := object[av1.Bitstream]()
		if err := bs.Unmarshal(in); err != nil {
			return errRes
		}
		return M{"obus": listInts(*bs)}
	case "enc":
		b, err := encoded(av1.Bitstream(naluLists(op["obus"])))
		if err != nil {
			return errRes
		}
		return M{"buf": ints(keep(b))}
	}
	panic("harness: op")
}

func leb(v uint32, pad int) []byte {
	var o []byte
	for {
		b := byte(v & 0x7f)
		v >>= 7
		if v == 0 && pad == 0 {
			return append(o, b)
		}
		if v == 0 {
			pad--
		}
		o = append(o, b|0x80)
	}
}

func genAv1Stream(r *rand.Rand, n int, deep bool) []Case {
	var out []Case
	cfg := M{"x": 0}
	for i := range n {
		switch i % 4 {
		case 0:
			b := make([]byte, r.Intn(10))
			r.Read(b)
			if r.Intn(2) == 0 {
				for j := range len(b) {
					b[j] |= 0x80
				}
				if len(b) > 0 {
					b[r.Intn(len(b))] &= 0x7f
				}
			}
			out = append(out, Case{Cfg: cfg, Ops: []M{
				{"op": "lebdec", "buf": ints(b)},
				{"op": "lebenc", "v": u32(r.Uint32() >> r.Intn(33))},
			}})
		default:
			var obus [][]byte
			var s []byte
			for range 1 + r.Intn(5) {
				sz := r.Intn(20)
				if r.Intn(30) == 0 {
					sz = 120 + r.Intn(200)
				}
				if i < 8 && r.Intn(2) == 0 {
					sz = 16380 + r.Intn(8)
				}
				if i == 9 && len(obus) == 0 {
					sz = 65530 + r.Intn(300)
				}
				p := make([]byte, sz)
				r.Read(p)
				h := byte(r.Intn(16)<<3 | r.Intn(2))
				if r.Intn(40) == 0 {
					h = byte(r.Intn(256))
				}
				obus = append(obus, append([]byte{h}, p...))
				s = append(s, h|2)
				pad := 0
				if r.Intn(4) == 0 {
					pad = r.Intn(4)
				}
				s = append(append(s, leb(uint32(sz), pad)...), p...)
			}
			c := Case{Cfg: cfg, Ops: []M{
				{"op": "enc", "obus": listInts(obus)},
				{"op": "dec", "buf": ints(s)},
			}}
			if i >= 8 && i != 9 {
				if r.Intn(2) == 0 {
					s = s[:r.Intn(len(s)+1)]
				} else {
					s[r.Intn(len(s))] ^= 1 << r.Intn(8)
				}
				c.Ops = append(c.Ops, M{"op": "dec", "buf": ints(s)})
			}
			out = append(out, c)
		}
	}
	return out
}
