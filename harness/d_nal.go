package main

import (
	"bytes"
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
)

func init() {
	drivers["annexb"] = &Driver{Gen: genAnnexB, New: func(M) Session { d := new(h264.AnnexB); return sessionFunc(func(op M) M { return doAnnexB(d, op) }) }}
	drivers["avcc"] = &Driver{Gen: genAvcc, New: func(M) Session { d := new(h264.AVCC); return sessionFunc(func(op M) M { return doAvcc(d, op) }) }}
}

func naluLists(v any) [][]byte {
	return privateList(v)
}

func listInts(n [][]byte) [][]int {
	o := make([][]int, len(n))
	for i := range n {
		o[i] = ints(keep(n[i]))
	}
	return o
}

// bigNalus builds NAL units with recognizable, zero-free contents.
func bigNalus(v any) [][]byte {
	var o [][]byte
	for i, s := range list(v) {
		o = append(o, bytes.Repeat([]byte{byte(0x11 + i%200)}, num(s)))
	}
	return o
}

// checkBig compares contents and reduces to sizes.
func checkBig(dec, orig [][]byte) M {
	var want [][]byte
	for _, n := range orig {
		if len(n) > 0 {
			want = append(want, n)
		}
	}
	if len(dec) != len(want) {
		return M{"count": len(dec)}
	}
	sizes := []int{}
	for i := range dec {
		if !bytes.Equal(dec[i], want[i]) {
			return M{"corrupted": i}
		}
		sizes = append(sizes, len(dec[i]))
	}
	return M{"sizes": sizes}
}

// the receiver d is reused across the operations of a case
func doAnnexB(d *h264.AnnexB, op M) M {
	switch str(op["op"]) {
	case "dec":
		d = again(d)
		if err := d.Unmarshal(private(op["buf"])); err != nil {
			return errRes
		}
		return M{"nalus": listInts(*d)}
	case "enc":
		b, err := encoded(h264.AnnexB(naluLists(op["nalus"])))
		if err != nil {
			return errRes
		}
		return M{"buf": ints(keep(b))}
	case "big":
		nalus := bigNalus(op["sizes"])
		var b []byte
		for _, n := range nalus {
			b = append(append(b, 0, 0, 0, 1), n...)
		}
		if err := d.Unmarshal(b); err != nil {
			return errRes
		}
		return checkBig(*d, nalus)
	}
	panic("harness: op")
}

func doAvcc(d *h264.AVCC, op M) M {
	switch str(op["op"]) {
	case "dec":
		d = again(d)
		if err := d.Unmarshal(private(op["buf"])); err != nil {
			return errRes
		}
		return M{"nalus": listInts(*d)}
	case "enc":
		b, err := encoded(h264.AVCC(naluLists(op["nalus"])))
		if err != nil {
			return errRes
		}
		return M{"buf": ints(keep(b))}
	case "big":
		nalus := bigNalus(op["sizes"])
		var b []byte
		for _, n := range nalus {
			l := len(n)
			b = append(append(b, byte(l>>24), byte(l>>16), byte(l>>8), byte(l)), n...)
		}
		if err := d.Unmarshal(b); err != nil {
			return errRes
		}
		return checkBig(*d, nalus)
	case "bigenc":
		nalus := bigNalus(op["sizes"])
		b, err := h264.AVCC(nalus).Marshal()
		if err != nil {
			return errRes
		}
		res := errRes
		if err := d.Unmarshal(b); err == nil {
			res = checkBig(*d, nalus)
		}
		return M{"len": len(b), "dec": res}
	}
	panic("harness: op")
}

func randNalu(r *rand.Rand, max int) []byte {
	b := make([]byte, 1+r.Intn(max))
	for i := range b {
		switch r.Intn(4) {
		case 0:
			b[i] = 0
		case 1:
			b[i] = byte(r.Intn(5))
		default:
			b[i] = byte(r.Intn(256))
		}
	}
	return b
}

func noSC(b []byte) []byte {
	for {
		i := bytes.Index(b, []byte{0, 0, 1})
		if i < 0 {
			return b
		}
		b[i+2] = 3
	}
}

func one(cfg M, op M) Case { return Case{Cfg: cfg, Ops: []M{op}} }

func bigSizes(r *rand.Rand) []int {
	const max = 8 * 1024 * 1024
	var s []int
	n := 1 + r.Intn(3)
	left := max
	for i := range n {
		k := left
		if i < n-1 {
			k = r.Intn(left)
		}
		s = append(s, k)
		left -= k
	}
	i := r.Intn(n)
	if d := r.Intn(5) - 2; s[i]+d >= 0 {
		s[i] += d
	}
	switch r.Intn(4) {
	case 0:
		s = append(s, r.Intn(3))
	case 1:
		s = append(s, r.Intn(3), r.Intn(3))
	}
	return s
}

func countSizes(r *rand.Rand) []int {
	n := 45 + r.Intn(10)
	s := make([]int, n)
	for i := range s {
		s[i] = 1 + r.Intn(3)
		if r.Intn(12) == 0 {
			s[i] = 0
		}
	}
	return s
}

func genAnnexB(r *rand.Rand, n int, deep bool) []Case {
	var out []Case
	cfg := M{"x": 0}
	for i := range n {
		switch {
		case i < 12:
			out = append(out, one(cfg, M{"op": "big", "sizes": bigSizes(r)}))
		case i < 60:
			out = append(out, one(cfg, M{"op": "big", "sizes": countSizes(r)}))
		case i%2 == 0: // encode, then decode what an encoder could emit
			var nalus [][]byte
			var buf []byte
			for range 1 + r.Intn(5) {
				x := noSC(randNalu(r, 30))
				nalus = append(nalus, x)
				buf = append(buf, bytes.Repeat([]byte{0}, 2+r.Intn(3))...)
				buf = append(append(buf, 1), x...)
			}
			out = append(out, Case{Cfg: cfg, Ops: []M{
				{"op": "enc", "nalus": listInts(nalus)},
				{"op": "dec", "buf": ints(h264ref(nalus))},
				{"op": "dec", "buf": ints(buf)},
			}})
		default:
			b := randNalu(r, 60)
			if r.Intn(5) != 0 {
				b = append([]byte{0, 0, 0, 1}[r.Intn(2):], b...)
			}
			out = append(out, one(cfg, M{"op": "dec", "buf": ints(b)}))
		}
	}
	return out
}

func h264ref(nalus [][]byte) []byte {
	var b []byte
	for _, n := range nalus {
		b = append(append(b, 0, 0, 0, 1), n...)
	}
	return b
}

func genAvcc(r *rand.Rand, n int, deep bool) []Case {
	var out []Case
	cfg := M{"x": 0}
	for i := range n {
		switch {
		case i < 12:
			s := bigSizes(r)
			out = append(out, one(cfg, M{"op": "big", "sizes": s}), one(cfg, M{"op": "bigenc", "sizes": s}))
		case i < 60:
			s := countSizes(r)
			out = append(out, one(cfg, M{"op": "big", "sizes": s}), one(cfg, M{"op": "bigenc", "sizes": s}))
		case i < 80: // lengths that need 2 and 3 bytes
			s := []int{[]int{255, 256, 257, 511, 65535, 65536, 65537, 70000}[r.Intn(8)], 1 + r.Intn(70000)}
			out = append(out, one(cfg, M{"op": "bigenc", "sizes": s}))
		case i%2 == 0:
			var nalus [][]byte
			var buf []byte
			for range 1 + r.Intn(5) {
				x := randNalu(r, 30)
				nalus = append(nalus, x)
				buf = append(append(buf, 0, 0, 0, byte(len(x))), x...)
			}
			cut := buf[:r.Intn(len(buf)+1)]
			out = append(out, Case{Cfg: cfg, Ops: []M{
				{"op": "enc", "nalus": listInts(nalus)},
				{"op": "dec", "buf": ints(buf)},
				{"op": "dec", "buf": ints(cut)},
			}})
		default:
			b := randNalu(r, 40)
			for j := 0; j < len(b); j += 4 + r.Intn(8) {
				for k := j; k < j+3 && k < len(b); k++ {
					b[k] = 0
				}
				if j+3 < len(b) {
					b[j+3] = byte(r.Intn(8))
				}
			}
			out = append(out, one(cfg, M{"op": "dec", "buf": ints(b)}))
		}
	}
	return out
}
