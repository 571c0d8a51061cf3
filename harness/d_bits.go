package main

import (
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/bits"
)

// bits: a cursor on a buffer, read with every reader; or a zeroed buffer
// filled with the writers.
func init() {
	drivers["bits"] = &Driver{Gen: genBits, New: newBits}
}

func newBits(cfg M) Session {
	buf := byts(cfg["buf"])
	pos := num(cfg["pos"])
	return sessionFunc(func(op M) M {
		n := num(op["n"])
		switch str(op["op"]) {
		case "has":
			if bits.HasSpace(buf, pos, n) != nil {
				return errRes
			}
			return M{"ok": true}
		case "read":
			v, err := bits.ReadBits(buf, &pos, n)
			if err != nil {
				return M{"err": true, "pos": pos}
			}
			return M{"v": limbs(v), "pos": pos}
		case "readu": // unsafe variant, used after HasSpace only
			if bits.HasSpace(buf, pos, n) != nil {
				return errRes
			}
			v := bits.ReadBitsUnsafe(buf, &pos, n)
			return M{"v": limbs(v), "pos": pos}
		case "flag":
			v, err := bits.ReadFlag(buf, &pos)
			if err != nil {
				return M{"err": true, "pos": pos}
			}
			return M{"v": limbs(uint64(num(v))), "pos": pos}
		case "ue":
			v, err := bits.ReadGolombUnsigned(buf, &pos)
			if err != nil {
				return errRes
			}
			return M{"v": limbs(uint64(v)), "pos": pos}
		case "se":
			v, err := bits.ReadGolombSigned(buf, &pos)
			if err != nil {
				return errRes
			}
			neg := v < 0
			a := int64(v)
			if neg {
				a = -a
			}
			return M{"v": limbs(uint64(a)), "neg": neg, "pos": pos}
		case "write":
			bits.WriteBitsUnsafe(buf, &pos, unlimbs(op["v"]), n)
			return M{"buf": ints(buf), "pos": pos}
		case "wflag":
			bits.WriteFlagUnsafe(buf, &pos, boolean(op["b"]))
			return M{"buf": ints(buf), "pos": pos}
		}
		panic("harness: op")
	})
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	switch r.Intn(6) {
	case 0: // sparse: long runs of zeros
		for i := range b {
			if r.Intn(4) != 0 {
				b[i] = 0
			}
		}
	case 1:
		for i := range b {
			if r.Intn(3) != 0 {
				b[i] = 0xff
			}
		}
	}
	return b
}

func genBits(r *rand.Rand, n int, deep bool) []Case {
	var out []Case
	for i := range n {
		if i%3 == 2 { // writer
			sz := 1 + r.Intn(12)
			total := sz * 8
			start := r.Intn(min(9, total))
			c := Case{Cfg: M{"buf": make([]int, sz), "pos": start}}
			left := total - start
			for left > 0 {
				if r.Intn(5) == 0 {
					c.Ops = append(c.Ops, M{"op": "wflag", "b": r.Intn(2) == 0})
					left--
					continue
				}
				k := 1 + r.Intn(min(left, 64))
				v := r.Uint64()
				if r.Intn(3) == 0 {
					v = ^uint64(0)
				}
				if k < 64 {
					v &= 1<<k - 1
				}
				c.Ops = append(c.Ops, M{"op": "write", "n": k, "v": limbs(v)})
				left -= k
			}
			out = append(out, c)
			continue
		}
		sz := r.Intn(20)
		buf := randBytes(r, sz)
		c := Case{Cfg: M{"buf": ints(buf), "pos": r.Intn(sz*8 + 1)}}
		for range 1 + r.Intn(8) {
			switch r.Intn(6) {
			case 0:
				c.Ops = append(c.Ops, M{"op": "has", "n": r.Intn(70)})
			case 1:
				c.Ops = append(c.Ops, M{"op": "flag"})
			case 2:
				c.Ops = append(c.Ops, M{"op": "ue"})
			case 3:
				c.Ops = append(c.Ops, M{"op": "se"})
			case 4:
				c.Ops = append(c.Ops, M{"op": "readu", "n": r.Intn(65)})
			default:
				c.Ops = append(c.Ops, M{"op": "read", "n": r.Intn(65)})
			}
		}
		out = append(out, c)
	}
	return out
}
