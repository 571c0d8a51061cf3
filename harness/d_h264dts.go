package main

import (
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
)

// h264dts: h264.DTSExtractor on access units built from an abstract description.
func init() {
	drivers["h264dts"] = &Driver{Gen: genH264Dts, New: newH264Dts}
}

func buildH264SPS(s M, index int) []byte {
	w := &bitw{}
	prof := uint64(66)
	if boolean(s["high"]) {
		prof = 100
	}
	w.u(prof, 8).u(0, 8).u(31, 8)
	w.ue(uint64(index))
	if prof == 100 {
		w.ue(1).ue(0).ue(0).u(0, 1).u(0, 1)
	}
	w.ue(uint64(num(s["log2fn"]) - 4))
	pt := num(s["poctype"])
	w.ue(uint64(pt))
	switch pt {
	case 0:
		w.ue(uint64(num(s["log2poc"]) - 4))
	case 1:
		w.u(0, 1).se(0).se(0).ue(0)
	}
	w.ue(4).u(0, 1).ue(39).ue(29)
	w.flag(boolean(s["fmo"]))
	if !boolean(s["fmo"]) {
		w.u(0, 1)
	}
	w.u(1, 1).u(0, 1).u(0, 1)
	return append([]byte{0x67}, addEPB(w.trail())...)
}

// limit of a limb pair that selects the time base
func baseOf(cfg M) int64 {
	b := list(cfg["base"])
	if len(b) == 0 {
		return 0
	}
	v := int64(num(b[0]))<<32 | int64(num(b[1]))<<16 | int64(num(b[2]))
	return v
}

func newH264Dts(cfg M) Session {
	var d *h264.DTSExtractor
	if boolean(cfg["old"]) {
		d = h264.NewDTSExtractor()
	} else {
		d = &h264.DTSExtractor{}
		d.Initialize()
	}
	base := baseOf(cfg)
	var spss [][]byte
	var params []M
	for i, s := range list(cfg["sps"]) {
		spss = append(spss, buildH264SPS(obj(s), i))
		params = append(params, obj(s))
	}
	cur := 0
	cnt := 0

	return sessionFunc(func(op M) M {
		var au [][]byte
		dress := num(op["dress"]) // decorations that must not matter
		if dress&1 != 0 {
			au = append(au, []byte{9, 0xF0})
		}
		if i := num(op["sps"]); i != 0 {
			au = append(au, append([]byte(nil), spss[i-1]...))
			if boolean(op["ref"]) && dress&2 != 0 {
				au = append(au, []byte{0x68, 0xCE, 0x38, 0x80})
			}
			cur = i
		}
		if op["bad"] != nil {
			au = append(au, []byte{0x67, 0x64, 0x00})
		}
		if dress&5 == 5 {
			au = append(au, []byte{})
		}
		if dress&4 != 0 {
			au = append(au, []byte{6, 5, 1, 0xAA, 0x80})
		}
		if boolean(op["ref"]) && str(op["slice"]) == "none" {
			au = append(au, []byte{0x68, 0xCE, 0x38, 0x80})
		}
		if str(op["slice"]) != "none" {
			log2fn, log2poc := 4, 4
			if cur != 0 {
				log2fn = num(params[cur-1]["log2fn"])
				log2poc = num(params[cur-1]["log2poc"])
			}
			w := &bitw{}
			first, pps, fn, id := uint64(0), uint64(cnt%3), uint64(cnt)*0x5555, uint64(cnt%7)
			if num(op["wide"]) != 0 { // long slice headers
				first, pps = []uint64{1199, 1023}[cnt%2], []uint64{255, 254}[cnt/2%2]
				fn, id = []uint64{0, 0xffff}[cnt%2], []uint64{65535, 65534, 32767}[cnt%3]
			}
			w.ue(first).ue(uint64(cnt % 10)).ue(pps)
			w.u(fn, log2fn)
			h := byte(1)
			if str(op["slice"]) == "idr" {
				w.ue(id)
				h = 5
			}
			if boolean(op["ref"]) {
				h |= 0x60
			}
			pre := w.n
			w.u(uint64(num(op["poc"])), log2poc)
			full := w.n
			w.u(uint64(cnt)*2654435761, 32)
			payload := w.trail()
			if boolean(op["cut"]) {
				// keep the bits before the POC only (rounded down to bytes)
				k := pre / 8
				if (full-1)/8 < k {
					k = (full - 1) / 8
				}
				payload = payload[:k]
			}
			nalu := append([]byte{h}, addEPB(payload)...)
			if n := len(payload); boolean(op["cut"]) && n > 0 && payload[n-1] == 0 {
				nalu = nalu[:len(nalu)-1] // the end of a unit which is cut is not protected
			}
			au = append(au, nalu)
			if dress&8 != 0 { // a second slice of the same picture, with a misleading POC
				au = append(au, []byte{h, 0xE0, 0x11, 0x22, 0x33, 0x44, 0x55})
			}
		}
		cnt++
		au = privateUnits(au)
		v, err := d.Extract(au, int64(num(op["pts"]))+base)
		for _, x := range au {
			scribble(x) // buffers of the caller, who uses them again
		}
		if err != nil {
			return errRes
		}
		rel := v - base
		if rel > 1<<30 || rel < -(1<<30) {
			return M{"far": true}
		}
		return M{"dts": rel}
	})
}

// displayOrder returns, for a group of n pictures in decoding order, their
// display positions, for a given B-picture structure.
func displayOrder(r *rand.Rand, n int) []int {
	var out []int
	switch r.Intn(5) {
	case 0: // no reordering
		for i := range n {
			out = append(out, i)
		}
	case 1, 2: // I P b b P b b
		b := 1 + r.Intn(4)
		out = append(out, 0)
		for i := 1; i < n; {
			last := min(i+b, n-1)
			out = append(out, last)
			for k := i; k < last; k++ {
				out = append(out, k)
			}
			i = last + 1
		}
	case 3: // pyramid
		out = append(out, 0)
		var rec func(lo, hi int)
		rec = func(lo, hi int) {
			if hi-lo < 2 {
				return
			}
			m := (lo + hi) / 2
			out = append(out, m)
			rec(lo, m)
			rec(m, hi)
		}
		for i := 1; i < n; {
			last := min(i+4+4*r.Intn(2)-1, n-1)
			out = append(out, last)
			rec(i-1, last)
			i = last + 1
		}
	default: // local shuffle
		for i := range n {
			out = append(out, i)
		}
		for i := 1; i < n; i++ {
			j := i + r.Intn(min(n-i, 4))
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func randBase(r *rand.Rand) []int {
	switch r.Intn(4) {
	case 0:
		return []int{0, 0, 0}
	case 1:
		return []int{1, 65535, 60000} // close to 2^33
	case 2:
		return []int{2000000, 17, 3}
	default:
		return []int{0, r.Intn(65536), r.Intn(65536)}
	}
}

func genH264Dts(r *rand.Rand, n int, deep bool) []Case {
	var out []Case
	for range n {
		var spss []any
		for range 1 + r.Intn(3) {
			pt := 0
			if r.Intn(6) == 0 {
				pt = r.Intn(3)
			}
			spss = append(spss, M{
				"high": r.Intn(2) == 0, "log2fn": 4 + r.Intn(13), "log2poc": 4 + r.Intn(13),
				"poctype": pt, "fmo": r.Intn(8) != 0,
			})
		}
		c := Case{Cfg: M{"sps": spss, "base": randBase(r), "old": r.Intn(2) == 0}}
		if r.Intn(4) == 0 { // arbitrary
			cur := 1
			for i := range 2 + r.Intn(12) {
				sps := 0
				if i == 0 && r.Intn(8) != 0 {
					sps = 1
				} else if r.Intn(8) == 0 {
					sps = 1 + r.Intn(len(spss))
				}
				if sps != 0 {
					cur = sps
				}
				slice := []string{"idr", "non", "non", "non", "none"}[r.Intn(5)]
				if i == 0 && r.Intn(4) != 0 {
					slice = "idr"
				}
				lim := 1 << num(spss[cur-1].(M)["log2poc"])
				poc := r.Intn(min(lim, 24))
				if r.Intn(4) == 0 {
					poc = r.Intn(lim)
				}
				c.Ops = append(c.Ops, M{
					"op": "au", "sps": sps, "slice": slice, "poc": poc,
					"ref": slice == "idr" || sps != 0 || r.Intn(2) == 0, "cut": r.Intn(15) == 0,
					"pts": i*3000 + r.Intn(9000) - 3000, "dress": r.Intn(16),
				})
				if r.Intn(16) == 0 {
					c.Ops[len(c.Ops)-1]["bad"] = 1
				}
			}
			out = append(out, wideHeaders(r, c))
			continue
		}
		// well formed stream
		inc := []int{2, 2, 1, 4}[r.Intn(4)]
		T := []int{3000, 1500, 3600, 90, 1, 3003}[r.Intn(6)]
		cur := 1
		disp := 0
		for g := range 1 + r.Intn(3) {
			k := 1 + r.Intn(12)
			ord := displayOrder(r, k)
			sps := 0
			if g == 0 || r.Intn(2) == 0 {
				if g != 0 && r.Intn(3) == 0 {
					cur = 1 + r.Intn(len(spss))
				}
				sps = cur
			}
			lim := 1 << num(spss[cur-1].(M)["log2poc"])
			start := 0
			if r.Intn(5) == 0 {
				start = r.Intn(lim) / 4 * 4
			}
			for i, o := range ord {
				slice := "non"
				if i == 0 {
					slice = "idr"
				}
				s := 0
				if i == 0 {
					s = sps
				}
				jit := 0
				if r.Intn(10) == 0 {
					jit = r.Intn(T + 1)
				}
				c.Ops = append(c.Ops, M{
					"op": "au", "sps": s, "slice": slice, "poc": (start + o*inc) % lim,
					"ref": i == 0 || s != 0 || r.Intn(2) == 0, "cut": false,
					"pts": (disp+o)*T + jit, "dress": r.Intn(16),
				})
			}
			if r.Intn(12) == 0 { // lost picture
				j := r.Intn(len(c.Ops))
				if j > 0 {
					c.Ops = append(c.Ops[:j], c.Ops[j+1:]...)
				}
			}
			disp += k
		}
		out = append(out, wideHeaders(r, c))
	}
	return out
}

// wideHeaders makes the slice headers of some cases as long as they get.
func wideHeaders(r *rand.Rand, c Case) Case {
	if r.Intn(4) == 0 {
		for _, op := range c.Ops {
			if r.Intn(4) != 0 {
				op["wide"] = 1
			}
		}
	}
	return c
}
