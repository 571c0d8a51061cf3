package main

import (
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
)

// h265dts: h265.DTSExtractor on access units built from an abstract description.
func init() {
	drivers["h265dts"] = &Driver{Gen: genH265Dts, New: newH265Dts}
}

// writes set number idx (those of the SPS, and that of a slice behind them), predicted or not
func writeRPS(w *bitw, idx int, all []any, rps M) {
	if bs, ok := rps["flags"]; ok {
		w.u(1, 1)
		if idx == len(all) {
			w.ue(uint64(num(rps["didx"])))
		}
		w.flag(boolean(rps["neg"])).ue(uint64(num(rps["abs"])))
		for i := range min(len(list(bs)), countRPS(all, idx-1-num(rps["didx"]))+1) {
			switch num(list(bs)[i]) {
			case 0:
				w.u(1, 1)
			case 1:
				w.u(1, 2)
			default:
				w.u(0, 2)
			}
		}
		return
	}
	if idx != 0 {
		w.u(0, 1)
	}
	s0, s1 := list(rps["s0"]), list(rps["s1"])
	w.ue(uint64(len(s0))).ue(uint64(len(s1)))
	prev := 0
	for i, x := range s0 {
		w.ue(uint64(prev-num(x))-1).u(uint64(i&1), 1)
		prev = num(x)
	}
	prev = 0
	for i, x := range s1 {
		w.ue(uint64(num(x)-prev)-1).u(uint64(i&1), 1)
		prev = num(x)
	}
}

// entries of a set
func countRPS(all []any, idx int) int {
	if idx < 0 {
		return -1
	}
	s0, s1 := resolveRPS(all, idx)
	return len(s0) + len(s1)
}

// the distances of a set, by definition 7-61 and 7-62 of H.265
func resolveRPS(all []any, idx int) (s0, s1 []int) {
	rps := obj(all[idx])
	if _, ok := rps["flags"]; !ok {
		for _, x := range list(rps["s0"]) {
			s0 = append(s0, num(x))
		}
		for _, x := range list(rps["s1"]) {
			s1 = append(s1, num(x))
		}
		return
	}
	r0, r1 := resolveRPS(all, idx-1)
	d := num(rps["abs"]) + 1
	if boolean(rps["neg"]) {
		d = -d
	}
	// by growing distance of the reference: negative ones from the last to the first, 0, positive ones
	type ent struct{ v, flag int }
	var es []ent
	fl := list(rps["flags"])
	for j := len(r0) - 1; j >= 0; j-- {
		es = append(es, ent{r0[j] + d, num(fl[j])})
	}
	es = append(es, ent{d, num(fl[len(r0)+len(r1)])})
	for j, x := range r1 {
		es = append(es, ent{x + d, num(fl[len(r0)+j])})
	}
	for _, e := range es {
		switch {
		case e.flag == 2:
		case e.v < 0:
			s0 = append([]int{e.v}, s0...)
		case e.v > 0:
			s1 = append(s1, e.v)
		}
	}
	return
}

func buildH265SPS(s M, index int) []byte {
	w := &bitw{}
	sub := num(s["sublayers"])
	w.u(0, 4).u(uint64(sub-1), 3).u(1, 1)
	// profile_tier_level
	w.u(0, 2).u(0, 1).u(1, 5).u(0x60000000, 32).u(9, 4).u(0, 43).u(0, 1).u(93, 8)
	if sub > 1 {
		for range sub - 1 {
			w.u(0, 2)
		}
		for range 8 - (sub - 1) {
			w.u(0, 2)
		}
	}
	w.ue(uint64(index))
	if boolean(s["planes"]) {
		w.ue(3).u(1, 1)
	} else {
		w.ue(1)
	}
	w.ue(1920).ue(1080).u(0, 1).ue(0).ue(0)
	w.ue(uint64(num(s["log2poc"]) - 4))
	w.u(1, 1)
	for i := range sub {
		w.ue(4)
		if sub == 1 {
			w.ue(uint64(num(s["reorder"])))
		} else {
			w.ue(uint64(i))
		}
		w.ue(0)
	}
	w.ue(0).ue(3).ue(0).ue(3).ue(0).ue(0)
	w.u(0, 1).u(1, 1).u(1, 1).u(0, 1)
	sets := list(s["rps"])
	w.ue(uint64(len(sets)))
	for i, x := range sets {
		writeRPS(w, i, sets, obj(x))
	}
	w.u(0, 1).u(1, 1).u(1, 1)
	w.u(1, 1) // VUI
	w.u(0, 1).u(0, 1).u(0, 1).u(0, 1).u(0, 1).u(0, 1).u(0, 1).u(0, 1)
	if boolean(s["timing"]) {
		w.u(1, 1).u(uint64(num(s["units"])), 32).u(uint64(num(s["scale"])), 32).u(0, 1).u(0, 1)
	} else {
		w.u(0, 1)
	}
	w.u(0, 1).u(0, 1)
	return append([]byte{0x42, 0x01}, addEPB(w.trail())...)
}

func buildH265PPS(p M, index int) []byte {
	w := &bitw{}
	w.ue(uint64(index)).ue(0).u(0, 1).flag(boolean(p["output"])).u(uint64(num(p["extra"])), 3)
	w.u(0, 1).u(0, 1).ue(0).ue(0).se(0).u(0, 5)
	return append([]byte{0x44, 0x01}, addEPB(w.trail())...)
}

var h265kinds = map[string]byte{
	"idr_w": 19, "idr_n": 20, "cra": 21, "trail_n": 0, "trail_r": 1, "rasl_n": 8, "rasl_r": 9, "none": 39, "tsa": 2, "bla": 16,
}

func newH265Dts(cfg M) Session {
	var d *h265.DTSExtractor
	if boolean(cfg["old"]) {
		d = h265.NewDTSExtractor()
	} else {
		d = &h265.DTSExtractor{}
		d.Initialize()
	}
	base := baseOf(cfg)
	var spss, ppss [][]byte
	var sp, pp []M
	for i, s := range list(cfg["sps"]) {
		spss = append(spss, buildH265SPS(obj(s), i))
		sp = append(sp, obj(s))
	}
	for i, s := range list(cfg["pps"]) {
		ppss = append(ppss, buildH265PPS(obj(s), i))
		pp = append(pp, obj(s))
	}
	curS, curP, cnt := 0, 0, 0
	return sessionFunc(func(op M) M {
		var au [][]byte
		dress := num(op["dress"])
		if dress&1 != 0 {
			au = append(au, []byte{35 << 1, 1, 0x50})
		}
		if dress&2 != 0 {
			au = append(au, []byte{32 << 1, 1, 0x0C, 0x01, 0xFF})
		}
		if i := num(op["sps"]); i != 0 {
			au = append(au, append([]byte(nil), spss[i-1]...))
			curS = i
		}
		if i := num(op["pps"]); i != 0 {
			au = append(au, append([]byte(nil), ppss[i-1]...))
			curP = i
		}
		switch num(op["bad"]) {
		case 1:
			au = append(au, []byte{0x42, 0x01, 0x01, 0x01})
		case 2:
			au = append(au, []byte{0x44, 0x01})
		}
		if dress&5 == 5 {
			au = append(au, []byte{})
		}
		if dress&4 != 0 {
			au = append(au, []byte{39 << 1, 1, 5, 1, 0xAA, 0x80})
		}
		kind := h265kinds[str(op["slice"])]
		hdr := []byte{kind << 1, 1}
		w := &bitw{}
		w.flag(boolean(op["first"]))
		if kind >= 16 && kind <= 23 {
			w.u(1, 1)
		}
		w.ue(uint64(cnt % 2))
		if curP != 0 {
			w.u(0, num(pp[curP-1]["extra"]))
		}
		w.ue(uint64(num(op["stype"])))
		if curP != 0 && boolean(pp[curP-1]["output"]) {
			w.u(1, 1)
		}
		pre := w.n
		if kind != 19 && kind != 20 && curS != 0 {
			s := sp[curS-1]
			if boolean(s["planes"]) {
				w.u(1, 2)
			}
			w.u(uint64(cnt)*7+1, num(s["log2poc"]))
			sets := list(s["rps"])
			if idx := num(op["rpsidx"]); idx < 0 {
				w.u(0, 1)
				writeRPS(w, len(sets), sets, obj(op["rps"]))
			} else {
				w.u(1, 1)
				b := 0
				for 1<<b < len(sets) {
					b++
				}
				w.u(uint64(idx), b)
			}
		}
		w.u(uint64(cnt)*2654435761|1<<31, 32)
		payload := w.trail()
		if boolean(op["cut"]) {
			payload = payload[:pre/8]
		}
		if str(op["slice"]) != "none" || dress&8 != 0 {
			au = append(au, append(hdr, addEPB(payload)...))
			if dress&16 != 0 {
				au = append(au, append(append([]byte(nil), hdr...), 0x10, 0x20, 0x33))
			}
		}
		cnt++
		au = privateUnits(au)
		v, err := d.Extract(au, int64(num(op["pts"]))+base)
		for _, x := range au {
			scribble(x) // buffers of the caller, who uses them again
		}
		if err != nil {
			return errRes
		}
		rel := v - base
		if rel > 1<<30 || rel < -(1<<30) {
			return M{"far": true}
		}
		return M{"dts": rel}
	})
}

func randRPS(r *rand.Rand, lim int) M {
	s0, s1 := []any{}, []any{}
	p := 0
	for range r.Intn(lim) {
		p -= 1 + r.Intn(3)
		s0 = append(s0, p)
	}
	p = 0
	for range r.Intn(lim) {
		p += 1 + r.Intn(3)
		s1 = append(s1, p)
	}
	return M{"s0": s0, "s1": s1}
}

// a set predicted from another one
func randInterRPS(r *rand.Rand, didx int) M {
	fl := []any{}
	for range 40 {
		fl = append(fl, []int{0, 0, 0, 1, 1, 2}[r.Intn(6)])
	}
	return M{"didx": didx, "neg": r.Intn(2) == 0, "abs": []int{0, 0, 1, 2, 5}[r.Intn(5)], "flags": fl}
}

func genH265Dts(r *rand.Rand, n int, deep bool) []Case {
	var out []Case
	for range n {
		var spss, ppss []any
		for range 1 + r.Intn(2) {
			rps := []any{}
			for i := range r.Intn(6) {
				if i > 0 && r.Intn(3) == 0 {
					rps = append(rps, randInterRPS(r, 0))
				} else {
					rps = append(rps, randRPS(r, 5))
				}
			}
			spss = append(spss, M{
				"sublayers": []int{1, 1, 1, 1 + r.Intn(7)}[r.Intn(4)], "reorder": r.Intn(5), "log2poc": 4 + r.Intn(13),
				"planes": r.Intn(6) == 0, "rps": rps, "timing": r.Intn(2) == 0,
				"units": []int{1, 1001, 1000, 2}[r.Intn(4)], "scale": []int{25, 30000, 60000, 60, 1, 0}[r.Intn(6)],
			})
		}
		for range 1 + r.Intn(2) {
			ppss = append(ppss, M{"output": r.Intn(3) == 0, "extra": []int{0, 0, r.Intn(8)}[r.Intn(3)]})
		}
		c := Case{Cfg: M{"sps": spss, "pps": ppss, "base": randBase(r), "old": r.Intn(2) == 0}}
		mk := func(sps, pps int, slice string, stype int, pts int) M {
			m := M{
				"op": "au", "sps": sps, "pps": pps, "slice": slice, "stype": stype, "pts": pts,
				"cut": false, "first": true, "dress": r.Intn(8) + r.Intn(2)*16, "bad": 0, "rpsidx": -1, "rps": M{"s0": []any{}, "s1": []any{}},
			}
			return m
		}
		T := []int{3000, 3600, 1500, 90, 100}[r.Intn(5)]
		if r.Intn(3) == 0 {
			for i := range 2 + r.Intn(10) {
				sps, pps := 0, 0
				if (i == 0 && r.Intn(8) != 0) || r.Intn(8) == 0 {
					sps = 1 + r.Intn(len(spss))
				}
				if (i == 0 && r.Intn(8) != 0) || r.Intn(8) == 0 {
					pps = 1 + r.Intn(len(ppss))
				}
				kinds := []string{"idr_w", "idr_n", "cra", "trail_n", "trail_r", "rasl_n", "rasl_r", "none", "tsa", "bla"}
				k := kinds[r.Intn(len(kinds))]
				if i == 0 && r.Intn(3) != 0 {
					k = kinds[r.Intn(3)]
				}
				m := mk(sps, pps, k, r.Intn(3), i*T+r.Intn(3*T)-T)
				if r.Intn(2) == 0 {
					m["rpsidx"] = r.Intn(6)
				} else {
					m["rps"] = randRPS(r, 3)
					if r.Intn(2) == 0 {
						m["inter"] = true
					}
				}
				if k != "none" {
					m["cut"] = r.Intn(16) == 0
					m["first"] = r.Intn(16) != 0
				}
				m["bad"] = []int{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2}[r.Intn(12)]
				c.Ops = append(c.Ops, m)
			}
			fixRps(r, c, spss)
			out = append(out, c)
			continue
		}
		// well formed: mini GOPs of 1 P and b B-pictures
		b := r.Intn(5)
		disp := 0
		c.Ops = append(c.Ops, mk(1, 1, []string{"idr_w", "idr_n", "cra"}[r.Intn(3)], 2, 0))
		if str(c.Ops[0]["slice"]) == "cra" {
			c.Ops[0]["stype"] = r.Intn(3)
			c.Ops[0]["rps"] = M{"s0": []any{-1}, "s1": []any{}}
		}
		if b > 0 {
			spss[0].(M)["reorder"] = 1 + r.Intn(2)
			spss[0].(M)["sublayers"] = 1
		}
		for range 1 + r.Intn(5) {
			p := mk(0, 0, "trail_r", 1, (disp+b+1)*T)
			p["rps"] = M{"s0": []any{-(b + 1)}, "s1": []any{}}
			c.Ops = append(c.Ops, p)
			for k := range b {
				m := mk(0, 0, []string{"trail_n", "trail_n", "rasl_n", "trail_r"}[r.Intn(4)], 0, (disp+k+1)*T)
				m["rps"] = M{"s0": []any{-(k + 1)}, "s1": []any{b - k}}
				if r.Intn(8) == 0 {
					m["inter"] = true
				}
				c.Ops = append(c.Ops, m)
			}
			disp += b + 1
			if r.Intn(6) == 0 {
				disp++
				c.Ops = append(c.Ops, mk(r.Intn(len(spss)+1), 0, "idr_w", 2, disp*T))
			}
		}
		fixRps(r, c, spss)
		out = append(out, c)
	}
	return out
}

// the index must be representable on the number of bits that the SPS calls for;
// only sets that are not the first one can be predicted
func fixRps(r *rand.Rand, c Case, spss []any) {
	cur := 0
	for _, op := range c.Ops {
		if i := num(op["sps"]); i != 0 {
			cur = i
		}
		inter := op["inter"] != nil
		delete(op, "inter")
		if cur == 0 {
			continue
		}
		sets := len(list(spss[cur-1].(M)["rps"]))
		if idx := num(op["rpsidx"]); idx >= 0 {
			b := 0
			for 1<<b < sets {
				b++
			}
			op["rpsidx"] = idx % (1 << b)
		} else if inter && sets > 0 {
			didx := r.Intn(sets)
			if r.Intn(8) == 0 {
				didx = sets + r.Intn(3)
			}
			op["rps"] = randInterRPS(r, didx)
		}
	}
}
