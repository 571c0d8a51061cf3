package main

import (
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
)

func init() {
	drivers["bufread"] = &Driver{Gen: genBufRead, New: newBufRead}
}

type callSource struct {
	src L
}

func (s *callSource) Read(p []byte) (int, error) {
	if len(s.src) == 0 {
		return 0, finalErr("eof")
	}
	c := obj(s.src[0])
	d := byts(c["d"])
	n := copy(p, d)
	if n < len(d) {
		s.src = append(L{M{"d": ints(d[n:]), "e": c["e"]}}, s.src[1:]...)
		return n, nil
	}
	s.src = s.src[1:]
	if str(c["e"]) != "" {
		return n, finalErr(str(c["e"]))
	}
	return n, nil
}

func newBufRead(cfg M) Session {
	r := mpegts.NewBufferedReader(&callSource{src: list(cfg["src"])}) //nolint:staticcheck
	return sessionFunc(func(op M) M {
		p := make([]byte, num(op["n"]))
		n, err := r.Read(p)
		e := ""
		if err != nil {
			e = endName(err)
			if e == "err" {
				e = "other"
			}
		}
		d := ints(p[:n])
		scribble(p)
		return M{"d": d, "e": e}
	})
}

func genBufRead(r *rand.Rand, n int, _ bool) []Case {
	var out []Case
	for range n {
		var src L
		k := 0
		for range r.Intn(5) {
			sz := 188 * (r.Intn(4))
			switch r.Intn(12) {
			case 0:
				sz = 0
			case 1:
				sz = r.Intn(400)
			case 2:
				sz = 188 * 7
			case 3:
				sz = []int{1500, 1504, 1501, 1880}[r.Intn(4)]
			}
			d := make([]int, sz)
			for i := range d {
				d[i] = (k / 94) % 256
				k++
			}
			src = append(src, M{"d": d, "e": []string{"", "", "", "", "", "custom", "eof"}[r.Intn(7)]})
		}
		if src == nil {
			src = L{}
		}
		c := Case{Cfg: M{"src": src}}
		for range r.Intn(12) + 2 {
			c.Ops = append(c.Ops, M{"op": "read", "n": []int{188, 188, 188, 1, 94, 376, 4096, 1500, 0, 187, 1000}[r.Intn(11)]})
		}
		out = append(out, c)
	}
	return out
}
