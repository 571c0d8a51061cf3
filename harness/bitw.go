package main

// bitw is the harness' own bit writer (independent of pkg/bits).
type bitw struct {
	b []byte
	n int
}

func (w *bitw) u(v uint64, n int) *bitw {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if i < 64 && (v>>uint(i))&1 != 0 {
			w.b[w.n/8] |= 0x80 >> (w.n % 8)
		}
		w.n++
	}
	return w
}

func (w *bitw) flag(b bool) *bitw {
	if b {
		return w.u(1, 1)
	}
	return w.u(0, 1)
}

func (w *bitw) ue(v uint64) *bitw {
	v++
	l := 0
	for x := v; x > 1; x >>= 1 {
		l++
	}
	w.u(0, l)
	return w.u(v, l+1)
}

func (w *bitw) se(v int64) *bitw {
	if v > 0 {
		return w.ue(uint64(2*v - 1))
	}
	return w.ue(uint64(-2 * v))
}

// trail adds the RBSP stop bit and pads.
func (w *bitw) trail() []byte {
	w.u(1, 1)
	for w.n%8 != 0 {
		w.u(0, 1)
	}
	return w.b
}

// addEPB inserts emulation prevention bytes (ITU-T H.264 7.4.1).
func addEPB(b []byte) []byte {
	var o []byte
	z := 0
	for _, x := range b {
		if z == 2 && x <= 3 {
			o = append(o, 3)
			z = 0
		}
		o = append(o, x)
		if x == 0 {
			z++
		} else {
			z = 0
		}
	}
	if len(o) > 0 && o[len(o)-1] == 0 {
		o = append(o, 3)
	}
	return o
}
