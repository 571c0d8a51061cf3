package main

import (
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
)

// time: mpegts.TimeDecoder on 33 bit timestamps, given as 17+16 bit limbs.
func init() {
	drivers["time"] = &Driver{Gen: genTime, New: newTime}
}

func newTime(cfg M) Session {
	var d mpegts.TimeDecoder
	if boolean(cfg["old"]) {
		d = *mpegts.NewTimeDecoder()
	} else {
		d.Initialize()
	}
	return sessionFunc(func(op M) M {
		t := list(op["t"])
		v := d.Decode(int64(num(t[0]))<<16 | int64(num(t[1])))
		return M{"v": []int{int(v >> 16), int(v & 0xffff)}}
	})
}

func genTime(r *rand.Rand, n int, deep bool) []Case {
	const mod = int64(1) << 33
	var out []Case
	for range n {
		c := Case{Cfg: M{"old": r.Intn(2) == 0}}
		cur := r.Int63n(mod)
		switch r.Intn(4) {
		case 0:
			cur = 0
		case 1:
			cur = mod - 1 - int64(r.Intn(5000))
		}
		style := r.Intn(4)
		for range 1 + r.Intn(24) {
			c.Ops = append(c.Ops, M{"op": "ts", "t": []int{int(cur >> 16), int(cur & 0xffff)}})
			var d int64
			switch style {
			case 0: // a clock that moves forward, wrapping often
				d = r.Int63n(mod / 2)
			case 1: // small jitter around
				d = int64(r.Intn(20001) - 10000)
			case 2: // close to half of the range
				d = []int64{mod/2 - 1, mod / 2, mod/2 + 1, mod/2 - 2, 1, 0, mod - 1, mod/2 - 65536, mod/2 + 65536}[r.Intn(9)]
			default:
				d = r.Int63n(mod)
			}
			cur = ((cur+d)%mod + mod) % mod
		}
		out = append(out, c)
	}
	return out
}
