package main

import (
	"bytes"
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp8"
)

func init() {
	drivers["nalu"] = &Driver{Gen: genNalu, New: func(M) Session { return sessionFunc(doNalu) }}
}

func doNalu(op M) M {
	switch str(op["op"]) {
	case "epb":
		in := private(op["buf"])
		orig := bytes.Clone(in)
		out := h264.EmulationPreventionRemove(in)
		if !bytes.Equal(in, orig) {
			return M{"input modified": true}
		}
		scribble(in) // the result must not depend on the input any more
		return M{"buf": ints(keep(out))}
	case "h264":
		return M{"ra": h264.IsRandomAccess(naluLists(op["au"]))}
	case "h265":
		return M{"ra": h265.IsRandomAccess(naluLists(op["au"]))}
	case "av1":
		return M{"ra": av1.IsRandomAccess2(naluLists(op["au"]))}
	case "av1first":
		v, err := av1.IsRandomAccess(naluLists(op["au"])) //nolint:staticcheck
		if err != nil {
			return errRes
		}
		return M{"ra": v}
	case "vp8":
		return M{"ra": vp8.IsRandomAccess(private(op["buf"]))}
	}
	panic("harness: op")
}

func genNalu(r *rand.Rand, n int, deep bool) []Case {
	var out []Case
	cfg := M{"x": 0}
	au := func(empty bool) [][]int {
		o := [][]int{}
		for range r.Intn(5) {
			b := make([]byte, 1+r.Intn(4))
			r.Read(b)
			if empty && r.Intn(4) == 0 {
				b = nil
			}
			o = append(o, ints(b))
		}
		return o
	}
	for i := range n {
		switch i % 6 {
		case 0:
			out = append(out, one(cfg, M{"op": "h264", "au": au(true)}))
		case 1:
			out = append(out, one(cfg, M{"op": "h265", "au": au(true)}))
		case 2:
			a := au(true)
			out = append(out, Case{Cfg: cfg, Ops: []M{{"op": "av1", "au": a}, {"op": "av1first", "au": a}}})
		default:
			b := make([]byte, r.Intn(60))
			for j := range b {
				b[j] = byte(r.Intn(5))
				if r.Intn(10) == 0 {
					b[j] = byte(r.Intn(256))
				}
				if r.Intn(3) != 0 && b[j] > 3 {
					b[j] = 0
				}
			}
			out = append(out, Case{Cfg: cfg, Ops: []M{
				{"op": "epb", "buf": ints(b)},
				{"op": "epb", "buf": ints(addEPB(b))},
			}})
		}
	}
	return out
}
