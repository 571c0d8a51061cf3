package main

import (
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
)

func init() {
	drivers["fmp4parts"] = &Driver{MutateFile: true, New: func(cfg M) Session { return &fmp4PartsSession{cfg} }}
	drivers["fmp4big"] = &Driver{Gen: genFmp4Big, New: func(cfg M) Session { return &fmp4PartsSession{cfg} }}
}

// large payloads: recognized by their tokens
func genFmp4Big(r *rand.Rand, n int, _ bool) []Case {
	var out []Case
	for range n {
		parts := L{}
		for range 1 + r.Intn(3) {
			tracks := L{}
			for t := range 1 + r.Intn(3) {
				samples := L{}
				for range r.Intn(40) {
					size := []int{0, 1, 100, 1000, 65535, 65536, 100000}[r.Intn(7)]
					c := L{"raw", size, r.Intn(1 << 30)}
					samples = append(samples, M{"dur": toBe32(r.Uint32()), "off": r.Intn(1<<20) - 1<<19, "ns": r.Intn(2) == 0, "src": c, "data": token(content(c))})
				}
				b := make([]byte, 8)
				r.Read(b)
				tracks = append(tracks, M{"id": t + 1, "base": ints(b), "samples": samples})
			}
			parts = append(parts, M{"seq": toBe32(r.Uint32()), "tracks": tracks})
		}
		out = append(out, Case{M{"parts": parts}, []M{{"op": "round"}}})
	}
	return out
}

type fmp4PartsSession struct{ cfg M }

func toBe64(v uint64) []int { return append(toBe32(uint32(v>>32)), toBe32(uint32(v))...) }
func be64(v any) uint64 {
	l := list(v)
	return uint64(be32(l[:4]))<<32 | uint64(be32(l[4:]))
}

func (s *fmp4PartsSession) parts(big *bool) fmp4.Parts {
	var ps fmp4.Parts
	for _, x := range list(s.cfg["parts"]) {
		p := &fmp4.Part{SequenceNumber: be32(obj(x)["seq"])}
		for _, y := range list(obj(x)["tracks"]) {
			t := &fmp4.PartTrack{ID: num(obj(y)["id"]), BaseTime: be64(obj(y)["base"])}
			for _, z := range list(obj(y)["samples"]) {
				v := obj(z)
				sm := &fmp4.Sample{Duration: be32(v["dur"]), PTSOffset: int32(num(v["off"])), IsNonSyncSample: boolean(v["ns"])}
				if c, ok := v["src"]; ok {
					*big = true
					sm.Payload = content(c)
				} else {
					sm.Payload = private(v["data"])
				}
				t.Samples = append(t.Samples, sm)
			}
			p.Tracks = append(p.Tracks, t)
		}
		ps = append(ps, p)
	}
	return ps
}

func (s *fmp4PartsSession) view(ps fmp4.Parts, big bool) M {
	parts := L{}
	for i, p := range ps {
		tracks := L{}
		for j, t := range p.Tracks {
			samples := L{}
			for k, sm := range t.Samples {
				m := M{"dur": toBe32(sm.Duration), "off": int(sm.PTSOffset), "ns": sm.IsNonSyncSample}
				if big {
					m["data"] = token(sm.Payload)
					// the source of the payload is not part of the result
					m["src"] = list(obj(list(obj(list(obj(list(s.cfg["parts"])[i])["tracks"])[j])["samples"])[k])["src"])
				} else {
					m["data"] = ints(keep(sm.Payload))
				}
				samples = append(samples, m)
			}
			tracks = append(tracks, M{"id": t.ID, "base": toBe64(t.BaseTime), "samples": samples})
		}
		parts = append(parts, M{"seq": toBe32(p.SequenceNumber), "tracks": tracks})
	}
	return M{"parts": parts}
}

func (s *fmp4PartsSession) Do(op M) M {
	au := func() [][]byte {
		return privateList(op["au"])
	}
	switch str(op["op"]) {
	case "unmarshal":
		ps := object[fmp4.Parts]()
		if ps.Unmarshal(private(op["buf"])) != nil {
			return errRes
		}
		return s.view(*ps, false)
	case "fill":
		sm := &fmp4.Sample{}
		var err error
		switch str(op["codec"]) {
		case "h264":
			err = sm.FillH264(int32(num(op["off"])), au())
		case "h265":
			err = sm.FillH265(int32(num(op["off"])), au())
		default:
			err = sm.FillAV1(au())
		}
		if err != nil {
			return errRes
		}
		return M{"off": int(sm.PTSOffset), "ns": sm.IsNonSyncSample, "data": ints(keep(sm.Payload))}
	case "get":
		sm := fmp4.Sample{Payload: private(op["buf"])}
		var r [][]byte
		var err error
		switch str(op["codec"]) {
		case "h264":
			r, err = sm.GetH264()
		case "h265":
			r, err = sm.GetH265()
		default:
			r, err = sm.GetAV1()
		}
		if err != nil {
			return errRes
		}
		return M{"au": listInts(r)}
	}
	var big bool
	ps := s.parts(&big)
	f := &file{}
	if _, err := encodedBy(ps, func() ([]byte, error) {
		*f = file{}
		err := ps.Marshal(f)
		return f.b, err
	}); err != nil {
		return errRes
	}
	if str(op["op"]) == "marshal" {
		return M{"buf": ints(f.b)}
	}
	into := object[fmp4.Parts]()
	if into.Unmarshal(f.b) != nil {
		return errRes
	}
	got := *into
	if big {
		// same shape, or the difference shows
		same := len(got) == len(ps)
		for i := 0; same && i < len(ps); i++ {
			same = len(got[i].Tracks) == len(ps[i].Tracks)
			for j := 0; same && j < len(ps[i].Tracks); j++ {
				same = len(got[i].Tracks[j].Samples) == len(ps[i].Tracks[j].Samples)
			}
		}
		if !same {
			return M{"shape": "different"}
		}
	}
	return s.view(got, big)
}
