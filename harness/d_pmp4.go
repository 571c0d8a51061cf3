package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

func init() {
	drivers["pmp4"] = &Driver{MutateFile: true, New: func(cfg M) Session { return &pmp4Session{cfg} }}
}

type pmp4Session struct{ cfg M }

func (s *pmp4Session) presentation() pmp4.Presentation {
	var p pmp4.Presentation
	for _, x := range list(s.cfg["tracks"]) {
		t := obj(x)
		o := &pmp4.Track{ID: num(t["id"]), TimeScale: uint32(num(t["ts"])), TimeOffset: int32(num(t["off"])), Codec: mp4Codec(obj(t["codec"]))}
		for _, y := range list(t["samples"]) {
			v := obj(y)
			data := private(v["data"])
			o.Samples = append(o.Samples, &pmp4.Sample{
				Duration: uint32(num(v["dur"])), PTSOffset: int32(num(v["off"])), IsNonSyncSample: boolean(v["ns"]),
				PayloadSize: uint32(len(data)), GetPayload: func() ([]byte, error) { return data, nil },
			})
		}
		p.Tracks = append(p.Tracks, o)
	}
	return p
}

// shrinking is a file that may be cut, or stop seeking, after it has been opened.
type shrinking struct {
	*bytes.Reader
	b      []byte
	broken bool
}

func (s *shrinking) Seek(off int64, whence int) (int64, error) {
	if s.broken {
		return 0, errors.New("seek failed")
	}
	return s.Reader.Seek(off, whence)
}

func (s *pmp4Session) read(b []byte, after func(*shrinking)) M {
	r := &shrinking{bytes.NewReader(b), b, false}
	p := object[pmp4.Presentation]()
	if p.Unmarshal(r) != nil {
		return errRes
	}
	if after != nil {
		after(r)
	}
	return s.view(p, after != nil)
}

func (s *pmp4Session) view(p *pmp4.Presentation, payloads bool) M {
	type pl struct {
		b   []byte
		err error
	}
	// payloads can be obtained in any order
	got := map[*pmp4.Sample]pl{}
	for i := len(p.Tracks) - 1; i >= 0; i-- {
		ss := p.Tracks[i].Samples
		for j := len(ss) - 1; j >= 0; j-- {
			d, err := ss[j].GetPayload()
			got[ss[j]] = pl{d, err}
		}
	}
	ts := L{}
	ps := L{}
	for _, t := range p.Tracks {
		sl := L{}
		dl := L{}
		for _, sm := range t.Samples {
			m := M{"dur": int(sm.Duration), "off": int(sm.PTSOffset), "ns": sm.IsNonSyncSample}
			g := got[sm]
			switch {
			case g.err != nil:
				m["err"] = true
				dl = append(dl, errRes)
			case len(g.b) != int(sm.PayloadSize):
				m["size"] = int(sm.PayloadSize)
				dl = append(dl, M{"data": ints(keep(g.b)), "size": int(sm.PayloadSize)})
			default:
				m["data"] = ints(keep(g.b))
				dl = append(dl, M{"data": ints(g.b)})
			}
			sl = append(sl, m)
		}
		ts = append(ts, M{"id": t.ID, "ts": int(t.TimeScale), "off": int(t.TimeOffset), "codec": mp4CodecView(t.Codec), "samples": sl})
		ps = append(ps, dl)
	}
	if payloads {
		return M{"payloads": ps}
	}
	return M{"tracks": ts}
}

type counter struct {
	n    int64
	head []byte
}

func (c *counter) Write(p []byte) (int, error) {
	c.n += int64(len(p))
	return len(p), nil
}

func (s *pmp4Session) Do(op M) M {
	switch str(op["op"]) {
	case "unmarshal":
		return s.read(private(op["buf"]), nil)
	case "after":
		n := num(op["n"])
		return s.read(private(op["buf"]), func(r *shrinking) {
			if n < 0 {
				r.broken = true
			} else {
				r.Reset(r.b[:min(n, len(r.b))])
			}
		})
	}
	p := s.presentation()
	switch str(op["op"]) {
	case "fail":
		for _, t := range p.Tracks {
			for i, sm := range t.Samples {
				if i == len(t.Samples)-1 {
					sm.GetPayload = func() ([]byte, error) { return nil, io.ErrUnexpectedEOF }
				}
			}
		}
	case "huge":
		zeros := make([]byte, 1<<30)
		for _, x := range list(op["sizes"]) {
			d := zeros[:num(list(x)[0])<<20+num(list(x)[1])]
			p.Tracks[0].Samples = append(p.Tracks[0].Samples, &pmp4.Sample{Duration: 1, PayloadSize: uint32(len(d)), GetPayload: func() ([]byte, error) { return d, nil }})
		}
		var c counter
		if p.Marshal(&c) != nil {
			return errRes
		}
		return M{"mib": int(c.n >> 20), "rest": int(c.n & (1<<20 - 1))}
	}
	if str(op["op"]) == "wide" {
		return s.wide(p, list(op["pats"]))
	}
	var buf bytes.Buffer
	if _, err := encodedBy(p, func() ([]byte, error) {
		buf = bytes.Buffer{}
		err := p.Marshal(&buf)
		return buf.Bytes(), err
	}); err != nil {
		return errRes
	}
	b := buf.Bytes()
	switch str(op["op"]) {
	case "round":
		return s.read(b, nil)
	case "long":
		i := bytes.Index(b, []byte("mdhd"))
		if i < 0 {
			return M{"ver": -1}
		}
		v := int(b[i+4])
		d := uint64(binary.BigEndian.Uint32(b[i+20:]))
		if v == 1 {
			d = binary.BigEndian.Uint64(b[i+28:])
		}
		return M{"ver": v, "dur": toBe64(d)}
	}
	return M{"buf": ints(b)}
}

// wide writes and reads tracks of many or large samples, that follow cyclic
// patterns, and tells how many there are and what differs in those obtained.
func (s *pmp4Session) wide(p pmp4.Presentation, pats L) M {
	cycle := func(v any, k int) int { q := list(v); return num(q[k%len(q)]) }
	data := func(i, k, n int) []byte {
		b := make([]byte, n)
		for j := range b {
			b[j] = byte(j ^ (j >> 8) ^ (j >> 16) ^ k ^ (k >> 8) ^ (k >> 16) ^ i<<6)
		}
		return b
	}
	for i, x := range pats {
		pat := obj(x)
		for k := 0; k < num(pat["n"]); k++ {
			n := cycle(pat["size"], k)
			p.Tracks[i].Samples = append(p.Tracks[i].Samples, &pmp4.Sample{
				Duration: uint32(cycle(pat["dur"], k)), PTSOffset: int32(cycle(pat["off"], k)), IsNonSyncSample: k%num(pat["gop"]) != 0,
				PayloadSize: uint32(n), GetPayload: func() ([]byte, error) { return data(i, k, n), nil },
			})
		}
	}
	var buf bytes.Buffer
	if p.Marshal(&buf) != nil {
		return M{"err": true, "at": "marshal"}
	}
	q := object[pmp4.Presentation]()
	if q.Unmarshal(bytes.NewReader(buf.Bytes())) != nil {
		return M{"err": true, "at": "unmarshal"}
	}
	res := L{}
	for i, t := range q.Tracks {
		syncs, bytesOf, dur := 0, 0, 0
		diff := L{}
		for k, sm := range t.Samples {
			if !sm.IsNonSyncSample {
				syncs++
			}
			bytesOf += int(sm.PayloadSize)
			dur += int(sm.Duration)
			if i >= len(p.Tracks) || k >= len(p.Tracks[i].Samples) || len(diff) >= 3 {
				continue
			}
			o := p.Tracks[i].Samples[k]
			b, err := sm.GetPayload()
			if sm.Duration != o.Duration || sm.PTSOffset != o.PTSOffset || sm.IsNonSyncSample != o.IsNonSyncSample ||
				err != nil || !bytes.Equal(b, data(i, k, int(o.PayloadSize))) {
				diff = append(diff, k+1)
			}
		}
		res = append(res, M{"n": len(t.Samples), "syncs": syncs, "bytes": bytesOf, "dur": dur, "diff": diff})
	}
	return M{"wide": res}
}
