package main

import (
	"bytes"
	"io"
	"math/rand"
	"runtime"
	"runtime/debug"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

func init() {
	drivers["mp4damage"] = &Driver{Serial: true, Derive: mp4DamageCases, New: func(M) Session { return sessionFunc(mp4Damage) }}
}

// mp4DamageCases turns the files of the specification, and damaged versions, into reads.
func mp4DamageCases(r *rand.Rand, in []Case, n int) []Case {
	var out []Case
	var bufs [][]byte
	var kinds []string
	for _, c := range in {
		if _, ok := c.Cfg["direct"]; ok {
			out = append(out, c)
			continue
		}
		kind := "pmp4"
		if _, ok := c.Cfg["parts"]; ok {
			kind = "parts"
		} else if _, ok := c.Cfg["udta"]; ok {
			kind = "init"
		}
		for _, op := range c.Ops {
			if b, ok := op["buf"]; ok && str(op["op"]) == "unmarshal" {
				bufs = append(bufs, byts(b))
				kinds = append(kinds, kind)
			}
		}
	}
	for range n {
		i := r.Intn(len(bufs))
		k := kinds[i]
		if r.Intn(20) == 0 {
			k = []string{"parts", "init", "pmp4"}[r.Intn(3)]
		}
		b := bufs[i]
		if r.Intn(4) != 0 {
			b = mutateFile(r, b)
		} else {
			b = inflate(r, b)
		}
		out = append(out, Case{M{}, []M{{"op": "read", "kind": k, "buf": ints(b)}}})
	}
	// tables of many entries
	var pres [][]byte
	for i, b := range bufs {
		if kinds[i] == "pmp4" && bytes.Contains(b, []byte("stts")) {
			pres = append(pres, b)
		}
	}
	for range n / 150 {
		out = append(out, Case{M{}, []M{{"op": "read", "kind": "pmp4", "buf": ints(repeatEntries(r, pres[r.Intn(len(pres))]))}}})
	}
	return out
}

func inflate(r *rand.Rand, b []byte) []byte {
	b = bytes.Clone(b)
	var bs []boxNode
	boxesOf(b, 0, len(b), nil, &bs)
	for _, n := range bs {
		p := b[n.off+n.head : n.off+n.size]
		set := func(o int, v uint32) {
			if o+4 <= len(p) {
				p[o], p[o+1], p[o+2], p[o+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
			}
		}
		some := func() uint32 {
			return []uint32{19200, 19201, 30000, 1000000, 5184000, 5184001, 6000000, 20000000, 0x7fffffff, 0x80000000, 0xffffffff}[r.Intn(11)]
		}
		if r.Intn(2) == 0 {
			continue
		}
		switch n.typ {
		case "trun":
			// entries without fields
			if r.Intn(3) != 0 && len(p) > 4 {
				p[2] = 0
				p[3] = 1
			}
			set(4, some())
		case "stts", "ctts":
			k := 8
			if len(p) >= 16 {
				k = 8 + 8*r.Intn((len(p)-8)/8)
			}
			set(k, some())
			if r.Intn(4) == 0 {
				set(4, some())
			}
		case "stsc":
			set(8+4*r.Intn(6), some())
		case "stsz", "stco", "stss", "elst", "dref":
			set(4*r.Intn(4), some())
		case "esds", "avcC", "hvcC", "av1C", "dfLa", "dOps":
			if len(p) > 0 {
				p[r.Intn(len(p))] = byte(r.Intn(256))
			}
		}
	}
	return b
}

// allocated runs f and returns the memory it obtained, in KiB.
func allocated(f func()) int {
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	f()
	runtime.ReadMemStats(&m1)
	return int((m1.TotalAlloc - m0.TotalAlloc) >> 10)
}

func mp4Damage(op M) M {
	b := private(op["buf"])
	var err error
	res := M{"tracks": 0, "zero": false, "again": "skip", "kib2": 0, "odd": false}
	look := func(c codecs.Codec) {
		rate := 48000
		switch c := c.(type) {
		case *codecs.AC3:
			rate = c.SampleRate
		case *codecs.EAC3:
			rate = c.SampleRate
		case *codecs.MPEG4Audio:
			if c.Config.ChannelCount == 0 && (c.Config.ChannelConfig < 1 || c.Config.ChannelConfig > 7) { //nolint:staticcheck
				res["odd"] = true
			}
		}
		if rate != 48000 && rate != 44100 && rate != 32000 {
			res["odd"] = true
		}
	}
	write := func(f func() error) {
		res["again"] = "ok"
		if e := f(); e != nil {
			res["again"] = "err"
			res["why"] = e.Error()
		}
	}
	var kib int
	switch str(op["kind"]) {
	case "parts":
		var p fmp4.Parts
		kib = allocated(func() { err = p.Unmarshal(b) })
		if err == nil {
			n := 0
			for _, x := range p {
				for _, t := range x.Tracks {
					n += len(t.Samples)
				}
			}
			if n < 50000 {
				write(func() error { return p.Marshal(&file{}) })
			}
		}
	case "init":
		var i fmp4.Init
		kib = allocated(func() { err = i.Unmarshal(bytes.NewReader(b)) })
		if err == nil {
			res["tracks"] = len(i.Tracks)
			for _, t := range i.Tracks {
				look(t.Codec)
				if t.TimeScale == 0 {
					res["zero"] = true
				}
			}
			write(func() error { return i.Marshal(&file{}) })
		}
	default:
		var p pmp4.Presentation
		kib = allocated(func() { err = p.Unmarshal(bytes.NewReader(b)) })
		if err == nil {
			res["tracks"] = len(p.Tracks)
			n := 0
			fail := false
			for _, t := range p.Tracks {
				look(t.Codec)
				if t.TimeScale == 0 {
					res["zero"] = true
				}
				for k, s := range t.Samples {
					n++
					if k < 20 {
						kib2 := allocated(func() {
							d, e := s.GetPayload()
							if e != nil || len(d) != int(s.PayloadSize) {
								fail = true
							}
						})
						res["kib2"] = max(num(res["kib2"]), kib2)
					}
				}
			}
			if !fail && n < 1000 {
				for _, t := range p.Tracks {
					for _, s := range t.Samples {
						if _, e := s.GetPayload(); e != nil {
							fail = true
						}
					}
				}
				if !fail {
					write(func() error { return p.Marshal(io.Discard) })
				}
			}
		}
	}
	res["kib"] = kib
	res["end"] = "ok"
	if err != nil {
		res["end"] = "err"
	}
	if kib > 6<<20 {
		hangs.Add(1) // far beyond what is specified: going on would take too long
	}
	if kib > 1<<17 {
		debug.FreeOSMemory()
	}
	return res
}
