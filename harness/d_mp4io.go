package main

import (
	"bytes"
	"errors"
	"io"
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

// MP4 files through sources that cut reads and fail, sinks and payloads that fail.

func init() {
	drivers["mp4io"] = &Driver{Derive: mp4IOCases, New: func(cfg M) Session { return &mp4IOSession{cfg} }}
}

func mp4IOCases(r *rand.Rand, in []Case, n int) []Case {
	var out []Case
	for _, i := range r.Perm(len(in)) {
		if len(out) == n {
			break
		}
		c := in[i]
		cfg := M{}
		for k, v := range c.Cfg {
			cfg[k] = v
		}
		if _, ok := cfg["finding"]; ok {
			continue
		}
		kind := "pmp4"
		if _, ok := cfg["parts"]; ok {
			kind = "parts"
		} else if _, ok := cfg["udta"]; ok {
			kind = "init"
		}
		cfg["io"] = kind
		var ops []M
		for _, op := range c.Ops {
			switch str(op["op"]) {
			case "unmarshal":
				if kind == "parts" || op["damaged"] != nil {
					continue
				}
				with := func(name string, m M) {
					x := M{"op": name, "do": "unmarshal", "lay": op["lay"], "buf": op["buf"]}
					for k, v := range m {
						x[k] = v
					}
					ops = append(ops, x)
				}
				var cuts []int
				for range 1 + r.Intn(4) {
					cuts = append(cuts, []int{1, 1, 2, 3, 7, 8, 9, 100, 4096}[r.Intn(9)])
				}
				with("cut", M{"cuts": cuts, "eof": r.Intn(2) == 0})
				with("source", M{})
				if kind == "pmp4" {
					with("later", M{})
				}
			case "marshal":
				ops = append(ops, M{"op": "sink", "do": "marshal"})
				if kind == "pmp4" {
					ops = append(ops, M{"op": "payload", "do": "marshal"})
				} else {
					buf := r.Intn(2) == 0
					at := r.Intn(50)
					ops = append(ops, M{"op": "at", "do": "marshal", "before": ints(randBytes(r, at)),
						"behind": ints(randBytes(r, []int{0, 0, 1, 20, 3000}[r.Intn(5)])), "seekbuf": buf})
				}
			}
		}
		if len(ops) > 0 {
			out = append(out, Case{cfg, ops})
		}
	}
	return out
}

var errIO = errors.New("input/output error")

// faults makes a call fail, and all following ones, or not.
type faults struct {
	from   int // 0: never
	once   bool
	calls  int
	failed bool
	err    error
}

func (f *faults) hit() bool {
	f.calls++
	if f.from != 0 && f.calls >= f.from {
		hit := !f.once || !f.failed
		f.failed = true
		return hit
	}
	return false
}

// ioSource is a file whose reads return as many bytes as they like.
type ioSource struct {
	faults
	file
	cuts []int
	n    int
	eof  bool // the end is reported together with the last bytes
}

func (s *ioSource) Read(p []byte) (int, error) {
	first := !s.failed
	if s.hit() {
		// part of the data may come with the error
		if first && s.from%2 == 0 && len(p) >= 2 {
			n, _ := s.file.Read(p[:len(p)/2])
			return n, s.err
		}
		return 0, s.err
	}
	if len(s.cuts) > 0 && len(p) > 0 {
		p = p[:min(len(p), s.cuts[s.n%len(s.cuts)])]
		s.n++
	}
	n, err := s.file.Read(p)
	if s.eof && err == nil && s.pos == int64(len(s.b)) {
		err = io.EOF
	}
	return n, err
}

func (s *ioSource) Seek(off int64, whence int) (int64, error) {
	if s.hit() {
		return 0, s.err
	}
	return s.file.Seek(off, whence)
}

// ioSink is a file that cannot be written anymore at some point.
type ioSink struct {
	faults
	file
}

func (s *ioSink) Write(p []byte) (int, error) {
	first := !s.failed
	if s.hit() {
		if first && s.from%2 == 0 {
			n, _ := s.file.Write(p[:len(p)/2])
			return n, s.err
		}
		return 0, s.err
	}
	return s.file.Write(p)
}

func (s *ioSink) Seek(off int64, whence int) (int64, error) {
	if s.hit() {
		return 0, s.err
	}
	return s.file.Seek(off, whence)
}

type ioSinkOnlyWrite struct{ s *ioSink }

func (w ioSinkOnlyWrite) Write(p []byte) (int, error) { return w.s.Write(p) }

// which calls to let fail: all of them, or many
func callsOf(n int) []int {
	var out []int
	const most = 400
	if n <= most {
		for k := range n {
			out = append(out, k+1)
		}
		return out
	}
	for k := range most {
		out = append(out, 1+k*(n-1)/(most-1))
	}
	return out
}

func failureOf(k int) error {
	if k%3 == 0 {
		return io.ErrUnexpectedEOF
	}
	return errIO
}

// sweep lets every call fail in turn, together with all following ones, and alone.
// run returns the error, and tells whether the result of a success is right and what is wrong with the rest.
// When a single call fails, the operation may recover.
func sweep(n int, run func(f faults) (failed bool, err error, right func() bool, bad string)) M {
	bad := L{}
	ks := callsOf(n)
	for _, k := range ks {
		for _, once := range []bool{false, true} {
			failed, err, right, what := run(faults{from: k, err: failureOf(k), once: once})
			switch {
			case what != "":
			case !failed:
				what = "call not made"
			case err == nil && (!once || !right()):
				what = "no error"
			case err != nil && errors.Is(err, io.EOF):
				what = "end of file"
			}
			if what != "" && len(bad) < 5 {
				bad = append(bad, M{"call": k, "once": once, "what": what})
			}
		}
	}
	return M{"calls": n, "tried": len(ks), "bad": bad}
}

type mp4IOSession struct{ cfg M }

func (s *mp4IOSession) Do(op M) M {
	kind := str(s.cfg["io"])
	ini := &fmp4InitSession{s.cfg}
	prs := &pmp4Session{s.cfg}

	if str(op["do"]) == "unmarshal" {
		buf := private(op["buf"])
		open := func(f faults) *ioSource {
			src := &ioSource{faults: f, file: file{b: buf}, eof: boolean(op["eof"])}
			for _, c := range list(op["cuts"]) {
				src.cuts = append(src.cuts, num(c))
			}
			return src
		}
		read := func(src *ioSource) (M, *pmp4.Presentation, error) {
			if kind == "init" {
				m, err := ini.readFrom(src)
				return m, nil, err
			}
			p := object[pmp4.Presentation]()
			if err := p.Unmarshal(src); err != nil {
				return errRes, nil, err
			}
			return nil, p, nil
		}
		view := func(m M, p *pmp4.Presentation) M {
			if p != nil {
				return prs.view(p, false)
			}
			return m
		}
		switch str(op["op"]) {
		case "cut":
			m, p, _ := read(open(faults{}))
			return M{"res": view(m, p)}
		case "source":
			clean := open(faults{})
			cm, cp, cerr := read(clean)
			out := M{"calls": 0, "tried": 0, "bad": L{}}
			if cerr == nil {
				n := clean.calls
				want := snapshot(view(cm, cp))
				out = sweep(n, func(f faults) (bool, error, func() bool, string) {
					src := open(f)
					m, p, err := read(src)
					return src.failed, err, func() bool { return snapshot(view(m, p)) == want }, ""
				})
			}
			m, p, _ := read(open(faults{}))
			out["res"] = view(m, p)
			return out
		case "later":
			// payloads, from a source that breaks and recovers
			src := open(faults{})
			_, p, err := read(src)
			out := M{"calls": 0, "tried": 0, "bad": L{}}
			if err != nil {
				out["res"] = errRes
				return out
			}
			for _, t := range p.Tracks {
				for _, sm := range t.Samples {
					src.faults = faults{}
					want, err := sm.GetPayload()
					if err != nil {
						continue
					}
					m := sweep(src.calls, func(f faults) (bool, error, func() bool, string) {
						src.faults = f
						pl, err := sm.GetPayload()
						return src.failed, err, func() bool { return bytes.Equal(pl, want) }, ""
					})
					out["calls"] = num(out["calls"]) + num(m["calls"])
					out["tried"] = num(out["tried"]) + num(m["tried"])
					out["bad"] = append(list(out["bad"]), list(m["bad"])...)
				}
			}
			src.faults = faults{}
			out["res"] = prs.view(p, false)
			return out
		}
	}

	var x any
	var marshal func(w *ioSink) error
	var p pmp4.Presentation
	switch kind {
	case "init":
		i := ini.build()
		x, marshal = i, func(w *ioSink) error { return i.Marshal(w) }
	case "parts":
		var big bool
		ps := (&fmp4PartsSession{s.cfg}).parts(&big)
		x, marshal = ps, func(w *ioSink) error { return ps.Marshal(w) }
	default:
		p = prs.presentation()
		x, marshal = p, func(w *ioSink) error { return p.Marshal(ioSinkOnlyWrite{w}) }
	}
	result := func() (M, []byte) {
		f := &ioSink{}
		if _, err := encodedBy(x, func() ([]byte, error) {
			f = &ioSink{}
			err := marshal(f)
			return f.b, err
		}); err != nil {
			return errRes, nil
		}
		return M{"buf": ints(f.b)}, f.b
	}
	switch str(op["op"]) {
	case "sink":
		f := &ioSink{}
		cerr := marshal(f)
		want := f.b
		out := M{"calls": 0, "tried": 0, "bad": L{}}
		if cerr == nil {
			before := snapshot(x)
			out = sweep(f.calls, func(fs faults) (bool, error, func() bool, string) {
				f := &ioSink{faults: fs}
				err := marshal(f)
				right := func() bool { return bytes.Equal(f.b, want) }
				if kind == "pmp4" && !fs.once && !bytes.HasPrefix(want, f.b) {
					return f.failed, err, right, "wrong bytes before the failure"
				}
				return f.failed, err, right, ""
			})
			if snapshot(x) != before {
				out["bad"] = append(list(out["bad"]), "object modified")
			}
		}
		out["res"], _ = result()
		return out
	case "payload":
		res, want := result()
		out := M{"calls": 0, "tried": 0, "bad": L{}}
		if want != nil {
			var samples []*pmp4.Sample
			for _, t := range p.Tracks {
				samples = append(samples, t.Samples...)
			}
			out = sweep(len(samples), func(fs faults) (bool, error, func() bool, string) {
				sm := samples[fs.from-1]
				get := sm.GetPayload
				sm.GetPayload = func() ([]byte, error) {
					if fs.calls++; fs.once && fs.failed {
						return get()
					}
					fs.failed = true
					return nil, fs.err
				}
				f := &ioSink{}
				err := marshal(f)
				sm.GetPayload = get
				right := func() bool { return bytes.Equal(f.b, want) }
				if !bytes.HasPrefix(want, f.b) {
					return fs.failed, err, right, "wrong bytes before the failure"
				}
				return fs.failed, err, right, ""
			})
			res, _ = result()
		}
		out["res"] = res
		return out
	case "at":
		before, behind := byts(op["before"]), byts(op["behind"])
		all := append(bytes.Clone(before), behind...)
		var w io.WriteSeeker
		var content func() []byte
		if boolean(op["seekbuf"]) {
			b := &seekablebuffer.Buffer{}
			w, content = b, b.Bytes
		} else {
			f := &file{}
			w, content = f, func() []byte { return f.b }
		}
		w.Write(all)                             //nolint:errcheck
		w.Seek(int64(len(before)), io.SeekStart) //nolint:errcheck
		var err error
		switch v := x.(type) {
		case fmp4.Init:
			err = v.Marshal(w)
		case fmp4.Parts:
			if len(v) == 1 {
				err = v[0].Marshal(w)
			} else {
				err = v.Marshal(w)
			}
		}
		if err != nil {
			return M{"res": errRes, "pos": -1}
		}
		pos, err := w.Seek(0, io.SeekCurrent)
		if err != nil {
			return M{"res": errRes, "pos": -2}
		}
		b := content()
		if !bytes.HasPrefix(b, before) || pos < int64(len(before)) || pos > int64(len(b)) ||
			!bytes.Equal(b[pos:], all[min(int(pos), len(all)):]) {
			return M{"res": M{"buf": ints([]byte{0, 0})}, "pos": -3}
		}
		return M{"res": M{"buf": ints(b[len(before):pos])}, "pos": int(pos) - len(before)}
	}
	panic("harness: unknown op")
}
