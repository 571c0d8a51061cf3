package main

import (
	"bytes"
	"errors"
	"io"
	"math/rand"

	"github.com/bluenviron/mediacommon/v2/pkg/rewindablereader"
)

// rewind: a source that delivers its stream in given segments and then
// returns a given error, read through rewindablereader.Reader.
func init() {
	drivers["rewind"] = &Driver{Gen: genRewind, New: newRewind}
}

var errCustom = errors.New("custom source error")

type segSource struct {
	stream  []byte
	segs    []int
	pos     int
	inSeg   int
	withErr bool // the last segment is returned together with the error
	final   error
	lastErr error
	err1at  int // temporary error before this segment
}

func (s *segSource) Read(p []byte) (int, error) {
	s.lastErr = nil
	if len(s.segs) == 0 {
		s.lastErr = s.final
		return 0, s.final
	}
	n := min(len(p), s.segs[0])
	copy(p, s.stream[s.pos:s.pos+n])
	s.pos += n
	s.segs[0] -= n
	if s.segs[0] == 0 {
		s.segs = s.segs[1:]
		if len(s.segs) == 0 && s.withErr {
			s.lastErr = s.final
			return n, s.final
		}
	}
	return n, nil
}

func errName(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, io.EOF):
		return "eof"
	case errors.Is(err, errCustom):
		return "custom"
	default:
		return "other"
	}
}

func newRewind(cfg M) Session {
	var segs []int
	total := 0
	for _, x := range list(cfg["segs"]) {
		segs = append(segs, num(x))
		total += num(x)
	}
	stream := make([]byte, total)
	if total < 250 {
		for i := range stream {
			stream[i] = byte(i + 1)
		}
	} else {
		rand.New(rand.NewSource(int64(total))).Read(stream)
	}
	src := &segSource{stream: stream, segs: segs, withErr: boolean(cfg["witherr"]), final: io.EOF}
	if str(cfg["final"]) == "custom" {
		src.final = errCustom
	}
	r := &rewindablereader.Reader{R: src}

	// position of the returned data inside the stream
	from := func(d []byte) int {
		i := bytes.Index(stream, d)
		if i < 0 {
			return -2
		}
		if len(d) == 0 || (total >= 250 && len(d) < 5) {
			return -1
		}
		return i
	}

	return sessionFunc(func(op M) M {
		switch str(op["op"]) {
		case "read":
			p := make([]byte, num(op["n"]))
			src.lastErr = nil
			n, err := r.Read(p)
			res := M{"n": n, "from": from(p[:n]), "e": errName(err), "src": src.pos, "srce": errName(src.lastErr)}
			scribble(p)
			return res
		case "rewind":
			r.Rewind()
			return M{"ok": true}
		case "drain":
			var all []byte
			stuck := 0
			for {
				p := make([]byte, num(op["n"]))
				n, err := r.Read(p)
				all = append(all, p[:n]...)
				scribble(p)
				if err != nil {
					return M{"n": len(all), "from": from(all), "e": errName(err), "src": src.pos, "srce": errName(src.lastErr)}
				}
				if n == 0 {
					stuck++
					if stuck > 1000 {
						return M{"stuck": true}
					}
				} else {
					stuck = 0
				}
			}
		}
		panic("harness: op")
	})
}

func genRewind(r *rand.Rand, n int, deep bool) []Case {
	var out []Case
	for i := range n {
		c := Case{Cfg: M{"witherr": r.Intn(2) == 0, "final": []string{"eof", "custom"}[r.Intn(2)]}}
		big := i%40 == 0
		var segs []int
		if big {
			// around the recording limit
			left := 1024*1024 - 3 + r.Intn(7)
			if r.Intn(3) == 0 {
				left += r.Intn(100000)
			}
			for left > 0 {
				k := min(left, 5000+r.Intn(400000))
				if r.Intn(4) == 0 {
					k = left
				}
				segs = append(segs, k)
				left -= k
			}
		} else {
			left := r.Intn(240)
			for left > 0 {
				k := 1 + r.Intn(min(left, 60))
				segs = append(segs, k)
				left -= k
			}
		}
		if segs == nil {
			segs = []int{}
		}
		c.Cfg["segs"] = segs
		sz := func() int {
			if big {
				return []int{65536, 4096, 300000, 1 << 20, 2 << 20}[r.Intn(5)]
			}
			return []int{0, 1, 2, 5, 17, 64, 300}[r.Intn(7)]
		}
		pre := r.Intn(8)
		if big {
			pre = r.Intn(30)
		}
		many := i%40 == 20 // many small reads
		if many {
			pre = 50 + r.Intn(800)
			left := 2000 + r.Intn(5000)
			segs = nil
			for left > 0 {
				k := 1 + r.Intn(min(left, 60))
				segs = append(segs, k)
				left -= k
			}
			c.Cfg["segs"] = segs
		}
		for range pre {
			c.Ops = append(c.Ops, M{"op": "read", "n": sz()})
		}
		if r.Intn(10) != 0 {
			c.Ops = append(c.Ops, M{"op": "rewind"})
			for range r.Intn(8) {
				c.Ops = append(c.Ops, M{"op": "read", "n": sz()})
			}
			k := sz()
			if k == 0 {
				k = 7
			}
			c.Ops = append(c.Ops, M{"op": "drain", "n": k})
		}
		out = append(out, c)
	}
	return out
}
