package main

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand"
	"testing/iotest"
	"time"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
)

// tsround: units of any size are written and the stream is read back.
func init() {
	drivers["tsround"] = &Driver{Gen: genTsRound, New: newTsRound, Timeout: 60 * time.Second}
}

func token(b []byte) string { return fmt.Sprintf("%d:%08x", len(b), crc32.ChecksumIEEE(b)) }

func tokens(d [][]byte) any {
	o := L{}
	for _, x := range d {
		o = append(o, token(x))
	}
	return o
}

// content of a unit, from a description: [kind, size, seed]
func content(x any) []byte {
	l := list(x)
	kind, n, seed := str(l[0]), num(l[1]), num(l[2])
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(seed))).Read(b)
	var head []byte
	switch kind {
	case "raw":
	case "nz": // no zeros
		for i := range b {
			if b[i] == 0 {
				b[i] = 0x77
			}
		}
	case "mpa":
		head = []byte{255, 251, 144 + byte(n-417)*2, 0}
	case "ac3":
		head = []byte{11, 119, b[2], b[3], byte((n - 128) / 16), 64, 64}
	case "eac3":
		head = []byte{11, 119, 1, b[3], 0x34, 128}
	default: // a NAL unit with the given header
		for i := range b {
			if b[i] == 0 {
				b[i] = 0x77
			}
		}
		var h int
		fmt.Sscanf(kind, "n%d", &h)
		head = []byte{byte(h)}
	}
	copy(b, head)
	return b
}

func newTsRound(cfg M) Session {
	var buf bytes.Buffer
	w := &mpegts.Writer{W: &buf}
	for _, t := range list(cfg["tracks"]) {
		w.Tracks = append(w.Tracks, tsTrackOf(obj(t)))
	}
	if err := w.Initialize(); err != nil {
		panic("harness: " + err.Error())
	}
	return sessionFunc(func(op M) M {
		switch str(op["op"]) {
		case "write":
			var d [][]byte
			for _, x := range list(op["data"]) {
				d = append(d, content(x))
			}
			d = privateUnits(d)
			err := tsWriteUnit(w, w.Tracks[num(op["t"])-1], unstamp(op["pts"]), unstamp(op["dts"]), d)
			if err != nil {
				return M{"err": err.Error()}
			}
			return M{"data": tokens(d)}
		case "read":
			var src io.Reader = bytes.NewReader(buf.Bytes())
			switch str(op["mode"]) {
			case "half":
				src = iotest.HalfReader(src)
			case "dataerr":
				src = iotest.DataErrReader(src)
			}
			return tsRead(src, nil, nil, tokens)
		}
		panic("harness: op")
	})
}

func genTsRound(r *rand.Rand, n int, deep bool) []Case {
	names := []string{"h264", "h265", "mpeg4v", "mpeg1v", "opus", "aac", "latm", "mp1a", "ac3", "eac3", "klvs", "klva", "dvb"}
	var out []Case
	size := func(big int) int {
		switch r.Intn(8) {
		case 0:
			return 1 + r.Intn(big)
		case 1, 2:
			return 1 + r.Intn(1+big/10)
		case 3:
			return 1 + r.Intn(40)
		}
		return 1 + r.Intn(800)
	}
	for i := range n {
		var ts L
		nt := []int{1, 1, 2, 3, 5}[r.Intn(5)]
		for k := range nt {
			c := names[r.Intn(len(names))]
			if k == 0 {
				c = names[i%len(names)]
			}
			t := M{"codec": c, "pid": 0, "lang": []int{}}
			if r.Intn(3) == 0 {
				t["lang"] = ints([]byte([]string{"eng", "ita", "zxx"}[r.Intn(3)]))
			}
			switch c {
			case "opus":
				t["chan"] = 1 + r.Intn(8)
				t["desc"] = L{}
			case "aac":
				t["type"], t["rate"] = 2, []int{48000, 44100, 8000, 96000}[r.Intn(4)]
				t["chan"] = 1 + r.Intn(7)
				t["count"] = t["chan"]
				if t["chan"] == 7 {
					t["count"] = 8
				}
			case "ac3", "eac3":
				t["chan"] = 2
			case "dvb":
				t["items"] = ints([]byte{'e', 'n', 'g', byte(r.Intn(256)), 1, 2, 3, byte(r.Intn(256))})
			}
			ts = append(ts, t)
		}
		c := Case{Cfg: M{"tracks": ts}}
		big := 40000
		if r.Intn(10) == 0 {
			big = 400000
		}
		if shared { // under the race detector, with other cases
			big = 5000
		}
		stampOf := func() int64 { return r.Int63n(1 << 33) }
		base := stampOf()
		unit := func(k int) {
			codec := str(obj(ts[k])["codec"])
			var d L
			s := func(kind string, n int) { d = append(d, L{kind, n, r.Intn(1 << 30)}) }
			few := 1 + r.Intn(3)
			switch codec {
			case "h264":
				for j := range few + r.Intn(2)*r.Intn(35) {
					h := []int{1, 5, 7, 8, 6, 65, 101}[r.Intn(7)]
					if j == 0 && r.Intn(4) == 0 && few > 1 {
						h = 9
					}
					s(fmt.Sprintf("n%d", h), size(big))
				}
			case "h265":
				for j := range few {
					h := []int{2, 38, 40, 42, 64, 66, 68, 78}[r.Intn(8)]
					if j == 0 && r.Intn(4) == 0 && few > 1 {
						h = 70
					}
					s(fmt.Sprintf("n%d", h), size(big)+1)
				}
			case "opus":
				for range few {
					s("raw", size(1200))
				}
			case "aac":
				for range few {
					s("raw", size(5120))
				}
			case "latm":
				for range few {
					s("raw", size(8191))
				}
			case "mp1a":
				for range few {
					s("mpa", 417+r.Intn(2))
				}
			case "ac3":
				s("ac3", 128+32*r.Intn(3))
			case "eac3":
				s("eac3", 8+size(3000))
			case "klvs":
				// units of which the size cannot be declared are covered by a separate case
				s("raw", size(60000))
			default:
				s("raw", size(min(big, 60000)))
			}
			if base += r.Int63n(20000); base >= 1<<33 {
				base -= 1 << 33
			}
			dts := base
			if r.Intn(2) == 0 {
				if dts -= r.Int63n(10000); dts < 0 {
					dts += 1 << 33
				}
			}
			c.Ops = append(c.Ops, M{"op": "write", "t": k + 1, "pts": stamp(base), "dts": stamp(dts), "data": d})
		}
		// every track has a unit, in any order
		for range r.Intn(4) {
			unit(r.Intn(nt))
		}
		for _, k := range r.Perm(nt) {
			unit(k)
		}
		for range r.Intn(12) {
			unit(r.Intn(nt))
		}
		if i%20 == 0 {
			for range 100 {
				unit(r.Intn(nt))
			}
		}
		c.Ops = append(c.Ops, M{"op": "read", "mode": []string{"", "half", "dataerr"}[r.Intn(3)]})
		out = append(out, c)
	}
	// the first units of the tracks are not in the order of the program map
	for _, ks := range [][]int{{2, 1}, {2, 1, 2, 1}} {
		t := M{"codec": "aac", "pid": 0, "lang": []int{}, "type": 2, "rate": 48000, "chan": 2, "count": 2}
		c := Case{Cfg: M{"tracks": L{M{"codec": "ac3", "pid": 0, "lang": []int{}, "chan": 2}, t}}}
		for j, k := range ks {
			c.Ops = append(c.Ops, M{"op": "write", "t": k, "pts": []int{0, 0, j}, "dts": []int{0, 0, j}, "data": L{L{[]string{"ac3", "raw"}[k-1], 128, 3}}})
		}
		c.Ops = append(c.Ops, M{"op": "read", "mode": ""})
		out = append(out, c)
	}
	// units of several cells
	for i, n := range []int{65535, 65536, 2*65535 - 1, 2 * 65535, 3 * 65535, 3*65535 + 1, 20 * 65535} {
		if i == 6 && !deep {
			continue
		}
		c := Case{Cfg: M{"tracks": L{M{"codec": "klvs", "pid": 0, "lang": []int{}}}}}
		for k, d := range []L{{L{"raw", 20, 1}}, {L{"raw", n, i}}, {L{"raw", 1000, 3}}} {
			c.Ops = append(c.Ops, M{"op": "write", "t": 1, "pts": []int{0, 0, k}, "dts": []int{0, 0, k}, "data": d})
		}
		c.Ops = append(c.Ops, M{"op": "read", "mode": ""})
		out = append(out, c)
	}
	// large units of which the size is not declared
	for i, codec := range []string{"klvs", "klva", "latm"} {
		for j, last := range []int{1000, 10} {
			kind := "raw"
			t := M{"codec": codec, "pid": 0, "lang": []int{}}
			c := Case{Cfg: M{"tracks": L{M{"codec": "mpeg4v", "pid": 0, "lang": []int{}}, t}}}
			large := L{L{kind, 70000, i}}
			if codec == "latm" {
				large = L{}
				for k := range 10 {
					large = append(large, L{kind, 8000, k})
				}
			}
			if j == 1 {
				c.Cfg["finding"] = codec + "-unbounded-then-small"
			}
			for k, d := range []L{{L{kind, 20, 1}}, {L{kind, 300, 2}}, large, {L{kind, last, 3}}, {L{kind, 500, 4}}} {
				c.Ops = append(c.Ops, M{"op": "write", "t": min(k, 1) + 1, "pts": []int{0, 0, k}, "dts": []int{0, 0, k}, "data": d})
			}
			c.Ops = append(c.Ops, M{"op": "read", "mode": ""})
			out = append(out, c)
		}
	}
	return out
}
