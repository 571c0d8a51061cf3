package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"time"

	"github.com/asticode/go-astits"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
)

func init() {
	drivers["tsread"] = &Driver{Mutate: true, Timeout: 20 * time.Second, New: func(M) Session { return sessionFunc(doTsRead) }}
}

var (
	errSource   = errors.New("custom")
	errCallback = errors.New("callback")
)

// a source which delivers bytes in pieces of given sizes
type pieces struct {
	b     []byte
	sizes []int
	i     int
	final error
	with  bool
}

func (p *pieces) Read(buf []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, p.final
	}
	n := p.sizes[p.i%len(p.sizes)]
	p.i++
	n = min(n, len(buf), len(p.b))
	copy(buf, p.b[:n])
	p.b = p.b[n:]
	if p.with && len(p.b) == 0 {
		return n, p.final
	}
	return n, nil
}

func finalErr(s string) error {
	switch s {
	case "eof":
		return io.EOF
	case "ueof":
		return io.ErrUnexpectedEOF
	}
	return errSource
}

func endName(err error) string {
	switch {
	case errors.Is(err, io.EOF):
		return "eof"
	case errors.Is(err, errSource):
		return "custom"
	}
	return "err"
}

// 33 bits as 3, 15 and 15
func stamp(v int64) []int { return []int{int(v >> 30), int(v>>15) & 0x7FFF, int(v) & 0x7FFF} }

func unstamp(v any) int64 {
	l := list(v)
	return int64(num(l[0]))<<30 | int64(num(l[1]))<<15 | int64(num(l[2]))
}

func dvbItems(items []*astits.DescriptorSubtitlingItem) []int {
	o := []int{}
	for _, it := range items {
		o = append(o, ints(it.Language)...)
		o = append(o, int(it.Type), int(it.CompositionPageID>>8), int(it.CompositionPageID&255), int(it.AncillaryPageID>>8), int(it.AncillaryPageID&255))
	}
	return o
}

func codecView(c codecs.Codec) (string, []int) {
	switch c := c.(type) {
	case *codecs.H264:
		return "h264", []int{}
	case *codecs.H265:
		return "h265", []int{}
	case *codecs.MPEG4Video:
		return "mpeg4v", []int{}
	case *codecs.MPEG1Video:
		return "mpeg1v", []int{}
	case *codecs.MPEG4Audio:
		//nolint:staticcheck
		return "aac", []int{int(c.Config.Type), c.Config.SampleRate, int(c.Config.ChannelConfig), c.Config.ChannelCount}
	case *codecs.MPEG4AudioLATM:
		return "latm", []int{}
	case *codecs.MPEG1Audio:
		return "mp1a", []int{}
	case *codecs.AC3:
		return "ac3", []int{c.SampleRate, c.ChannelCount}
	case *codecs.EAC3:
		return "eac3", []int{c.SampleRate, c.ChannelCount}
	case *codecs.Opus:
		d := c.Desc
		o := []int{c.ChannelCount} //nolint:staticcheck
		o = append(o, int(d.ChannelConfigCode), d.ExplicitChannelCount, d.MappingFamily, d.StreamCount, d.CoupledStreamCount)
		return "opus", append(o, ints(d.ChannelMapping)...)
	case *codecs.KLV:
		if c.Synchronous {
			return "klv", []int{1}
		}
		return "klv", []int{0}
	case *codecs.DVBSubtitle:
		return "dvb", dvbItems(c.Items)
	case *codecs.Unsupported:
		return "unsupported", []int{}
	}
	return fmt.Sprintf("%T", c), []int{}
}

func trackView(t *mpegts.Track) M {
	n, p := codecView(t.Codec)
	return M{"pid": int(t.PID), "codec": n, "lang": ints([]byte(t.Language)), "params": p}
}

type tsEvent struct {
	k        string
	pid      int
	pts, dts []int
	data     [][]byte
}

// reads the whole source; a callback fails when its number is in fails
func tsRead(src io.Reader, nocb, fails map[int]bool, view func([][]byte) any) M {
	r := &mpegts.Reader{R: src}
	if err := r.Initialize(); err != nil {
		return M{"init": endName(err)}
	}
	var evs []*tsEvent
	n := 0
	add := func(e *tsEvent) error {
		n++
		evs = append(evs, e)
		if fails[n] {
			evs = append(evs, &tsEvent{k: "X?"})
			return errCallback
		}
		return nil
	}
	tracks := L{}
	for _, t := range r.Tracks() {
		tracks = append(tracks, trackView(t))
	}
	r.OnDecodeError(func(error) {
		if len(evs) == 0 || evs[len(evs)-1].k != "E" {
			evs = append(evs, &tsEvent{k: "E"})
		}
	})
	for _, t := range r.Tracks() {
		pid := int(t.PID)
		if nocb[pid] {
			continue
		}
		both := func(pts, dts int64, d [][]byte) error {
			return add(&tsEvent{k: "cb", pid: pid, pts: stamp(pts), dts: stamp(dts), data: d})
		}
		many := func(pts int64, d [][]byte) error {
			return add(&tsEvent{k: "cb", pid: pid, pts: stamp(pts), dts: []int{}, data: d})
		}
		one := func(pts int64, d []byte) error { return many(pts, [][]byte{d}) }
		switch t.Codec.(type) {
		case *codecs.H264:
			r.OnDataH264(t, both)
		case *codecs.H265:
			r.OnDataH265(t, both)
		case *codecs.MPEG4Video, *codecs.MPEG1Video:
			r.OnDataMPEGxVideo(t, one)
		case *codecs.MPEG4Audio:
			r.OnDataMPEG4Audio(t, many)
		case *codecs.MPEG4AudioLATM:
			r.OnDataMPEG4AudioLATM(t, many)
		case *codecs.MPEG1Audio:
			r.OnDataMPEG1Audio(t, many)
		case *codecs.AC3:
			r.OnDataAC3(t, one)
		case *codecs.EAC3:
			r.OnDataEAC3(t, one)
		case *codecs.Opus:
			r.OnDataOpus(t, many)
		case *codecs.KLV:
			r.OnDataKLV(t, one)
		case *codecs.DVBSubtitle:
			r.OnDataDVBSubtitle(t, one)
		}
	}
	var err error
	for {
		err = r.Read()
		if err == nil {
			continue
		}
		if errors.Is(err, errCallback) && len(evs) > 0 && evs[len(evs)-1].k == "X?" {
			evs[len(evs)-1].k = "X"
			continue
		}
		break
	}
	end := endName(err)
	if e2 := endName(r.Read()); e2 != end {
		end += "/" + e2
	}
	// the data is looked at only now: it must not have been overwritten meanwhile
	out := L{}
	for _, e := range evs {
		switch e.k {
		case "cb":
			out = append(out, M{"k": "cb", "pid": e.pid, "pts": e.pts, "dts": e.dts, "data": view(e.data)})
		default:
			out = append(out, M{"k": e.k})
		}
	}
	return M{"tracks": tracks, "ev": out, "end": end}
}

func intSet(v any) map[int]bool {
	m := map[int]bool{}
	for _, x := range list(v) {
		m[num(x)] = true
	}
	return m
}

func doTsRead(op M) M {
	data := op["buf"]
	if data == nil {
		data = op["stream"]
	}
	runs := L{}
	var seen []M
	for _, c := range list(op["chunks"]) {
		cm := obj(c)
		var sizes []int
		for _, s := range list(cm["sizes"]) {
			sizes = append(sizes, num(s))
		}
		var src io.Reader = &pieces{b: private(data), sizes: sizes, final: finalErr(str(op["final"])), with: boolean(cm["with"])}
		if cm["buffered"] != nil && len(list(data))%188 == 0 {
			src = mpegts.NewBufferedReader(src) //nolint:staticcheck
		}
		r := tsRead(src, intSet(op["nocb"]), intSet(op["fails"]), func(d [][]byte) any { return listInts(d) })
		dup := false
		for _, s := range seen {
			dup = dup || reflect.DeepEqual(s, r)
		}
		if !dup {
			seen = append(seen, r)
			runs = append(runs, r)
		}
	}
	return M{"runs": runs}
}
