package main

import (
	"encoding/binary"
	"math/rand"
	"slices"
)

// boxNode is a box found in a file, with its parents.
type boxNode struct {
	off, head, size int
	typ             string
	up              []int // indexes of the enclosing boxes
}

var boxContainers = map[string]int{
	"moov": 0, "trak": 0, "mdia": 0, "minf": 0, "stbl": 0, "dinf": 0, "edts": 0, "mvex": 0, "moof": 0, "traf": 0, "udta": 0, "stsd": 8,
	"avc1": 78, "hvc1": 78, "hev1": 78, "av01": 78, "vp09": 78, "mp4v": 78,
	"mp4a": 28, "Opus": 28, "fLaC": 28, "ac-3": 28, "ec-3": 28, "ipcm": 28,
}

func boxesOf(b []byte, lo, hi int, up []int, out *[]boxNode) {
	for lo+8 <= hi && len(*out) < 2000 {
		size := int(binary.BigEndian.Uint32(b[lo:]))
		head := 8
		if size == 1 && lo+16 <= hi {
			size = int(binary.BigEndian.Uint64(b[lo+8:]))
			head = 16
		}
		if size < head || size > hi-lo {
			return
		}
		n := boxNode{lo, head, size, string(b[lo+4 : lo+8]), up}
		*out = append(*out, n)
		if skip, ok := boxContainers[n.typ]; ok && head+skip <= size {
			boxesOf(b, lo+head+skip, lo+size, append(slices.Clone(up), len(*out)-1), out)
		}
		lo += size
	}
}

// mutateFile damages a MP4 file.
func mutateFile(r *rand.Rand, b []byte) []byte {
	b = slices.Clone(b)
	for range 1 + r.Intn(3) {
		var bs []boxNode
		boxesOf(b, 0, len(b), nil, &bs)
		grow := func(n boxNode, d int) {
			for _, u := range n.up {
				p := bs[u]
				if p.head == 8 {
					binary.BigEndian.PutUint32(b[p.off:], uint32(p.size+d))
				} else {
					binary.BigEndian.PutUint64(b[p.off+8:], uint64(p.size+d))
				}
			}
		}
		if len(bs) == 0 {
			if len(b) > 0 {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
			continue
		}
		n := bs[r.Intn(len(bs))]
		vals := []uint32{0, 1, 2, 7, 0xff, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x10000000, uint32(r.Intn(64)), r.Uint32()}
		switch r.Intn(12) {
		case 0:
			b = b[:r.Intn(len(b)+1)]
		case 1:
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		case 2:
			b[n.off+r.Intn(n.size)] = byte(r.Intn(256))
		case 3, 4, 5: // a field
			if k := (n.size - n.head) / 4; k > 0 {
				binary.BigEndian.PutUint32(b[n.off+n.head+4*r.Intn(min(k, 12)):], vals[r.Intn(len(vals))])
			}
		case 6: // its size
			s := vals[r.Intn(len(vals))]
			if r.Intn(2) == 0 {
				s = uint32(n.size + r.Intn(33) - 16)
			}
			binary.BigEndian.PutUint32(b[n.off:], s)
		case 7: // remove
			if r.Intn(4) != 0 {
				grow(n, -n.size)
			}
			b = slices.Delete(b, n.off, n.off+n.size)
		case 8: // duplicate
			if r.Intn(4) != 0 {
				grow(n, n.size)
			}
			b = slices.Insert(b, n.off, slices.Clone(b[n.off:n.off+n.size])...)
		case 9: // move into another place
			m := bs[r.Intn(len(bs))]
			x := slices.Clone(b[n.off : n.off+n.size])
			grow(m, n.size)
			b = slices.Insert(b, m.off, x...)
		case 10: // rename
			copy(b[n.off+4:], bs[r.Intn(len(bs))].typ)
		case 11: // shrink its payload
			if n.size > n.head {
				d := 1 + r.Intn(min(n.size-n.head, 16))
				grow(n, -d)
				if n.head == 8 {
					binary.BigEndian.PutUint32(b[n.off:], uint32(n.size-d))
				} else {
					binary.BigEndian.PutUint64(b[n.off+8:], uint64(n.size-d))
				}
				b = slices.Delete(b, n.off+n.size-d, n.off+n.size)
			}
		}
	}
	return b
}

// repeatEntries repeats the first entry of a table many times, each within the limits of one.
func repeatEntries(r *rand.Rand, b []byte) []byte {
	b = slices.Clone(b)
	var bs []boxNode
	boxesOf(b, 0, len(b), nil, &bs)
	size := map[string]int{"stts": 8, "ctts": 8, "stsc": 12}
	var all []boxNode
	for _, n := range bs {
		if e, ok := size[n.typ]; ok && n.size >= n.head+8+e {
			all = append(all, n)
		}
	}
	if len(all) == 0 {
		return b
	}
	n := all[r.Intn(len(all))]
	e := size[n.typ]
	at := n.off + n.head
	k := 1 + r.Intn(12)
	if n.typ != "stsc" {
		binary.BigEndian.PutUint32(b[at+8:], []uint32{5184000, 2592000, 1728000, 1000, 1}[r.Intn(5)])
	}
	entry := slices.Clone(b[at+8 : at+8+e])
	for i := range k {
		if n.typ == "stsc" {
			binary.BigEndian.PutUint32(entry, uint32(2+i)*uint32(1+r.Intn(2)*100000))
		}
		b = slices.Insert(b, at+8+e, entry...)
	}
	binary.BigEndian.PutUint32(b[at+4:], binary.BigEndian.Uint32(b[at+4:])+uint32(k))
	for _, u := range append(slices.Clone(n.up), slices.IndexFunc(bs, func(x boxNode) bool { return x.off == n.off })) {
		p := bs[u]
		if p.head == 8 {
			binary.BigEndian.PutUint32(b[p.off:], uint32(p.size+k*e))
		} else {
			binary.BigEndian.PutUint64(b[p.off+8:], uint64(p.size+k*e))
		}
	}
	return b
}

// mutateFiles derives cases with one damaged file from those of the specification.
func mutateFiles(r *rand.Rand, in []Case, n int) []Case {
	var out []Case
	type src struct {
		cfg M
		op  M
	}
	var all []src
	for _, c := range in {
		for _, op := range c.Ops {
			if _, ok := op["buf"]; ok {
				all = append(all, src{c.Cfg, op})
			}
		}
	}
	if len(all) == 0 {
		return nil
	}
	for range n {
		s := all[r.Intn(len(all))]
		o := M{}
		for k, v := range s.op {
			o[k] = v
		}
		o["damaged"] = 1
		o["buf"] = ints(mutateFile(r, byts(s.op["buf"])))
		out = append(out, Case{s.cfg, []M{o}})
	}
	return out
}
