package main

import (
	"bytes"
	"runtime"
	"slices"
	"sync"
	"unsafe"
)

// What the code under test must leave alone: the data of the caller, and the
// data it returned before.  Both are compared with copies.

type kept struct {
	p, orig []byte
	read    chan byte
}

// shared: inputs are read concurrently by somebody else, as the owner may do.
// A write to them, even if undone, is then a data race.
var shared bool

func (k *kept) share() {
	if !shared {
		return
	}
	c := make(chan byte, 1)
	k.read = c
	p := k.p
	go func() {
		var x byte
		for _, b := range p {
			x ^= b
		}
		c <- x
	}()
}

func join(l []kept) {
	for i := range l {
		if l[i].read != nil {
			<-l[i].read
			l[i].read = nil
		}
	}
}

type watchList struct {
	in    []kept
	lists []keptList
	out   []kept
	used  used
	taken []taken
	// an object was changed by encoding it
	altered bool
}

var watches sync.Map // goroutine -> *watchList

func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id uint64
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

func watching() *watchList {
	if w, ok := watches.Load(goid()); ok {
		return w.(*watchList)
	}
	return nil
}

// private copies data of a case for the code under test, which must not modify
// it, nor the bytes of the owner that follow it.
func private(v any) []byte {
	d := byts(v)
	if len(d) == 0 {
		if d != nil {
			d = []byte{}
		}
		return d
	}
	w := watching()
	if w == nil {
		return bytes.Clone(d)
	}
	b := make([]byte, len(d)+24)
	for i := copy(b, d); i < len(b); i++ {
		b[i] = 0xA5
	}
	k := kept{p: b, orig: bytes.Clone(b)}
	k.share()
	w.in = append(w.in, k)
	return b[:len(d)]
}

// privateList: ditto for a list, whose items must not be replaced.
func privateList(v any) [][]byte {
	l := list(v)
	o := make([][]byte, 0, len(l)+2)
	for _, x := range l {
		o = append(o, private(x))
	}
	own(o)
	if len(l) == 0 {
		return nil
	}
	return o
}

// privateUnits: ditto.
func privateUnits(l [][]byte) [][]byte {
	o := make([][]byte, 0, len(l)+2)
	for _, x := range l {
		o = append(o, private(x))
	}
	own(o)
	return o
}

// own: the list belongs to the caller, together with the rest of its array.
func own(l [][]byte) {
	if w := watching(); w != nil {
		f := l[:cap(l)]
		w.lists = append(w.lists, keptList{f, slices.Clone(f)})
	}
}

type keptList struct{ p, orig [][]byte }

func (k keptList) modified() bool {
	for i, x := range k.p {
		if len(x) != len(k.orig[i]) || unsafe.SliceData(x) != unsafe.SliceData(k.orig[i]) {
			return true
		}
	}
	return false
}

// keep: the code under test returned b and must not modify it later.
func keep(b []byte) []byte {
	if len(b) != 0 {
		if w := watching(); w != nil {
			w.out = append(w.out, kept{p: b, orig: bytes.Clone(b)})
		}
	}
	return b
}

func overlap(a, b []byte) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	x, y := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return x < y+uintptr(len(b)) && y < x+uintptr(len(a))
}

func forget(l []kept, p []byte) []kept {
	o := l[:0]
	for _, k := range l {
		if !overlap(k.p, p) {
			o = append(o, k)
		}
	}
	return o
}

func modified(l []kept) bool {
	for _, k := range l {
		if !bytes.Equal(k.p, k.orig) {
			return true
		}
	}
	return false
}

// scribble overwrites a buffer that belongs to the caller again.
// Called twice on the same data, it makes the results of either call visible.
func scribble(p []byte) {
	if w := watching(); w != nil {
		join(w.in)
		if modified(w.in) {
			w.in = append(w.in, kept{p: []byte{0}, orig: []byte{1}}) // remember it
		}
		w.in = forget(w.in, p)
		w.out = forget(w.out, p)
	}
	for i := range p {
		p[i] = 0xEE
	}
}

// intact: the data of the caller is as it was
func (w *watchList) intact() bool {
	for _, l := range w.lists {
		if l.modified() {
			return false
		}
	}
	for _, t := range w.taken {
		if snapshot(t.x) != t.orig {
			return false
		}
	}
	return !w.altered && !modified(w.in)
}
