package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"sync"
)

// Decoding into objects that have been used before: several cases run one
// after another with the same objects. Each is recorded on its own, because
// what is decoded does not depend on what the object contained.

// used: objects by type, or nil if every operation gets a new one.
type used map[reflect.Type]any

// object returns the object to decode into.
func object[T any]() *T {
	w := watching()
	if w == nil || w.used == nil {
		return new(T)
	}
	t := reflect.TypeFor[T]()
	if x, ok := w.used[t]; ok {
		before := new(T)
		*before = *x.(*T)
		w.take(before)
		return x.(*T)
	}
	x := new(T)
	w.used[t] = x
	return x
}

// again: ditto, for a driver which has an object for each case.
func again[T any](x *T) *T {
	w := watching()
	if w == nil {
		return x
	}
	if w.used != nil {
		return object[T]()
	}
	before := new(T)
	*before = *x
	w.take(before)
	return x
}

// take: x has been taken from an object, which must leave it alone from now on.
func (w *watchList) take(x any) { w.taken = append(w.taken, taken{x, snapshot(x)}) }

type taken struct {
	x    any
	orig string
}

func runReuse(d *Driver, cases []Case, seed int64, limit int, emit func([]byte)) {
	r := rand.New(rand.NewSource(seed))
	r.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
	kind := func(c Case) string {
		if len(c.Ops) == 0 {
			return ""
		}
		return fmt.Sprint(c.Ops[0]["op"])
	}
	if limit != 0 && len(cases) > limit {
		// as many of each kind as possible
		n := map[string]int{}
		o := make([]Case, 0, len(cases))
		for _, c := range cases {
			n[kind(c)]++
		}
		per := (limit + len(n) - 1) / len(n)
		n = map[string]int{}
		var rest []Case
		for _, c := range cases {
			if n[kind(c)]++; n[kind(c)] <= per {
				o = append(o, c)
			} else {
				rest = append(rest, c)
			}
		}
		if len(o) < limit {
			o = append(o, rest[:min(len(rest), limit-len(o))]...)
		}
		cases = o
	}
	sort.SliceStable(cases, func(i, j int) bool { return kind(cases[i]) < kind(cases[j]) })
	var groups [][]Case
	for len(cases) > 0 {
		n := min(len(cases), 2+r.Intn(9))
		groups = append(groups, cases[:n])
		cases = cases[n:]
	}
	outs := make([][][]byte, len(groups))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for g := range groups {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			u := used{}
			for _, c := range groups[g] {
				x := start(d, c)
				x.used = u
				x.out.Group = g + 1
				for !x.done() {
					x.step()
				}
				outs[g] = append(outs[g], marshalCase(x.out))
				if n := len(x.out.Ev); n != 0 && (x.out.Ev[n-1]["r"].(M)["panic"] != nil || x.out.Ev[n-1]["r"].(M)["hang"] != nil) {
					u = used{} // in an unknown state
				}
			}
		}()
	}
	wg.Wait()
	for _, g := range outs {
		for _, b := range g {
			emit(b)
		}
	}
	fmt.Fprintf(os.Stderr, "%d groups\n", len(groups))
}
