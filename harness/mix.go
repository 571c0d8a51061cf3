package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
)

// Objects of every component at the same time: the operations of a group of
// cases are interleaved, and several groups run concurrently. Each case is
// recorded on its own, because objects do not share any state.

type mixPart struct {
	Driver string `json:"driver"`
	In     string `json:"in"`
	N      int    `json:"n"`
	Max    int    `json:"max"`

	d     *Driver
	cases []Case
	outs  [][]byte
}

func runMix(file string, outDir string, seed int64, deep bool) {
	shared = true
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var parts []*mixPart
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		p := &mixPart{}
		if err := json.Unmarshal(sc.Bytes(), p); err != nil || drivers[p.Driver] == nil {
			fmt.Fprintln(os.Stderr, "bad mix:", err, p.Driver)
			os.Exit(3)
		}
		parts = append(parts, p)
	}
	f.Close() //nolint:errcheck

	type ref struct{ part, i int }
	var groups [][]ref
	r := rand.New(rand.NewSource(seed))
	var all []ref
	for k, p := range parts {
		p.d = drivers[p.Driver]
		for _, c := range collect(p.d, p.In, seed, p.N, deep) {
			if c.Cfg["finding"] == nil { // not the listed defects
				p.cases = append(p.cases, c)
			}
		}
		r.Shuffle(len(p.cases), func(i, j int) { p.cases[i], p.cases[j] = p.cases[j], p.cases[i] })
		if p.Max != 0 && len(p.cases) > p.Max {
			p.cases = p.cases[:p.Max]
		}
		p.outs = make([][]byte, len(p.cases))
		for i := range p.cases {
			all = append(all, ref{k, i})
		}
	}
	// half of the groups mix components, the others are of one component
	var same, mixed []ref
	for _, x := range all {
		if x.i%2 == 0 {
			same = append(same, x)
		} else {
			mixed = append(mixed, x)
		}
	}
	r.Shuffle(len(mixed), func(i, j int) { mixed[i], mixed[j] = mixed[j], mixed[i] })
	for _, l := range [][]ref{same, mixed} {
		for len(l) > 0 {
			n := min(len(l), 2+r.Intn(5))
			groups = append(groups, l[:n])
			l = l[n:]
		}
	}
	r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })

	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	for range 12 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				gi := next
				next++
				mu.Unlock()
				if gi >= len(groups) {
					return
				}
				g := groups[gi]
				rr := rand.New(rand.NewSource(seed + int64(gi)))
				var live, every []*running
				var u used // objects that several cases decode into in turn
				if gi%2 == 0 {
					u = used{}
				}
				for _, x := range g {
					s := start(parts[x.part].d, parts[x.part].cases[x.i])
					s.used = u
					live = append(live, s)
				}
				every = append(every, live...)
				for len(live) > 0 {
					i := rr.Intn(len(live))
					if live[i].done() {
						live = append(live[:i], live[i+1:]...)
						continue
					}
					live[i].step()
				}
				for i, x := range g {
					every[i].out.end(every[i].held)
					parts[x.part].outs[x.i] = marshalCase(every[i].out)
				}
			}
		}()
	}
	wg.Wait()
	for _, p := range parts {
		writeTrace(filepath.Join(outDir, p.Driver+".ndjson"), p.outs)
	}
	fmt.Printf("CASES %d GROUPS %d\n", len(all), len(groups))
}
