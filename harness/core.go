// Command vh runs the real mediacommon code on generated operation sequences
// and records what it did, as newline-delimited JSON that TLC validates
// against the TLA+ specification in /verif/spec.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// M is a JSON object.
type M = map[string]any

// L is a JSON array.
type L = []any

// Case is a configuration and a sequence of operations.
type Case struct {
	Cfg M   `json:"cfg"`
	Ops []M `json:"ops"`
}

// Session executes the operations of one case on the real code.
// The returned map is the observed result of the operation.
type Session interface {
	Do(op M) M
}

// Driver binds one specification module to the real code.
type Driver struct {
	// Gen produces n cases.
	Gen func(r *rand.Rand, n int, deep bool) []Case
	// New starts a case.
	New func(cfg M) Session
	// Mutate: derive further cases from those of the specification.
	Mutate bool
	// MutateFile: derive cases with damaged files.
	MutateFile bool
	// Derive: turn the cases of the specification into n others.
	Derive func(r *rand.Rand, in []Case, n int) []Case
	// Serial: one case at a time.
	Serial bool
	// Timeout of a single operation.
	Timeout time.Duration
}

var drivers = map[string]*Driver{}

type sessionFunc func(op M) M

func (f sessionFunc) Do(op M) M { return f(op) }

func num(v any) int {
	switch x := v.(type) {
	case int:
		return x
	case int64:
		return int(x)
	case int32:
		return int(x)
	case uint8:
		return int(x)
	case uint16:
		return int(x)
	case uint32:
		return int(x)
	case uint64:
		return int(x)
	case float64:
		return int(x)
	case bool:
		if x {
			return 1
		}
		return 0
	case nil:
		return 0
	}
	panic(fmt.Sprintf("harness: not a number: %T %v", v, v))
}

func (c *Case) normalize() {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	var d Case
	if err := json.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	*c = d
}

func str(v any) string { return v.(string) }

func boolean(v any) bool {
	switch x := v.(type) {
	case bool:
		return x
	}
	return num(v) != 0
}

func byts(v any) []byte {
	switch x := v.(type) {
	case []byte:
		return x
	case []int:
		o := make([]byte, len(x))
		for i := range x {
			o[i] = byte(x[i])
		}
		return o
	case []any:
		o := make([]byte, len(x))
		for i := range x {
			o[i] = byte(num(x[i]))
		}
		return o
	case nil:
		return nil
	}
	panic(fmt.Sprintf("harness: not bytes: %T", v))
}

func list(v any) []any {
	switch x := v.(type) {
	case []any:
		return x
	case nil:
		return nil
	case []M:
		o := make([]any, len(x))
		for i := range x {
			o[i] = x[i]
		}
		return o
	}
	panic(fmt.Sprintf("harness: not a list: %T", v))
}

func obj(v any) M { return v.(map[string]any) }

// ints converts bytes to a JSON-friendly list of numbers.
func ints(b []byte) []int {
	o := make([]int, len(b))
	for i := range b {
		o[i] = int(b[i])
	}
	return o
}

// limbs splits a 64 bit value into 16-bit limbs, most significant first.
func limbs(v uint64) []int {
	return []int{int(v >> 48), int(v >> 32 & 0xffff), int(v >> 16 & 0xffff), int(v & 0xffff)}
}

// u32 represents an unsigned 32 bit value as two limbs.
func u32(v uint32) []int {
	return []int{int(v >> 16), int(v & 0xffff)}
}

func unlimbs(v any) uint64 {
	var r uint64
	for _, x := range list(v) {
		r = r<<16 | uint64(num(x))
	}
	return r
}

var errRes = M{"err": true}

type caseOut struct {
	Cfg M   `json:"cfg"`
	Ev  []M `json:"ev"`
	// cases executed one after another with the same objects
	Group int `json:"group,omitempty"`
}

// hangs is the number of operations that did not end. After some, nothing else is run.
var hangs atomic.Int32

// runOp performs one operation. The results it keeps must not change until the end of the case.
func runOp(s Session, op M, timeout time.Duration, held *[]kept, u used) (res M, fatal bool) {
	type ret struct {
		m     M
		fatal bool
	}
	ch := make(chan ret, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if strings.Contains(fmt.Sprint(x), "harness:") {
					fmt.Fprintf(os.Stderr, "HARNESS ERROR %v\n%s\n", x, st)
					os.Exit(3)
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				ch <- ret{M{"panic": fmt.Sprint(x), "stack": st}, true}
			}
		}()
		w := &watchList{out: *held, used: u}
		id := goid()
		watches.Store(id, w)
		defer watches.Delete(id)
		m := s.Do(op)
		join(w.in)
		if !w.intact() {
			m = M{"modified": m}
		} else if modified(w.out) {
			m = M{"changed earlier results": m}
		}
		*held = w.out
		ch <- ret{m, false}
	}()
	t := time.NewTimer(timeout)
	defer t.Stop()
	select {
	case r := <-ch:
		return r.m, r.fatal
	case <-t.C:
		hangs.Add(1)
		return M{"hang": true}, true
	}
}

// end checks once more the results of the case
func (o *caseOut) end(held []kept) {
	if n := len(o.Ev); n != 0 && modified(held) {
		o.Ev[n-1]["r"] = M{"changed earlier results": o.Ev[n-1]["r"]}
	}
}

// running is a case in progress.
type running struct {
	c       Case
	s       Session
	out     caseOut
	held    []kept
	used    used
	next    int
	timeout time.Duration
}

func start(d *Driver, c Case) *running {
	c.normalize()
	r := &running{c: c, timeout: d.Timeout, out: caseOut{Cfg: c.Cfg, Ev: []M{}}}
	if r.timeout == 0 {
		r.timeout = 60 * time.Second
	}
	if shared {
		r.timeout *= 4 // under the race detector, with other cases
	}
	if r.out.Cfg == nil {
		r.out.Cfg = M{}
	}
	defer func() {
		if x := recover(); x != nil {
			fmt.Fprintf(os.Stderr, "HARNESS ERROR in New: %v\n%s\n", x, debug.Stack())
			os.Exit(3)
		}
	}()
	r.s = d.New(c.Cfg)
	return r
}

func (r *running) done() bool { return r.next >= len(r.c.Ops) || hangs.Load() >= 3 }

// step performs the next operation.
func (r *running) step() {
	op := r.c.Ops[r.next]
	r.next++
	res, fatal := runOp(r.s, op, r.timeout, &r.held, r.used)
	if tooLarge(res) {
		res = M{"huge": fmt.Sprint(res)}
	}
	ev := M{}
	for k, v := range op {
		ev[k] = v
	}
	ev["r"] = res
	r.out.Ev = append(r.out.Ev, ev)
	if fatal {
		r.next = len(r.c.Ops)
	}
}

// tooLarge tells whether a result contains a number of more than 32 bits, which TLC would truncate; no specification has one.
func tooLarge(v any) bool {
	big := func(n int64) bool { return n > math.MaxUint32 || n < math.MinInt32 }
	switch v := v.(type) {
	case M:
		for _, x := range v {
			if tooLarge(x) {
				return true
			}
		}
	case L:
		return slices.ContainsFunc(v, tooLarge)
	case []M:
		return slices.ContainsFunc(v, func(x M) bool { return tooLarge(x) })
	case []int:
		return slices.ContainsFunc(v, func(x int) bool { return big(int64(x)) })
	case [][]int:
		return slices.ContainsFunc(v, func(x []int) bool { return tooLarge(x) })
	case int:
		return big(int64(v))
	case int64:
		return big(v)
	case uint32:
		return big(int64(v))
	case uint64:
		return v > math.MaxUint32
	}
	return false
}

func marshalCase(o caseOut) []byte {
	b, err := json.Marshal(o)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR marshal:", err)
		os.Exit(3)
	}
	return b
}

func runCase(d *Driver, c Case) caseOut {
	r := start(d, c)
	for !r.done() {
		r.step()
	}
	r.out.end(r.held)
	return r.out
}

// collect reads the cases of the specification and produces the others.
func collect(d *Driver, in string, seed int64, n int, deep bool) []Case {
	var cases []Case
	if in != "" {
		f, err := os.Open(in)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 256<<20)
		for sc.Scan() {
			var c Case
			if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
				fmt.Fprintln(os.Stderr, "bad case:", err)
				os.Exit(3)
			}
			cases = append(cases, c)
		}
		f.Close()
	}
	if d.Mutate {
		cases = append(cases, mutate(rand.New(rand.NewSource(seed)), cases, n)...)
	}
	if d.MutateFile {
		cases = append(cases, mutateFiles(rand.New(rand.NewSource(seed)), cases, n)...)
	}
	if d.Derive != nil {
		cases = d.Derive(rand.New(rand.NewSource(seed)), cases, n)
	}
	if d.Gen != nil && n > 0 {
		cases = append(cases, d.Gen(rand.New(rand.NewSource(seed)), n, deep)...)
	}

	return cases
}

func main() {
	debug.SetGCPercent(200)
	prop := flag.String("driver", "", "driver")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "number of random cases")
	deep := flag.Bool("deep", false, "deep tier")
	in := flag.String("in", "", "file with cases generated from the specification")
	out := flag.String("out", "", "output trace")
	lo := flag.Int("lo", 0, "first case")
	hi := flag.Int("hi", -1, "last case (excluded)")
	dump := flag.Bool("dump", false, "only dump the cases")
	mix := flag.String("mix", "", "file with drivers to be run together")
	reuse := flag.Int("reuse", 0, "decode into used objects, at most this number of cases")
	lst := flag.Bool("list", false, "list drivers")
	flag.Parse()

	if *lst {
		var k []string
		for n := range drivers {
			k = append(k, n)
		}
		sort.Strings(k)
		fmt.Println(strings.Join(k, " "))
		return
	}
	if *mix != "" {
		runMix(*mix, *out, *seed, *deep)
		return
	}
	d := drivers[*prop]
	if d == nil {
		fmt.Fprintln(os.Stderr, "unknown driver", *prop)
		os.Exit(3)
	}
	cases := collect(d, *in, *seed, *n, *deep)

	if *hi >= 0 && *hi < len(cases) {
		cases = cases[:*hi]
	}
	if *lo > 0 {
		cases = cases[min(*lo, len(cases)):]
	}
	if *dump {
		for _, c := range cases {
			b, _ := json.Marshal(c)
			fmt.Println(string(b))
		}
		return
	}

	var outs [][]byte
	if *reuse != 0 {
		runReuse(d, slices.DeleteFunc(cases, func(c Case) bool { return c.Cfg["finding"] != nil }), *seed, *reuse, func(b []byte) { outs = append(outs, b) })
		writeTrace(*out, outs)
		return
	}
	outs = make([][]byte, len(cases))
	inProgress := map[int]struct{}{}
	var mu sync.Mutex
	limitMemory(func() []int {
		mu.Lock()
		defer mu.Unlock()
		var is []int
		for i := range inProgress {
			is = append(is, i+*lo)
		}
		return is
	})
	var wg sync.WaitGroup
	next := 0
	workers := min(8, runtime.NumCPU())
	if d.Serial {
		workers = 1
	}
	for range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(cases) {
					mu.Unlock()
					return
				}
				i := next
				next++
				inProgress[i] = struct{}{}
				mu.Unlock()
				b := marshalCase(runCase(d, cases[i]))
				mu.Lock()
				outs[i] = b
				delete(inProgress, i)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	ops := 0
	for i := range cases {
		ops += len(cases[i].Ops)
	}
	writeTrace(*out, outs)
	fmt.Printf("CASES %d OPS %d\n", len(cases), ops)
}

// limitMemory ends the process, telling the cases in progress, before memory runs out.
func limitMemory(inProgress func() []int) {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	go func() {
		for {
			metrics.Read(s)
			if s[0].Value.Uint64() > 10<<30 {
				fmt.Fprintf(os.Stderr, "fatal error: memory exhausted, cases %v\n", inProgress())
				os.Exit(2)
			}
			time.Sleep(20 * time.Millisecond)
		}
	}()
}

func writeTrace(name string, outs [][]byte) {
	f, err := os.Create(name)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	for _, b := range outs {
		w.Write(b)        //nolint:errcheck
		w.WriteByte('\n') //nolint:errcheck
	}
	w.Flush() //nolint:errcheck
	f.Close() //nolint:errcheck
}
