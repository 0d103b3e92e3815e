//go:build go1.22

// Package mc is a small stateless model checker: it enumerates, by replaying
// choice prefixes, every execution of a harness body within a bound on the
// number of deviations from the default answers.
package mc

import (
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// X is one execution. Every source of nondeterminism of a harness goes through it.
type X struct {
	prefix  []int16
	choices []int16
	arity   []int16
	isDev   []bool
	labels  []string
	trace   bool
	cost    int
	w       *worker
	viol    *Violation
	outcome uint64
	steps   int
	desc    []string
	Scratch map[string]interface{}
}

// Violation is raised with X.Fail.
type Violation struct {
	Key string
	Msg string
}

type failPanic struct{ v *Violation }
type skipPanic struct{}

func (x *X) choose(n int, dev bool, label string) int {
	if n > 32767 {
		panic("mc: too many alternatives: " + label)
	}
	if n <= 0 {
		panic(fmt.Sprintf("mc: choice with %d alternatives (%s)", n, label))
	}
	i := len(x.choices)
	c := 0
	if i < len(x.prefix) {
		c = int(x.prefix[i])
		if c >= n {
			panic(fmt.Sprintf("mc: replay diverged at choice %d (%s): %d of %d", i, label, c, n))
		}
	}
	x.choices = append(x.choices, int16(c))
	x.arity = append(x.arity, int16(n))
	x.isDev = append(x.isDev, dev)
	if x.trace {
		x.labels = append(x.labels, fmt.Sprintf("%s=%d/%d", label, c, n))
	}
	if dev && c != 0 {
		x.cost++
	}
	return c
}

// Choose makes a free choice: all n alternatives are explored.
func (x *X) Choose(n int, label string) int { return x.choose(n, false, label) }

// Dev makes a deviation point: alternative 0 is the default, every other
// alternative costs one unit of the deviation bound.
func (x *X) Dev(n int, label string) int { return x.choose(n, true, label) }

// Prefix is the rest of the choices that are fixed in advance for this execution; choices after them are 0.
func (x *X) Prefix() []int16 {
	if len(x.choices) >= len(x.prefix) {
		return nil
	}
	return x.prefix[len(x.choices):]
}

// Cost is the number of deviations taken so far.
func (x *X) Cost() int { return x.cost }

// Fail reports a violation of the property and ends the execution.
func (x *X) Fail(key, format string, args ...interface{}) {
	panic(failPanic{&Violation{key, fmt.Sprintf(format, args...)}})
}

// Skip ends the execution without judging it (the choices made no case).
func (x *X) Skip() { panic(skipPanic{}) }

// State records a visited state of the explored system.
func (x *X) State(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xff, 0x00})
	}
	x.w.eng.visit(h.Sum64())
}

// StateHash records a state by its hash.
func (x *X) StateHash(h uint64) { x.w.eng.visit(h) }

// Outcome records what was observed (to show that the exploration is not vacuous).
func (x *X) Outcome(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	x.outcome = x.outcome*1099511628211 + h.Sum64()*31 + 7
}

// Describe adds a human-readable line to the counterexample.
func (x *X) Describe(format string, args ...interface{}) {
	if x.trace {
		x.desc = append(x.desc, fmt.Sprintf(format, args...))
	}
}

// Tracing reports whether descriptions are being collected.
func (x *X) Tracing() bool { return x.trace }

// Step counts one unit of work of the code under test; more than limit means it does not terminate.
func (x *X) Step(limit int, what string) {
	x.steps++
	if x.steps > limit {
		x.Fail("nontermination:"+what, "no termination within %d steps (%s)", limit, what)
	}
}

// Unit is one explored space.
type Unit struct {
	Name    string
	Bound   int // deviation bound
	Workers int // 0 = all cores
	Serial  bool
	// MaxExec caps the executions (0 = none); hitting it makes the run non-exhaustive.
	MaxExec int64
	Body    func(x *X)
	// Setup is run once before the unit.
	Setup func()
	// NoMinimise keeps the counterexample as found.
	NoMinimise bool
	// Deep explores the executions with most deviations first, which keeps few prefixes in memory.
	Deep bool
	// Weight is the share of the remaining time this unit may use (default 1).
	Weight float64
}

type item struct {
	prefix []int16
}

// Result is what exploring one unit covered.
type Result struct {
	Unit        string
	Executions  int64
	Skipped     int64
	Transitions int64
	States      int64
	Outcomes    int
	Bound       int
	DoneBound   int // deviations completely covered (-1 = not even 0)
	Exhaustive  bool
	Wall        float64
	Samples     []string
	Violations  []*Found
	Known       []*Found
	Unrepro     []string
	MaxDepth    int
}

// Found is a violation with the choices that lead to it.
type Found struct {
	Unit    string
	Choices []int16
	Key     string
	Msg     string
	Trace   []string
	Desc    []string
	Stack   string
}

type engine struct {
	unit     *Unit
	known    func(key string) bool
	deadline time.Time
	slots    *slotFile

	mu      sync.Mutex
	cond    *sync.Cond
	stacks  [][]item
	pending []int64 // per cost: queued + running
	idle    int
	stop    bool
	timeout bool

	execs, skipped, trans int64
	maxDepth              int64

	shards [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	nstates  int64
	outMu    sync.Mutex
	outcomes map[uint64]struct{}
	found    []*Found
	knownF   map[string]*Found
	unrepro  []string
	samples  []string
	doneCost int
}

type worker struct {
	id    int
	eng   *engine
	start int64 // unix nano of the running execution, 0 when idle
	cur   []int16
	curMu sync.Mutex
}

const maxStates = 30_000_000

func (e *engine) visit(h uint64) {
	s := &e.shards[h%64]
	s.mu.Lock()
	if _, ok := s.m[h]; !ok {
		if atomic.LoadInt64(&e.nstates) < maxStates {
			s.m[h] = struct{}{}
			atomic.AddInt64(&e.nstates, 1)
		}
	}
	s.mu.Unlock()
}

func (e *engine) next(w *worker) (item, int, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return item{}, 0, false
		}
		for i := range e.stacks {
			c := i
			if e.unit.Deep {
				c = len(e.stacks) - 1 - i
			}
			if n := len(e.stacks[c]); n > 0 {
				it := e.stacks[c][n-1]
				e.stacks[c] = e.stacks[c][:n-1]
				return it, c, true
			}
		}
		total := int64(0)
		for _, p := range e.pending {
			total += p
		}
		if total == 0 {
			e.stop = true
			e.cond.Broadcast()
			return item{}, 0, false
		}
		e.cond.Wait()
	}
}

// runOne executes the body once with the given prefix.
func (e *engine) runOne(w *worker, prefix []int16, trace bool) (x *X, f *Found, skipped bool) {
	x = &X{prefix: prefix, w: w, trace: trace}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch p := r.(type) {
		case failPanic:
			f = &Found{Key: p.v.Key, Msg: p.v.Msg}
		case skipPanic:
			skipped = true
			return
		default:
			msg := fmt.Sprint(r)
			if strings.HasPrefix(msg, "mc: ") {
				fmt.Fprintf(os.Stderr, "ENGINE ERROR in unit %s prefix %v: %s\n", e.unit.Name, prefix, msg)
				os.Exit(3)
			}
			f = &Found{Key: "panic:" + panicSite(), Msg: "panic: " + msg, Stack: string(debug.Stack())}
		}
		f.Unit = e.unit.Name
		f.Choices = append([]int16{}, x.choices...)
		f.Trace = x.labels
		f.Desc = x.desc
	}()
	if !MeasureAllocs {
		e.unit.Body(x)
		return
	}
	before := allocated()
	e.unit.Body(x)
	if used := allocated() - before; used > AllocLimit {
		x.Fail("memory", "one execution allocated %d bytes", used)
	}
	return
}

// MeasureAllocs makes an execution that allocates more than AllocLimit count as a violation.
// It needs a single worker and is used to find out which execution exhausts the memory.
var MeasureAllocs = os.Getenv("MC_MEASURE") != ""

const AllocLimit = 512 << 20

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// panicSite finds the innermost function of the code under test on the panicking stack.
func panicSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	seen := false
	for {
		f, more := fr.Next()
		if f.Function == "runtime.gopanic" || strings.HasPrefix(f.Function, "runtime.panic") || f.Function == "runtime.goPanicIndex" {
			seen = true
		} else if seen && strings.HasPrefix(f.Function, "github.com/abema/go-mp4") && !strings.Contains(f.Function, "zzverif") {
			return f.Function
		} else if seen && strings.Contains(f.Function, "zzverif") {
			return "harness:" + f.Function
		}
		if !more {
			return "unknown"
		}
	}
}

func (e *engine) run(w *worker) {
	for {
		it, cost, ok := e.next(w)
		if !ok {
			return
		}
		if !e.deadline.IsZero() && time.Now().After(e.deadline) {
			e.mu.Lock()
			e.stop, e.timeout = true, true
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		w.curMu.Lock()
		w.cur = it.prefix
		w.curMu.Unlock()
		atomic.StoreInt64(&w.start, time.Now().UnixNano())
		e.slots.set(w.id, e.unit.Name, it.prefix)
		x, f, skipped := e.runOne(w, it.prefix, false)
		atomic.StoreInt64(&w.start, 0)
		e.slots.clear(w.id)

		if skipped {
			atomic.AddInt64(&e.skipped, 1)
		} else {
			atomic.AddInt64(&e.execs, 1)
		}
		newEdges := len(x.choices) - len(it.prefix) + 1
		atomic.AddInt64(&e.trans, int64(newEdges))
		for {
			d := atomic.LoadInt64(&e.maxDepth)
			if int64(len(x.choices)) <= d || atomic.CompareAndSwapInt64(&e.maxDepth, d, int64(len(x.choices))) {
				break
			}
		}
		if x.outcome != 0 {
			e.outMu.Lock()
			if len(e.outcomes) < 5_000_000 {
				e.outcomes[x.outcome] = struct{}{}
			}
			e.outMu.Unlock()
		}
		// Every distinct choice sequence is a distinct leaf of the execution tree.
		if f != nil {
			e.report(w, f)
		}
		// children
		var kids [][]item
		if len(x.choices) > len(it.prefix) {
			kids = make([][]item, e.unit.Bound+1)
			c := 0
			for i := 0; i < len(it.prefix); i++ {
				if x.isDev[i] && x.choices[i] != 0 {
					c++
				}
			}
			for i := len(it.prefix); i < len(x.choices); i++ {
				cc := c
				if x.isDev[i] {
					cc++
				}
				if cc <= e.unit.Bound {
					for alt := x.arity[i] - 1; alt >= 1; alt-- {
						p := make([]int16, i+1)
						copy(p, x.choices[:i])
						p[i] = alt
						kids[cc] = append(kids[cc], item{p})
					}
				}
				// choices beyond the prefix are all 0, so c does not grow
			}
		}
		e.mu.Lock()
		for cc, ks := range kids {
			// simplest first: the stack is popped from the end
			for j := len(ks) - 1; j >= 0; j-- {
				e.stacks[cc] = append(e.stacks[cc], ks[j])
			}
			e.pending[cc] += int64(len(ks))
		}
		e.pending[cost]--
		for e.doneCost <= e.unit.Bound && e.pending[e.doneCost] == 0 {
			e.doneCost++
		}
		if e.unit.MaxExec > 0 && atomic.LoadInt64(&e.execs) >= e.unit.MaxExec {
			e.stop, e.timeout = true, true
		}
		e.cond.Broadcast()
		e.mu.Unlock()
	}
}

func (e *engine) report(w *worker, f *Found) {
	e.mu.Lock()
	if e.known(f.Key) {
		if _, ok := e.knownF[f.Key]; !ok {
			e.knownF[f.Key] = f
		}
		e.mu.Unlock()
		return
	}
	if len(e.found) > 0 {
		e.mu.Unlock()
		return
	}
	e.mu.Unlock()
	// confirm: the same choices must fail the same way every time
	for i := 0; i < 5; i++ {
		_, g, _ := e.runOne(w, f.Choices, false)
		if g == nil || g.Key != f.Key {
			e.mu.Lock()
			if len(e.unrepro) < 20 {
				e.unrepro = append(e.unrepro, f.Key+": "+f.Msg)
			}
			e.mu.Unlock()
			return
		}
	}
	if !e.unit.NoMinimise {
		f = e.minimise(w, f)
	}
	_, g, _ := e.runOne(w, f.Choices, true)
	if g != nil {
		f = g
	}
	e.mu.Lock()
	if len(e.found) == 0 {
		e.found = append(e.found, f)
	}
	e.stop = true
	e.cond.Broadcast()
	e.mu.Unlock()
}

// minimise greedily replaces choices by 0 and shortens the sequence.
func (e *engine) minimise(w *worker, f *Found) *Found {
	end := time.Now().Add(5 * time.Second)
	best := f
	try := func(c []int16) bool {
		ok := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					ok = false
				}
			}()
			_, g, _ := e.runTolerant(w, c)
			if g != nil && g.Key == best.Key {
				best = g
				ok = true
			}
		}()
		return ok
	}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for i := len(best.Choices) - 1; i >= 0 && time.Now().Before(end); i-- {
			if i >= len(best.Choices) || best.Choices[i] == 0 {
				continue
			}
			c := append([]int16{}, best.Choices...)
			c[i] = 0
			if try(c) {
				changed = true
				continue
			}
			c = append([]int16{}, best.Choices[:i]...)
			if try(c) {
				changed = true
			}
		}
	}
	return best
}

type divergePanic struct{}

// runTolerant is runOne for candidate prefixes that may not be executable.
func (e *engine) runTolerant(w *worker, c []int16) (x *X, f *Found, skipped bool) {
	x = &X{prefix: c, w: w}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch p := r.(type) {
		case failPanic:
			f = &Found{Key: p.v.Key, Msg: p.v.Msg}
		case skipPanic:
			skipped = true
			return
		default:
			msg := fmt.Sprint(r)
			if strings.HasPrefix(msg, "mc: ") {
				skipped = true
				return
			}
			f = &Found{Key: "panic:" + panicSite(), Msg: "panic: " + msg, Stack: string(debug.Stack())}
		}
		f.Unit = e.unit.Name
		f.Choices = append([]int16{}, x.choices...)
	}()
	e.unit.Body(x)
	return
}

// HangLimit is how long one execution may run before it counts as not terminating.
// Executions take microseconds to milliseconds.
var HangLimit = 90 * time.Second

// HeapLimit is how much live+garbage heap the process may hold; harness bodies need a few hundred MB at most.
var HeapLimit = uint64(10 << 30)

func (e *engine) watch(ws []*worker, done chan struct{}) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	t := time.NewTicker(100 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case <-done:
			return
		case <-t.C:
		}
		now := time.Now().UnixNano()
		for _, w := range ws {
			s := atomic.LoadInt64(&w.start)
			if s != 0 && time.Duration(now-s) > HangLimit {
				w.curMu.Lock()
				c := append([]int16{}, w.cur...)
				w.curMu.Unlock()
				e.slots.fatal("hang", w.id, e.unit.Name, c)
			}
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > HeapLimit {
			e.slots.fatal("memory", -1, e.unit.Name, nil)
		}
	}
}

// Explore enumerates all executions of the unit within its bound.
func Explore(u *Unit, deadline time.Time, known func(string) bool, slots *slotFile) *Result {
	t0 := time.Now()
	if u.Setup != nil {
		u.Setup()
	}
	e := &engine{unit: u, known: known, deadline: deadline, slots: slots,
		stacks: make([][]item, u.Bound+1), pending: make([]int64, u.Bound+1),
		outcomes: map[uint64]struct{}{}, knownF: map[string]*Found{}}
	e.cond = sync.NewCond(&e.mu)
	for i := range e.shards {
		e.shards[i].m = map[uint64]struct{}{}
	}
	e.stacks[0] = append(e.stacks[0], item{})
	e.pending[0] = 1
	n := u.Workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	if u.Serial {
		n = 1
	}
	ws := make([]*worker, n)
	done := make(chan struct{})
	var wg sync.WaitGroup
	for i := range ws {
		ws[i] = &worker{id: i, eng: e}
	}
	go e.watch(ws, done)
	for i := range ws {
		wg.Add(1)
		go func(w *worker) { defer wg.Done(); e.run(w) }(ws[i])
	}
	wg.Wait()
	close(done)
	r := &Result{Unit: u.Name, Executions: e.execs, Skipped: e.skipped, Transitions: e.trans,
		States: e.nstates, Outcomes: len(e.outcomes), Bound: u.Bound, DoneBound: e.doneCost - 1,
		Exhaustive: !e.timeout && len(e.found) == 0, Wall: time.Since(t0).Seconds(), Violations: e.found,
		Unrepro: e.unrepro, MaxDepth: int(e.maxDepth)}
	if !e.timeout && len(e.found) == 0 {
		r.DoneBound = u.Bound
	}
	if r.DoneBound > u.Bound {
		r.DoneBound = u.Bound
	}
	keys := make([]string, 0)
	for k := range e.knownF {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r.Known = append(r.Known, e.knownF[k])
	}
	// one written-out sample: the default execution
	x, _, _ := e.runOne(ws[0], nil, true)
	r.Samples = append(r.Samples, sampleLine(u.Name, x))
	return r
}

func sampleLine(unit string, x *X) string {
	d := strings.Join(x.desc, "; ")
	if len(d) > 400 {
		d = d[:400] + "..."
	}
	l := strings.Join(x.labels, " ")
	if len(l) > 300 {
		l = l[:300] + "..."
	}
	return fmt.Sprintf("[%s] %s :: %s", unit, l, d)
}

// Replay runs one recorded execution with tracing.
func Replay(u *Unit, choices []int16) (trace, desc []string, f *Found) {
	if u.Setup != nil {
		u.Setup()
	}
	e := &engine{unit: u, outcomes: map[uint64]struct{}{}, knownF: map[string]*Found{}, known: func(string) bool { return false }}
	for i := range e.shards {
		e.shards[i].m = map[uint64]struct{}{}
	}
	w := &worker{eng: e}
	x, f, _ := e.runOne(w, choices, true)
	return x.labels, x.desc, f
}

// Inf is a convenience for "no bound".
const Inf = math.MaxInt32
