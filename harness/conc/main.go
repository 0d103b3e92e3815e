//go:build go1.22

// The checker of C23: independent operations run concurrently under a controlled scheduler.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/abema/go-mp4/internal/zzverif/mc"
)

type request struct {
	Ops    []string
	Prefix []int16
	Want   []uint64 // hashes of the results obtained alone; empty: report the results
	Twice  bool
}

type response struct {
	// Arity has the number of alternatives of each decision, with the top bit set for switches
	Arity    []byte
	Switches int
	Results  []string
	Wrong    int // index of the operation with a wrong result, -1 = none
	Got      string
	Races    int
	Stolen   bool
	Diverged bool
	Log      string `json:"-"`
}

var opTable struct {
	sync.Once
	alpha []*op
	large []*op
	types []target
}

func tables() {
	opTable.Do(func() { opTable.alpha, opTable.large, opTable.types = alphabet(), largeOps(), targets() })
}

func opOf(id string) *op {
	tables()
	p := strings.Split(id, ":")
	n, _ := strconv.Atoi(p[1])
	if p[0] == "a" {
		return opTable.alpha[n]
	}
	if p[0] == "l" {
		return opTable.large[n]
	}
	k, _ := strconv.Atoi(p[2])
	v, _ := strconv.Atoi(p[3])
	return typeOp(opTable.types[n], kinds[k], v)
}

func handle(q *request) *response {
	var ops []*op
	for _, id := range q.Ops {
		ops = append(ops, opOf(id))
	}
	before := raceErrors()
	twice = q.Twice
	got := execute(ops, q.Prefix)
	a := &response{Wrong: -1, Switches: switches, Stolen: stolen, Diverged: diverged, Races: raceErrors() - before}
	for i := 0; i < nPoints; i++ {
		b := byte(arity[i])
		if isDev[i] {
			b |= 0x80
		}
		a.Arity = append(a.Arity, b)
	}
	if len(q.Want) == 0 {
		a.Results = got
	}
	for i, w := range q.Want {
		if hash(got[i]) != w {
			a.Wrong, a.Got = i, got[i]
			break
		}
	}
	return a
}

func hash(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// serve executes requests until the input ends.
func serve() {
	runtime.GOMAXPROCS(1)
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := json.NewEncoder(os.Stdout)
	for {
		var q request
		if in.Decode(&q) != nil {
			return
		}
		out.Encode(handle(&q))
	}
}

// ---- the side of the explorer

type server struct {
	cmd    *exec.Cmd
	in     *json.Encoder
	out    *json.Decoder
	stderr *bytes.Buffer
	close  func()
}

func startServer(bin string) *server {
	s := &server{cmd: exec.Command(bin), stderr: &bytes.Buffer{}}
	s.cmd.Env = append(os.Environ(), "MC_SERVE=1", "GORACE=exitcode=0 history_size=3 atexit_sleep_ms=0")
	s.cmd.Stderr = s.stderr
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic("mc: " + err.Error())
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic("mc: " + err.Error())
	}
	if err := s.cmd.Start(); err != nil {
		panic("mc: " + err.Error())
	}
	s.in, s.out = json.NewEncoder(w), json.NewDecoder(bufio.NewReader(r))
	s.close = func() { w.Close(); s.cmd.Wait() }
	return s
}

func (s *server) ask(q *request) (*response, error) {
	if err := s.in.Encode(q); err != nil {
		return nil, err
	}
	var a response
	if err := s.out.Decode(&a); err != nil {
		return nil, err
	}
	return &a, nil
}

var pool = make(chan *server, 64)

func self() string {
	b, err := os.Executable()
	if err != nil {
		panic("mc: " + err.Error())
	}
	return b
}

// warm asks a process that has executed operations before.
func warm(x *mc.X, q *request) *response {
	var s *server
	select {
	case s = <-pool:
	default:
		s = startServer(self())
	}
	a, err := s.ask(q)
	if err != nil {
		s.close()
		x.Fail("crash", "the process died: %s", tail(s.stderr.String()))
	}
	if a.Wrong >= 0 {
		s.close() // what went wrong may stay wrong
	} else {
		pool <- s
	}
	return a
}

// cold asks a fresh process.
func cold(x *mc.X, bin string, q *request) *response {
	s := startServer(bin)
	a, err := s.ask(q)
	s.close()
	if err != nil {
		if x == nil {
			return nil
		}
		x.Fail("crash", "the process died: %s", tail(s.stderr.String()))
	}
	a.Log = s.stderr.String()
	return a
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

var (
	soloMu sync.Mutex
	soloOf = map[string]string{}
)

// solo is what the operation obtains alone, in a fresh process.
func solo(x *mc.X, id string) string {
	soloMu.Lock()
	r, ok := soloOf[id]
	soloMu.Unlock()
	if ok {
		return r
	}
	r = cold(x, self(), &request{Ops: []string{id}}).Results[0]
	soloMu.Lock()
	soloOf[id] = r
	soloMu.Unlock()
	return r
}

func newRequest(x *mc.X, ids []string) *request {
	q := &request{Ops: ids}
	for _, id := range ids {
		q.Want = append(q.Want, hash(solo(x, id)))
	}
	return q
}

// points replays the scheduling decisions of the process as choices of the explorer.
func points(x *mc.X, a *response) {
	for _, n := range a.Arity {
		if n&0x80 != 0 {
			x.Dev(int(n&0x7f), "switch")
		} else {
			x.Choose(int(n), "next")
		}
	}
}

func judge(x *mc.X, q *request, a *response) {
	name := opOf(q.Ops[0]).name
	for _, id := range q.Ops[1:] {
		name += " || " + opOf(id).name
	}
	x.Describe("%s, %d switches", name, a.Switches)
	if a.Diverged {
		x.Skip()
	}
	if a.Races > 0 {
		x.Fail("race", "%s: %d data races\n%s", name, a.Races, tail(a.Log))
	}
	if a.Wrong >= 0 {
		want := solo(x, q.Ops[a.Wrong])
		at := 0
		for at < len(want) && at < len(a.Got) && want[at] == a.Got[at] {
			at++
		}
		from := at - 60
		if from < 0 {
			from = 0
		}
		x.Fail("result", "%s: %s obtained ...%s, alone ...%s", name, opOf(q.Ops[a.Wrong]).name, clip(a.Got[from:]), clip(want[from:]))
	}
	x.State(name, a.Arity, a.Switches)
	x.Outcome(name, a.Switches)
}

func clip(s string) string {
	if len(s) > 240 {
		return s[:240] + "..."
	}
	return s
}

// alphaIDs lists the operations, and those of them that are short.
func alphaIDs() (all, core []string) {
	tables()
	for i, o := range opTable.alpha {
		id := fmt.Sprintf("a:%d", i)
		all = append(all, id)
		if o.core {
			core = append(core, id)
		}
	}
	return
}

// combo picks k operations, in order.
func combo(x *mc.X, ids []string, k int) (out []string) {
	from := 0
	for i := 0; i < k; i++ {
		c := from + x.Choose(len(ids)-from, "op")
		out = append(out, ids[c])
		from = c
	}
	return
}

func c23(tier string) []*mc.Unit {
	tables()
	ids, core := alphaIDs()
	var large []string
	for i := range opTable.large {
		large = append(large, fmt.Sprintf("l:%d", i))
	}
	thorough := tier == "thorough"
	raceBin := os.Getenv("MC_RACEBIN")
	if raceBin == "" {
		fmt.Fprintln(os.Stderr, "MC_RACEBIN is not set")
		os.Exit(3)
	}
	var typePairs [][2]int
	for i := range kinds {
		for j := i; j < len(kinds); j++ {
			typePairs = append(typePairs, [2]int{i, j})
		}
	}
	pickTypes := func(x *mc.X) []string {
		t := x.Choose(len(opTable.types), "type")
		p := typePairs[x.Choose(len(typePairs), "kinds")]
		return []string{fmt.Sprintf("t:%d:%d:0", t, p[0]), fmt.Sprintf("t:%d:%d:1", t, p[1])}
	}
	// few gives the schedules of the race-detector pass: which of the two starts, and whether and
	// where the first one is interrupted
	few := func(x *mc.X, q *request) *response {
		n := 3
		if thorough {
			n = 6
		}
		// 0-1: uninterrupted; 2-3: half way; 4-5: at the first operation
		c := x.Choose(n, "schedule")
		first, at := int16(c%2), 1
		switch c / 2 {
		case 0:
			q.Prefix = []int16{first}
			return cold(x, raceBin, q)
		case 1:
			a := warm(x, &request{Ops: q.Ops, Want: q.Want, Prefix: []int16{first}, Twice: true})
			n := 0
			for _, d := range a.Arity {
				if d&0x80 != 0 {
					n++
				}
			}
			if n < 2 {
				x.Skip()
			}
			at = 1 + n/2
		}
		q.Prefix = make([]int16, at+1)
		q.Prefix[0], q.Prefix[at] = first, 1
		return cold(x, raceBin, q)
	}
	sched := func(name string, ids []string, k, bound int) *mc.Unit {
		return &mc.Unit{Name: name, Bound: bound, Deep: true, Body: func(x *mc.X) {
			q := newRequest(x, combo(x, ids, k))
			q.Prefix = x.Prefix()
			a := warm(x, q)
			points(x, a)
			judge(x, q, a)
		}}
	}
	us := []*mc.Unit{
		{Name: "race-pairs", NoMinimise: true, Body: func(x *mc.X) {
			q := newRequest(x, combo(x, ids, 2))
			q.Twice = true
			judge(x, q, few(x, q))
		}},
		{Name: "race-types", NoMinimise: true, Body: func(x *mc.X) {
			q := newRequest(x, pickTypes(x))
			q.Twice = true
			judge(x, q, few(x, q))
		}},
		{Name: "race-large", NoMinimise: true, Body: func(x *mc.X) {
			q := newRequest(x, combo(x, large, 2))
			q.Twice = true
			judge(x, q, few(x, q))
		}},
		{Name: "types", Bound: 1, Body: func(x *mc.X) {
			q := newRequest(x, pickTypes(x))
			q.Prefix = x.Prefix()
			a := warm(x, q)
			points(x, a)
			judge(x, q, a)
		}},
		sched("large-pairs", large, 2, depth(thorough, 1, 2)),
		sched("pairs", ids, 2, depth(thorough, 1, 2)),
		sched("core-pairs", core, 2, depth(thorough, 2, 3)),
		sched("triples", core, 3, depth(thorough, 1, 2)),
	}
	if thorough {
		us = append(us, &mc.Unit{Name: "cold-pairs", Bound: 1, Body: func(x *mc.X) {
			q := newRequest(x, combo(x, ids, 2))
			q.Prefix = x.Prefix()
			a := cold(x, self(), q)
			points(x, a)
			judge(x, q, a)
		}})
	}
	return us
}

func depth(thorough bool, a, b int) int {
	if thorough {
		return b
	}
	return a
}

func main() {
	if os.Getenv("MC_SERVE") != "" {
		serve()
		return
	}
	mc.Main([]*mc.Check{
		{ID: "C23", Units: c23, Rule: "every pair of 35 operations and every pair of decode, encode and render of every type in a fresh process under the race detector, uninterrupted in both orders and interrupted half way; every such pair with 1 switch anywhere (thorough: pairs of operations with 2), every pair of 20 short operations with 2 (3) switches, every triple with 1 (2); switches at every stream operation and callback; each result compared with the one obtained alone in a fresh process; the operations on large files in pairs; when the library itself has package-level state behind sync, sync/atomic or channels, also switches before its synchronising statements (found and instrumented at build time)"},
	})
}
