//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/abema/go-mp4/internal/zzverif/point"
)

func init() {
	point.Hook, point.Who = yield, inTurn
}

//go:norace
func inTurn() int {
	if stolen {
		return -1
	}
	return turn
}

// The controlled scheduler. Exactly one goroutine holds the turn; it gives it away only at a yield
// (an operation on its stream, or a call back into its own code) or when it finishes. The hand-over
// is a plain variable in functions the race detector does not see, so that it orders nothing: every
// pair of conflicting accesses of two goroutines stays a race, whatever the schedule.
// The process has a single P, so only the holder of the turn makes progress.

const maxPoints = 1 << 16

var (
	turn     int // -1: the controller
	running  [4]bool
	nThreads int
	progress uint64
	stolen   bool
	diverged bool

	prefix   [maxPoints]int16
	nPrefix  int
	arity    [maxPoints]int16
	isDev    [maxPoints]bool
	nPoints  int
	mute     bool // solo runs make no choices
	switches int
)

//go:norace
func decide(n int, dev bool) int {
	if mute || n < 2 {
		return 0
	}
	c := 0
	if nPoints >= maxPoints {
		return 0
	}
	if nPoints < nPrefix {
		c = int(prefix[nPoints])
		if c >= n {
			diverged = true
			c = 0
		}
	}
	arity[nPoints] = int16(n)
	isDev[nPoints] = dev
	nPoints++
	return c
}

// others lists the k-th runnable goroutine that is not me.
//
//go:norace
func other(me, k int) int {
	for i := 0; i < nThreads; i++ {
		if i == me || !running[i] {
			continue
		}
		if k == 0 {
			return i
		}
		k--
	}
	return -1
}

//go:norace
func countOthers(me int) int {
	n := 0
	for i := 0; i < nThreads; i++ {
		if i != me && running[i] {
			n++
		}
	}
	return n
}

//go:norace
func waitTurn(me int) {
	last := progress
	var since int64
	for k := 1; turn != me && !stolen; k++ {
		runtime.Gosched()
		if k&0x3ff == 0 && me >= 0 {
			// Nobody reaches a yield: the holder of the turn may be waiting for something a waiting
			// goroutine holds. From here on all of them run freely.
			now := now()
			if progress != last || since == 0 {
				last, since = progress, now
			} else if now-since > int64(2*time.Second) {
				stolen = true
				return
			}
		}
	}
}

//go:norace
func now() int64 { return time.Now().UnixNano() }

// yield is called by the holder of the turn.
//
//go:norace
func yield() {
	me := turn
	progress++
	if me < 0 || stolen {
		return
	}
	n := countOthers(me)
	if n == 0 {
		return
	}
	c := decide(n+1, true)
	if c == 0 {
		return
	}
	switches++
	turn = other(me, c-1)
	waitTurn(me)
}

//go:norace
func finish(me int) {
	progress++
	running[me] = false
	if stolen {
		return
	}
	n := countOthers(me)
	if n == 0 {
		turn = -1
		return
	}
	turn = other(me, decide(n, false))
}

//go:norace
func reset(n int, pre []int16) {
	nThreads = n
	for i := range running {
		running[i] = i < n
	}
	nPrefix = len(pre)
	for i, c := range pre {
		prefix[i] = c
	}
	nPoints, switches = 0, 0
	diverged, stolen = false, false
	turn = -1
	mute = n < 2
	point.Reset()
}

//go:norace
func setTurn(t int) { turn = t }

// execute runs the operations under the schedule given by the prefix (the default afterwards: the
// goroutine that holds the turn keeps it) and returns a description of what each of them obtained.
func execute(ops []*op, pre []int16) []string {
	reset(len(ops), pre)
	fs := make([]func() string, len(ops))
	var wg sync.WaitGroup
	for i := range ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			waitTurn(i)
			fs[i] = guarded(ops[i])
			finish(i)
		}(i)
	}
	setTurn(decide(len(ops), false))
	wg.Wait()
	setTurn(-1)
	n := len(ops)
	if n > 1 {
		// what the operations left behind must not show in those that come after them
		for _, o := range ops {
			fs = append(fs, once(o))
		}
	}
	out := make([]string, len(fs))
	for i, f := range fs {
		out[i] = f()
		if i >= n && out[i] != out[i-n] {
			out[i-n] = "afterwards: " + out[i]
		}
	}
	return out[:n]
}

var twice bool

// guarded performs the operation, twice in a row if asked to.
func guarded(o *op) func() string {
	a := once(o)
	if !twice {
		return a
	}
	b := once(o)
	return func() string {
		if r := a(); r != b() {
			return "the second time: " + b() + " the first time: " + r
		} else {
			return r
		}
	}
}

func once(o *op) (f func() string) {
	defer func() {
		if r := recover(); r != nil {
			f = func() string { return fmt.Sprintf("panic: %v", r) }
		}
	}()
	return o.run()
}
