//go:build go1.22

package mc

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check decides one property.
type Check struct {
	ID          string
	Units       func(tier string) []*Unit
	Assumptions []string
	// Rule says in words what is enumerated.
	Rule string
}

type runReport struct {
	Results []*Result
}

// Main is the entry point of a check binary.
func Main(checks []*Check) {
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	id := fs.String("p", "", "property id")
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "quick|thorough")
	root := fs.String("root", "/verif", "where evidence/ and known_findings.txt are")
	child := fs.String("child", "", "internal: report file")
	slotsPath := fs.String("slots", "", "internal")
	replay := fs.String("replay", "", "replay a counterexample file")
	only := fs.String("unit", "", "only units whose name has this prefix")
	budget := fs.Float64("budget", 0, "seconds (0 = by tier)")
	workers := fs.Int("workers", 0, "override the number of workers")
	list := fs.Bool("list", false, "list checks")
	fs.Parse(os.Args[1:])
	if *list {
		for _, c := range checks {
			fmt.Println(c.ID)
		}
		return
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	var chk *Check
	for _, c := range checks {
		if c.ID == *id {
			chk = c
		}
	}
	if chk == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(3)
	}
	if *replay != "" {
		os.Exit(doReplay(chk, *replay))
	}
	b := *budget
	if b == 0 {
		if *tier == "thorough" {
			b = 600
		} else {
			b = 300
		}
		if s := os.Getenv("MC_BUDGET"); s != "" {
			if v, err := strconv.ParseFloat(s, 64); err == nil {
				b = v
			}
		}
	}
	if *child != "" {
		runChild(chk, *tier, *root, *child, *slotsPath, *only, b, *workers)
		return
	}
	os.Exit(supervise(chk, *tier, *root, *only, b, *workers))
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func loadKnown(root, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		k := rest
		what := ""
		if i := strings.IndexByte(rest, ' '); i >= 0 {
			k, what = rest[:i], rest[i+1:]
		}
		m[k] = what
	}
	return m
}

func runChild(chk *Check, tier, root, report, slotsPath, only string, budget float64, workers int) {
	slots, err := openSlots(slotsPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, "slots:", err)
		os.Exit(3)
	}
	if p := os.Getenv("MC_CPUPROFILE"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	known := loadKnown(root, chk.ID)
	units := chk.Units(tier)
	end := time.Now().Add(time.Duration(budget * float64(time.Second)))
	var rep runReport
	var total float64
	sel := units[:0]
	for _, u := range units {
		if only != "" && !strings.HasPrefix(u.Name, only) {
			continue
		}
		if u.Weight == 0 {
			u.Weight = 1
		}
		total += u.Weight
		sel = append(sel, u)
	}
	for _, u := range sel {
		if workers > 0 && !u.Serial {
			u.Workers = workers
		}
		left := time.Until(end).Seconds()
		// a unit may use its share of what is left; what it does not use goes to the others
		share := left * u.Weight / total
		if share < 0.5 {
			share = 0.5
		}
		total -= u.Weight
		r := Explore(u, time.Now().Add(time.Duration(share*float64(time.Second))), func(k string) bool { _, ok := known[k]; return ok }, slots)
		rep.Results = append(rep.Results, r)
		fmt.Fprintf(os.Stderr, "%s %-34s exec=%d skipped=%d states=%d trans=%d outcomes=%d depth=%d bound=%d/%d exhaustive=%v %.1fs\n",
			chk.ID, u.Name, r.Executions, r.Skipped, r.States, r.Transitions, r.Outcomes, r.MaxDepth, r.DoneBound, r.Bound, r.Exhaustive, r.Wall)
		for _, s := range r.Unrepro {
			fmt.Fprintln(os.Stderr, "NOT REPRODUCIBLE (ignored):", s)
		}
		if len(r.Violations) > 0 {
			break
		}
	}
	b, _ := json.Marshal(rep)
	if err := os.WriteFile(report, b, 0600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func supervise(chk *Check, tier, root, only string, budget float64, workers int) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "mcrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	report := filepath.Join(dir, "report.json")
	slotsPath := filepath.Join(dir, "slots")
	args := []string{"-p", chk.ID, "-tier", tier, "-root", root, "-child", report, "-slots", slotsPath,
		"-budget", fmt.Sprint(budget), "-workers", strconv.Itoa(workers)}
	if only != "" {
		args = append(args, "-unit", only)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, args...)
	cmd.Stdout = os.Stderr
	tail := &tailWriter{}
	cmd.Stderr = io.MultiWriter(os.Stderr, tail)
	cmd.Env = append(os.Environ(), "TMPDIR="+dir)
	err = cmd.Run()
	var ran *exec.ExitError
	if errors.As(err, &ran) && ran.ExitCode() != 3 && fatalKind(slotsPath) == "memory" {
		// Several executions shared the heap: run them one at a time and measure each.
		fmt.Fprintln(os.Stderr, "out of memory; running one execution at a time")
		left := budget - time.Since(t0).Seconds()
		if left < 60 {
			left = 60
		}
		os.Remove(slotsPath + ".fatal")
		args = append(args, "-workers", "1", "-budget", fmt.Sprint(left))
		cmd = exec.Command(self, args...)
		cmd.Stdout = os.Stderr
		cmd.Stderr = io.MultiWriter(os.Stderr, tail)
		cmd.Env = append(os.Environ(), "TMPDIR="+dir, "MC_MEASURE=1")
		err = cmd.Run()
	}
	var rep runReport
	known := loadKnown(root, chk.ID)
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) && ee.ExitCode() == 3 {
			return 3
		}
		// The process died or was stopped: find the execution that does it.
		fmt.Fprintln(os.Stderr, "check process ended abnormally:", err)
		f := attribute(self, chk, tier, slotsPath, dir, tail.String())
		if f == nil {
			fmt.Fprintln(os.Stderr, "no in-flight execution reproduces the crash; not judged")
			rep.Results = append(rep.Results, &Result{Unit: "crashed", Exhaustive: false})
		} else if _, ok := known[f.Key]; ok {
			rep.Results = append(rep.Results, &Result{Unit: f.Unit, Exhaustive: false, Known: []*Found{f}})
		} else {
			rep.Results = append(rep.Results, &Result{Unit: f.Unit, Executions: 1, States: 1, Transitions: 1, Violations: []*Found{f}})
		}
	} else {
		b, err := os.ReadFile(report)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		if err := json.Unmarshal(b, &rep); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	return finish(chk, tier, root, &rep, known, time.Since(t0).Seconds())
}

type tailWriter struct{ b []byte }

func (t *tailWriter) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = t.b[len(t.b)-(1<<15):]
	}
	return len(p), nil
}
func (t *tailWriter) String() string { return string(t.b) }

// attribute re-runs each execution that was in flight, alone and three times, and
// returns the one that ends the process again.
func fatalKind(slotsPath string) string {
	var fr fatalRecord
	if b, err := os.ReadFile(slotsPath + ".fatal"); err == nil {
		json.Unmarshal(b, &fr)
	}
	return fr.Kind
}

func attribute(self string, chk *Check, tier, slotsPath, dir, stderrTail string) *Found {
	s, err := openSlots(slotsPath)
	if err != nil || s == nil {
		return nil
	}
	kind := "crash"
	cands := s.read()
	if b, err := os.ReadFile(slotsPath + ".fatal"); err == nil {
		var fr fatalRecord
		if json.Unmarshal(b, &fr) == nil {
			kind = fr.Kind
			if fr.Worker >= 0 {
				cands = append([]inflight{{fr.Unit, fr.Choices}}, cands...)
			}
		}
	}
	for _, c := range cands {
		f := filepath.Join(dir, "cand.json")
		rf := replayFile{Property: chk.ID, Tier: tier, Unit: c.Unit, Choices: c.Choices}
		b, _ := json.Marshal(rf)
		os.WriteFile(f, b, 0600)
		fails := 0
		var last string
		for i := 0; i < 2; i++ {
			cmd := exec.Command(self, "-p", chk.ID, "-replay", f)
			cmd.Env = append(os.Environ(), "MC_REPLAY_GUARD=1")
			t := &tailWriter{}
			cmd.Stdout, cmd.Stderr = t, t
			if err := cmd.Start(); err != nil {
				return nil
			}
			ch := make(chan error, 1)
			go func() { ch <- cmd.Wait() }()
			select {
			case err := <-ch:
				var ee *exec.ExitError
				if errors.As(err, &ee) && ee.ExitCode() != 0 {
					fails++
					last = t.String()
				}
			case <-time.After(60 * time.Second):
				cmd.Process.Kill()
				<-ch
				fails++
				last = "no termination within 60 s"
			}
			if fails == 0 {
				break
			}
		}
		if fails == 2 {
			if len(last) > 4000 {
				last = last[:4000]
			}
			return &Found{Unit: c.Unit, Choices: c.Choices, Key: kind, Msg: kind + ": " + last}
		}
	}
	return nil
}

type replayFile struct {
	Property string
	Tier     string
	Unit     string
	Choices  []int16
	Key      string
	Message  string
	Steps    []string
	Trace    []string
	Stack    string `json:",omitempty"`
	HowTo    string
}

func finish(chk *Check, tier, root string, rep *runReport, known map[string]string, wall float64) int {
	evDir := filepath.Join(root, "evidence")
	os.MkdirAll(evDir, 0755)
	var viol *Found
	cov := map[string]interface{}{}
	var states, trans, execs, outcomes int64
	exhaustive := len(rep.Results) > 0
	var samples []string
	var units []map[string]interface{}
	knownSeen := map[string]*Found{}
	for _, r := range rep.Results {
		states += r.States
		trans += r.Transitions
		execs += r.Executions
		outcomes += int64(r.Outcomes)
		exhaustive = exhaustive && r.Exhaustive
		if len(samples) < 12 {
			samples = append(samples, r.Samples...)
		}
		units = append(units, map[string]interface{}{"unit": r.Unit, "executions": r.Executions, "not_a_case": r.Skipped,
			"states": r.States, "transitions": r.Transitions, "distinct_outcomes": r.Outcomes, "max_choices": r.MaxDepth,
			"deviation_bound": r.Bound, "deviations_completed": r.DoneBound, "exhaustive": r.Exhaustive, "wall_s": r.Wall,
			"unreproducible": len(r.Unrepro)})
		if len(r.Violations) > 0 && viol == nil {
			viol = r.Violations[0]
		}
		for _, k := range r.Known {
			knownSeen[k.Key] = k
		}
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = execs
	cov["distinct_outcomes"] = outcomes
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive
	cov["units"] = units
	cov["rule"] = chk.Rule
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	nv := 0
	if viol != nil {
		nv = 1
	}
	ev := map[string]interface{}{"property": chk.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": wall, "violations": nv, "assumptions": chk.Assumptions}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, chk.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var ks []string
	for k := range knownSeen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", chk.ID, known[k], k)
	}
	if viol != nil {
		path := filepath.Join(evDir, chk.ID+".replay.json")
		rf := replayFile{Property: chk.ID, Tier: tier, Unit: viol.Unit, Choices: viol.Choices, Key: viol.Key, Message: viol.Msg,
			Steps: viol.Desc, Trace: viol.Trace, Stack: viol.Stack,
			HowTo: "cd /verif && ./check.sh " + chk.ID + " -replay " + path}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Fprintf(os.Stderr, "violation in unit %s: [%s] %s\n", viol.Unit, viol.Key, viol.Msg)
		for _, d := range viol.Desc {
			fmt.Fprintln(os.Stderr, "  ", d)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, path)
		return 1
	}
	fmt.Printf("OK property=%s tier=%s executions=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n", chk.ID, tier, execs, states, trans, exhaustive, wall)
	return 0
}

func doReplay(chk *Check, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	MeasureAllocs = true
	if os.Getenv("MC_REPLAY_GUARD") != "" {
		HeapLimit = 3 << 30
		e := &engine{unit: &Unit{Name: "replay"}}
		go e.watch(nil, make(chan struct{}))
	}
	for _, u := range chk.Units(rf.Tier) {
		if u.Name != rf.Unit {
			continue
		}
		trace, desc, f := Replay(u, rf.Choices)
		for _, t := range trace {
			fmt.Println("choice", t)
		}
		for _, d := range desc {
			fmt.Println("  ", d)
		}
		if f != nil {
			fmt.Printf("VIOLATED [%s] %s\n%s\n", f.Key, f.Msg, f.Stack)
			return 1
		}
		fmt.Println("HELD")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no unit", rf.Unit)
	return 3
}
