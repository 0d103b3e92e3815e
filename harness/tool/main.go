//go:build go1.22

// The checkers of the command-line tool, which is run as a process of its own on files in a scratch directory.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

var mp4tool = os.Getenv("MP4TOOL")

// run is one invocation of the tool.
type run struct {
	out  []byte
	errs string
	code int
}

// sandbox is a scratch directory that is removed after the execution.
type sandbox struct {
	x   *mc.X
	dir string
	key string
}

func newSandbox(x *mc.X, key string) *sandbox {
	d, err := os.MkdirTemp("", "tool")
	if err != nil {
		panic("mc: " + err.Error())
	}
	return &sandbox{x, d, key}
}

func (s *sandbox) close() { os.RemoveAll(s.dir) }

func (s *sandbox) path(name string) string { return filepath.Join(s.dir, name) }

func (s *sandbox) write(name string, data []byte) {
	if err := os.WriteFile(s.path(name), data, 0600); err != nil {
		panic("mc: " + err.Error())
	}
}

// read gives the content of a file, nil when it does not exist.
func (s *sandbox) read(name string) []byte {
	b, err := os.ReadFile(s.path(name))
	if errors.Is(err, os.ErrNotExist) {
		return nil
	}
	if err != nil {
		panic("mc: " + err.Error())
	}
	if b == nil {
		b = []byte{}
	}
	return b
}

const toolLimit = 60 * time.Second

func (s *sandbox) run(args ...string) run { return s.runOn(-1, nil, args...) }

// runOn runs the tool. When limit is not negative, no file can grow beyond that many bytes, as on a disk with so
// much room. The output goes to a file if one is given.
func (s *sandbox) runOn(limit int, stdout *os.File, args ...string) run {
	ctx, cancel := context.WithTimeout(context.Background(), toolLimit)
	defer cancel()
	cmd := exec.CommandContext(ctx, mp4tool, args...)
	if limit >= 0 {
		self, err := os.Executable()
		if err != nil {
			panic("mc: " + err.Error())
		}
		cmd = exec.CommandContext(ctx, self, append([]string{"-limit", strconv.Itoa(limit), mp4tool}, args...)...)
	}
	cmd.Dir = s.dir
	cmd.Env = []string{"GOMAXPROCS=1", "GOTRACEBACK=single"}
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if stdout != nil {
		cmd.Stdout = stdout
	}
	err := cmd.Run()
	r := run{out.Bytes(), errs.String(), 0}
	if ctx.Err() != nil {
		s.x.Fail(s.key+":hang", "mp4tool %s does not end", strings.Join(args, " "))
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			panic("mc: " + err.Error())
		}
		r.code = ee.ExitCode()
	}
	if s.x.Tracing() {
		s.x.Describe("mp4tool %s: exit %d, output %s %s", strings.Join(args, " "), r.code, clip(string(r.out)), clip(r.errs))
	}
	if strings.Contains(r.errs, "goroutine ") || r.code < 0 || r.code > 1 {
		s.x.Fail(s.key+":crash", "mp4tool %s: exit %d: %s", strings.Join(args, " "), r.code, clip(r.errs))
	}
	return r
}

// failed judges a run that must fail.
func (s *sandbox) failed(r run, why string) {
	if r.code == 0 {
		s.x.Fail(s.key+":accepted", "exit status 0 although %s", why)
	}
	if t := string(r.out) + r.errs; !strings.Contains(t, "rror") && !strings.Contains(t, "ail") {
		s.x.Fail(s.key+":silent", "no error message although %s", why)
	}
}

func clip(s string) string {
	if len(s) > 600 {
		return fmt.Sprintf("%q... (%d bytes)", s[:600], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func depth(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// typeName is how the tool writes a type.
func typeName(t string) string {
	for i := 0; i < 4; i++ {
		if c := t[i]; (c < 0x20 || c > 0x7e) && c != 0xa9 {
			return fmt.Sprintf("0x%x", t)
		}
	}
	return strings.ReplaceAll(t, "\xa9", "(c)")
}

// fileErr is what walking the whole file runs into; unspec tells that there is no opinion about it.
func fileErr(f *ref.File) (err error, unspec bool) {
	ref.Walk(f.Top, func(n *ref.Node) {
		if n.Unspecified() {
			unspec = true
		}
	})
	for _, n := range f.Top {
		if e := n.DeepErr(); e != nil {
			return e, unspec
		}
	}
	return f.Err, unspec
}

// limited is the process that runOn starts: it limits the size of files and becomes the tool.
func limited() {
	n, err := strconv.ParseUint(os.Args[2], 10, 63)
	if err == nil {
		signal.Ignore(syscall.SIGXFSZ)
		err = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
	}
	if err == nil {
		err = syscall.Exec(os.Args[3], os.Args[3:], os.Environ())
	}
	fmt.Fprintln(os.Stderr, "goroutine start:", err)
	os.Exit(3)
}

// outputs gives the files below a directory, or a file itself, with their content.
func (s *sandbox) outputs(name string) map[string]string {
	m := map[string]string{}
	filepath.Walk(s.path(name), func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				panic("mc: " + err.Error())
			}
			m[p[len(s.dir)+1:]] = string(b)
		}
		return nil
	})
	return m
}

// fullDisk runs the tool without room for all of its output: for every size that a file may grow to, and
// with every output file in turn replaced by one that takes nothing. Sizes that are not a multiple of step are
// skipped unless they are up to 40 bytes short of a file's.
func fullDisk(x *mc.X, key string, step int, in []byte, out string, args ...string) {
	s := newSandbox(x, key)
	defer s.close()
	s.write("in.mp4", in)
	fresh := func() {
		os.RemoveAll(s.path(out))
		if !strings.Contains(out, ".") {
			os.Mkdir(s.path(out), 0700)
		}
	}
	fresh()
	if r := s.run(args...); r.code != 0 {
		x.Fail(key+":error", "exit %d: %s", r.code, clip(string(r.out)+r.errs))
	}
	want := s.outputs(out)
	if len(want) == 0 {
		x.Fail(key+":nothing", "no output")
	}
	most := 0
	var names []string
	for n, c := range want {
		names = append(names, n)
		if len(c) > most {
			most = len(c)
		}
	}
	sort.Strings(names)
	fresh()
	if i := x.Choose(len(names)+1, "full file"); i > 0 {
		n := names[i-1]
		if len(want[n]) == 0 {
			x.Skip()
		}
		if _, err := os.Stat("/dev/full"); err != nil {
			x.Skip()
		}
		os.MkdirAll(filepath.Dir(s.path(n)), 0700)
		os.Symlink("/dev/full", s.path(n))
		s.failed(s.run(args...), "nothing can be written to "+n)
		return
	}
	if most > 30000 {
		panic("mc: too much output")
	}
	var rooms []int
	for i := 0; i <= most; i++ {
		ok := i%step == 0
		for _, c := range want {
			ok = ok || i <= len(c) && len(c) < i+40
		}
		if ok {
			rooms = append(rooms, i)
		}
	}
	room := rooms[x.Choose(len(rooms), "room")]
	x.Describe("files of at most %d bytes", room)
	r := s.runOn(room, nil, args...)
	x.State(in, strings.Join(args, " "), room)
	x.Outcome(r.code)
	if room < most {
		s.failed(r, fmt.Sprintf("files can have %d bytes, %d are needed", room, most))
		return
	}
	if r.code != 0 {
		x.Fail(key+":error", "exit %d with room for everything: %s", r.code, clip(string(r.out)+r.errs))
	}
	if got := s.outputs(out); !reflect.DeepEqual(got, want) {
		x.Fail(key+":wrong", "the output is another one when there is just enough room")
	}
}

// fullOutput runs the tool with its standard output going to a file that takes only part of it.
func fullOutput(x *mc.X, key string, in []byte, args ...string) {
	s := newSandbox(x, key)
	defer s.close()
	s.write("in.mp4", in)
	r := s.run(args...)
	if r.code != 0 {
		x.Fail(key+":error", "exit %d: %s", r.code, clip(string(r.out)+r.errs))
	}
	want := r.out
	if len(want) > 30000 {
		panic("mc: too much output")
	}
	room := x.Choose(len(want)+1, "room")
	x.Describe("room for %d bytes of the output", room)
	f, err := os.Create(s.path("stdout"))
	if err != nil {
		panic("mc: " + err.Error())
	}
	r = s.runOn(room, f, args...)
	f.Close()
	x.State(in, strings.Join(args, " "), room)
	x.Outcome(r.code)
	got := s.read("stdout")
	if room < len(want) {
		if r.code == 0 {
			x.Fail(key+":accepted", "exit status 0 although only %d of %d bytes could be written", len(got), len(want))
		}
		return
	}
	if r.code != 0 || !bytes.Equal(got, want) {
		x.Fail(key+":wrong", "with just enough room: exit %d, %s, expected %s", r.code, clip(string(got)), clip(string(want)))
	}
}

func main() {
	if len(os.Args) > 3 && os.Args[1] == "-limit" {
		limited()
	}
	if mp4tool == "" && len(os.Args) > 1 {
		fmt.Fprintln(os.Stderr, "MP4TOOL is not set")
		os.Exit(3)
	}
	mc.Main([]*mc.Check{
		{ID: "C24", Units: c24, Rule: "every forest of up to 3 (4) boxes over 15 kinds with every set of up to 2 dropped types; header forms two at a time; every type in every context with 8 values; every forest of fragment boxes with 9 decode times; sizes around the read blocks and beyond 4 GB; every single corrupted size or left-over in forests of 2 (3) boxes; the file the real tool writes compared byte by byte with the reference edit; bulky files (deep, wide or long); every set of a dozen types to drop, in three orders; a disk with room for every number of bytes less; fragments with decode time zero in both versions"},
		{ID: "C25", Units: c25, Rule: "every sequence of up to 4 (5) fragments over 12 sets of tracks and a foreign track; every pair of 24 ways to state durations times 5 timescales, with and without movie-wide defaults; every small arrangement of file-level and movie boxes; every unexpected box in every place; every cut and every corrupted size; every output file of the real tool compared byte by byte, playlists parsed and compared; up to 1025 fragments, media data boxes and boxes of the movie; media data of up to 4 MB; a disk with room for only so many bytes per file, and every output file unwritable"},
		{ID: "C26", Units: c26, Rule: "every forest of up to 3 (4) boxes over 15 kinds, every type in every context, 10 types with 19 sizes, header forms, a file beyond 4 GB, every corrupted size in forests of 2 (3) boxes; each with every option set or full display of each type; every line the real tool prints compared with the reference rendering; bulky files (deep, wide or long); every set of eleven types to show in full; every byte in every place of a type over 6 patterns; types that begin or end with a space"},
		{ID: "C27", Units: c27, Rule: "every forest of up to 3 (4) boxes over 17 kinds with every type requested, nested and repeated types with header forms, every type in every context, sizes around the read blocks, every corrupted size in forests of 2 (3) boxes; protection boxes of every version in forests of up to 3 (4) boxes, at 12 sizes, malformed, and behind 4 GB; the output of the real tool compared byte by byte; bulky files (deep, wide or long); up to 4097 protection boxes with up to 1000 key ids; an output that takes only so many bytes, each number; protection boxes that are equal or almost"},
		{ID: "C32", Units: c32, Rule: "movies with every field at boundary values two (three) departures at a time; every byte of the codec parameters; every sequence of up to 3 (4) video samples of 6 sorts; every list of up to 4 (5) sizes with 4 durations; every sequence of up to 2 fragments; every cut and corrupted size; both formats parsed and compared with the tables the file was built from; up to 70000 samples, 1025 tracks, 1025 fragments and 4097 brands; an output that takes only so many bytes, each number"},
	})
}
