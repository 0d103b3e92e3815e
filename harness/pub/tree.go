//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/abema/go-mp4"
	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

func pathOf(p mp4.BoxPath) string {
	s := ""
	for _, t := range p {
		s += "/" + string(t[:])
	}
	return s
}

func samePath(p mp4.BoxPath, q []string) bool {
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if string(p[i][:]) != q[i] {
			return false
		}
	}
	return true
}

func toPath(p []string) mp4.BoxPath {
	var out mp4.BoxPath
	for _, t := range p {
		out = append(out, btype(t))
	}
	return out
}

// checkInfo compares a box description with the reference; "" means equal.
func checkInfo(bi *mp4.BoxInfo, n *ref.Node) string {
	want := mp4.BoxInfo{Offset: n.Off, Size: n.Size, HeaderSize: n.Hdr, Type: btype(n.Type), ExtendToEOF: n.EOF, Context: toCtx(n.Ctx)}
	if *bi != want {
		return fmt.Sprintf("described as %+v, is %+v", *bi, want)
	}
	return ""
}

// ---- monitored walks

type frame struct {
	nodes  []*ref.Node
	idx    int
	params []interface{}
	vals   []interface{}
	failed error           // error returned by a handler below
	h      *mp4.ReadHandle // of the box that is expanded, if any
	n      *ref.Node
}

type keptHandle struct {
	h *mp4.ReadHandle
	n *ref.Node
}

type keptPath struct {
	got  mp4.BoxPath
	want []string
}

type walker struct {
	x      *mc.X
	f      *ref.File
	r      io.ReadSeeker
	stack  []*frame
	token  int
	visits int
	limit  int
	// script picks the operations for a visit; "" means the default.
	script func(w *walker, n *ref.Node) string
	key    string
	// loose leaves out the comparison of boxes whose outcome is not specified.
	stopped bool
	kept    []keptPath
	handles []keptHandle
}

// handlerErrors are returned by handlers that give up; some of them mean something else
// elsewhere.
var handlerErrors = map[rune]error{'X': errHandler, 'Y': io.EOF, 'V': mp4.ErrUnsupportedBoxVersion, 'N': mp4.ErrBoxInfoNotFound}

var errHandler = errors.New("handler gives up")

func newWalker(x *mc.X, data []byte, script func(w *walker, n *ref.Node) string) *walker {
	f := ref.Parse(data)
	w := &walker{x: x, f: f, script: script, key: "walk", limit: 200000}
	w.r = &stepReader{Reader: bytes.NewReader(data), x: x, limit: 2000000}
	return w
}

func (w *walker) run() {
	params := []interface{}{"root", 1}
	fr := &frame{nodes: w.f.Top, params: params}
	w.stack = []*frame{fr}
	vals, err := mp4.ReadBoxStructure(w.r, w.handle, params...)
	w.finish(fr, w.f.Err, vals, err, "the file")
	w.keptPaths()
}

// keptPaths checks that paths handed out earlier were not changed by later visits.
func (w *walker) keptPaths() {
	for _, k := range w.kept {
		if !samePath(k.got, k.want) {
			w.x.Fail(w.key+":path-changed", "the path handed out as %q reads %q after the walk", pathOf(toPath(k.want)), pathOf(k.got))
		}
	}
}

// finish judges the outcome of walking one level.
func (w *walker) finish(fr *frame, want error, vals []interface{}, err error, what string) {
	if fr.failed != nil {
		if !errors.Is(err, fr.failed) {
			w.x.Fail(w.key+":handler-error", "handler error %v came back as %v", fr.failed, err)
		}
		return
	}
	if fr.idx != len(fr.nodes) {
		w.x.Fail(w.key+":missing", "%s: %d of %d boxes visited (error %v), next is %s at %d", what, fr.idx, len(fr.nodes), err, printable(fr.nodes[fr.idx].Type), fr.nodes[fr.idx].Off)
	}
	if want != nil {
		if err == nil {
			w.x.Fail(w.key+":accepted", "%s: no error although %v", what, want)
		}
		return
	}
	if err != nil {
		w.x.Fail(w.key+":error", "%s: unexpected error %v", what, err)
	}
	if len(vals) != len(fr.vals) {
		w.x.Fail(w.key+":values", "%s: %d values, handlers returned %d", what, len(vals), len(fr.vals))
	}
	for i := range vals {
		if vals[i] != fr.vals[i] {
			w.x.Fail(w.key+":values", "%s: value %d is %v, handler returned %v", what, i, vals[i], fr.vals[i])
		}
	}
}

func (w *walker) handle(h *mp4.ReadHandle) (interface{}, error) {
	fr := w.stack[len(w.stack)-1]
	w.visits++
	if w.visits > w.limit {
		w.x.Fail(w.key+":loop", "more than %d boxes visited", w.limit)
	}
	if w.stopped {
		w.x.Fail(w.key+":after-error", "handler called for %s at %d after a handler error", h.BoxInfo.Type, h.BoxInfo.Offset)
	}
	if fr.idx >= len(fr.nodes) {
		w.x.Fail(w.key+":extra", "unexpected box %v at %d (path %q)", h.BoxInfo.Type, h.BoxInfo.Offset, pathOf(h.Path))
	}
	n := fr.nodes[fr.idx]
	fr.idx++
	if d := checkInfo(&h.BoxInfo, n); d != "" {
		w.x.Fail(w.key+":info", "%s", d)
	}
	if !samePath(h.Path, n.Path) {
		w.x.Fail(w.key+":path", "path %q, is %q", pathOf(h.Path), pathOf(toPath(n.Path)))
	}
	w.kept = append(w.kept, keptPath{h.Path, n.Path})
	w.handles = append(w.handles, keptHandle{h, n})
	if len(h.Params) != len(fr.params) {
		w.x.Fail(w.key+":params", "params %v, expander passed %v", h.Params, fr.params)
	}
	for i := range h.Params {
		if h.Params[i] != fr.params[i] {
			w.x.Fail(w.key+":params", "params %v, expander passed %v", h.Params, fr.params)
		}
	}
	if h.BoxInfo.IsSupportedType() != (n.Def != nil) {
		w.x.Fail(w.key+":support", "%s at %d supported=%v", printable(n.Type), n.Off, n.Def == nil)
	}
	w.token++
	val := interface{}(w.token)
	if w.token%7 == 3 {
		val = nil
	}
	ops := w.script(w, n)
	w.x.State(n.Off, n.Type, ops, len(w.stack))
	if w.x.Tracing() {
		w.x.Describe("visit %s at %d: %s", printable(n.Type), n.Off, ops)
	}
	for _, op := range ops {
		switch op {
		case 'P':
			w.payload(h, n)
		case 'D':
			w.data(h, n)
		case 'E':
			if err := w.expand(h, n); err != nil {
				fr.failed = err
				return nil, err
			}
		case 'e': // expand without looking at the error
			w.expand(h, n)
		case '0':
			w.r.Seek(0, io.SeekStart)
		case 'Z':
			w.r.Seek(3, io.SeekEnd)
		case 'M':
			w.r.Seek(int64(n.Off+n.Hdr+1), io.SeekStart)
			io.ReadFull(w.r, make([]byte, 2))
		case 'I': // read the header again
			if _, err := h.BoxInfo.SeekToStart(w.r); err == nil {
				mp4.ReadBoxInfo(w.r)
			}
		case 'p': // the operations of the parent
			if fr.h != nil {
				w.payload(fr.h, fr.n)
			}
		case 'd':
			if fr.h != nil {
				w.data(fr.h, fr.n)
			}
		default:
			w.stopped = true
			fr.failed = handlerErrors[op]
			return nil, fr.failed
		}
	}
	fr.vals = append(fr.vals, val)
	return val, nil
}

func (w *walker) payload(h *mp4.ReadHandle, n *ref.Node) {
	b, k, err := h.ReadPayload()
	if n.Unspecified() {
		return
	}
	switch {
	case n.Def == nil:
		if !errors.Is(err, mp4.ErrBoxInfoNotFound) {
			w.x.Fail(w.key+":payload", "%s at %d is not defined, ReadPayload: %v", printable(n.Type), n.Off, err)
		}
	case n.Dec.Err != nil:
		if err == nil {
			w.x.Fail(w.key+":payload", "%s at %d is malformed (%v) but was decoded", printable(n.Type), n.Off, n.Dec.Err)
		}
		if n.Dec.Err == ref.ErrVersion && !errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
			w.x.Fail(w.key+":payload", "%s at %d has an unsupported version: %v", printable(n.Type), n.Off, err)
		}
	default:
		if err != nil {
			w.x.Fail(w.key+":payload", "%s at %d: ReadPayload: %v", printable(n.Type), n.Off, err)
		}
		if k != uint64(n.Dec.N) {
			w.x.Fail(w.key+":payload", "%s at %d: ReadPayload consumed %d, fields take %d", printable(n.Type), n.Off, k, n.Dec.N)
		}
		if d := diffBox(b, n.Dec.Val); d != "" {
			w.x.Fail(w.key+":payload", "%s at %d: %s", printable(n.Type), n.Off, d)
		}
	}
}

func (w *walker) data(h *mp4.ReadHandle, n *ref.Node) {
	var buf bytes.Buffer
	k, err := h.ReadData(&buf)
	want := w.f.Payload(n)
	if n.Beyond {
		if err == nil {
			w.x.Fail(w.key+":data", "%s at %d is cut off by the end of the file but ReadData succeeded", printable(n.Type), n.Off)
		}
		return
	}
	if err != nil || k != uint64(len(want)) || !bytes.Equal(buf.Bytes(), want) {
		w.x.Fail(w.key+":data", "%s at %d: ReadData gave %d bytes %s, error %v; payload is %s", printable(n.Type), n.Off, k, short(buf.Bytes()), err, short(want))
	}
}

func (w *walker) expand(h *mp4.ReadHandle, n *ref.Node) error {
	params := []interface{}{w.token, n.Off}
	if w.token%3 == 0 {
		params = nil
	}
	fr := &frame{nodes: n.Children, params: params, h: h, n: n}
	w.stack = append(w.stack, fr)
	own := append([]interface{}{}, h.Params...)
	vals, err := h.Expand(params...)
	w.stack = w.stack[:len(w.stack)-1]
	if fr.failed == nil { // what the handler of this box was told stays as it is while the boxes inside are visited
		if d := checkInfo(&h.BoxInfo, n); d != "" {
			w.x.Fail(w.key+":kept", "after Expand: %s", d)
		}
		if !samePath(h.Path, n.Path) || !reflect.DeepEqual(append([]interface{}{}, h.Params...), own) {
			w.x.Fail(w.key+":kept", "%s at %d: after Expand path %q, params %v, before: path %q, params %v", printable(n.Type), n.Off, pathOf(h.Path), h.Params, pathOf(toPath(n.Path)), own)
		}
	}
	if n.Unspecified() && fr.failed == nil {
		return err
	}
	if n.Def != nil && n.Dec.Err == ref.ErrVersion && !errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
		w.x.Fail(w.key+":expand", "%s at %d has an unsupported version: Expand: %v", printable(n.Type), n.Off, err)
	}
	if n.Def == nil && !errors.Is(err, mp4.ErrBoxInfoNotFound) {
		w.x.Fail(w.key+":expand", "%s at %d is not defined: Expand: %v", printable(n.Type), n.Off, err)
	}
	w.finish(fr, n.ExpandErr(), vals, err, printable(n.Type)+" at "+fmt.Sprint(n.Off))
	return err
}

func supported(ops string) func(*walker, *ref.Node) string {
	return func(_ *walker, n *ref.Node) string {
		if n.Def == nil {
			return ""
		}
		return ops
	}
}

// ---- C06

var (
	giveUps    = []string{"X", "Y", "V", "N", "p", "d"}
	afterwards = []string{"X", "Y", "p", "d", "pE"}
)

// late uses the operations of every box again after the walk, last box first.
func (w *walker) late(ops string) {
	if w.stopped {
		return
	}
	for i := len(w.handles) - 1; i >= 0; i-- {
		k := w.handles[i]
		for _, op := range ops {
			switch op {
			case 'P':
				w.payload(k.h, k.n)
			case 'D':
				w.data(k.h, k.n)
			case 'E':
				w.script = func(*walker, *ref.Node) string { return "" }
				w.expand(k.h, k.n)
			}
		}
	}
}

var opLetters = []string{"P", "D", "E", "M", "Z", "0", "I"}

func scriptsUpTo(k int) []string {
	out := []string{""}
	prev := []string{""}
	for i := 0; i < k; i++ {
		var next []string
		for _, p := range prev {
			for _, l := range opLetters {
				next = append(next, p+l)
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

var c06kinds = []kind{container("moov"), raw("free", 1, 2, 3, 4, 5), leaf("mvhd"), raw("zzzz", 0, 0, 0, 8, 'f', 'r', 'e', 'e'), mp4a, metaISO}

func c06(tier string) []*mc.Unit {
	thorough := tier == "thorough"
	two, three := scriptsUpTo(2), scriptsUpTo(3)
	pickScript := func(list []string) func(w *walker, n *ref.Node) string {
		return func(w *walker, n *ref.Node) string {
			c := w.x.Choose(len(list)+len(giveUps), "ops")
			if c >= len(list) {
				return giveUps[c-len(list)]
			}
			return list[c]
		}
	}
	devScript := func(list []string) func(w *walker, n *ref.Node) string {
		return func(w *walker, n *ref.Node) string {
			def := ""
			if n.Def != nil {
				def = "E"
			}
			c := w.x.Dev(1+len(list)+len(giveUps)+len(afterwards), "ops")
			switch {
			case c == 0:
				return def
			case c > len(list)+len(giveUps):
				return def + afterwards[c-1-len(list)-len(giveUps)]
			case c > len(list):
				return giveUps[c-1-len(list)]
			}
			return list[c-1]
		}
	}
	tree := func(nodes int, kinds []kind, forms bool, script func(w *walker, n *ref.Node) string) func(x *mc.X) {
		return func(x *mc.X) {
			g := &growth{x: x, kinds: kinds, left: nodes, forms: forms}
			bs := g.grow()
			if g.left > 0 && nodes > 2 && !forms {
				x.Skip() // covered by the smaller bound
			}
			data := ref.Cat(bs...)
			x.Describe("file %s", shape(bs))
			x.State(data)
			w := newWalker(x, data, script)
			w.run()
			x.Outcome(shape(bs), w.visits)
		}
	}
	names := []string{"sample.mp4", "sample_fragmented.mp4", "sample_init.enca.mp4", "sample_init.encv.mp4"}
	all := targets(nil)
	ext := extents(depth(tier, 0, 1))
	return []*mc.Unit{
		{Name: "bulky", Weight: 6, Body: func(x *mc.X) { // deep, wide and long files; something else happens at one of the marked boxes
			bs, marks := bulky(x, ext)
			data := ref.Cat(bs...)
			off := places(bs)
			general := []string{"PE", "DE", "EP"}[x.Choose(3, "operations")]
			at, ops := uint64(1), ""
			if c := x.Choose(len(marks)+1, "mark"); c > 0 {
				at = off[marks[c-1]]
				ops = []string{"", "X", "ED", "IE", "ZE", "Ed", "0PE"}[x.Choose(7, "there")]
			}
			x.Describe("file %s; %s, at %d %s", bulk(bs), general, at, ops)
			x.State(data, general, at, ops)
			w := newWalker(x, data, func(w *walker, n *ref.Node) string {
				if n.Off == at {
					if n.Def == nil {
						return strings.Replace(strings.Replace(ops, "E", "", -1), "P", "", -1)
					}
					return ops
				}
				if n.Def == nil {
					if strings.Contains(general, "D") {
						return "D"
					}
					return ""
				}
				return general
			})
			w.run()
			x.Outcome(w.visits, at, ops)
		}},
		{Name: "all-scripts", Bound: 0, Weight: 2, Body: tree(2, c06kinds, false, pickScript(two))},
		{Name: "trees", Bound: depth(tier, 1, 2), Weight: 4, Body: func(x *mc.X) {
			n := 3 + x.Choose(depth(tier, 2, 2), "nodes")
			tree(n, c06kinds, false, devScript(two))(x)
		}},
		{Name: "types", Bound: 1, Body: func(x *mc.X) { // every type in every header form
			bs := typed(x, all, depth(tier, 3, 8))
			data := ref.Cat(bs...)
			x.Describe("file %s", shape(bs))
			x.State(data)
			w := newWalker(x, data, devScript(scriptsUpTo(1)))
			w.run()
			x.Outcome(shape(bs), w.visits)
		}},
		{Name: "late-operations", Body: func(x *mc.X) { // on boxes visited before, when the walk is over
			g := &growth{x: x, kinds: c06kinds, left: 3}
			bs := g.grow()
			data := ref.Cat(bs...)
			first := []string{"", "E", "PE", "EP", "D"}[x.Choose(5, "operations")]
			ops := []string{"P", "D", "E", "EP", "PE", "DE"}[x.Choose(6, "late operations")]
			x.Describe("file %s, %s, then %s", shape(bs), first, ops)
			x.State(data, first, ops)
			w := newWalker(x, data, supported(first))
			w.run()
			w.late(ops)
			x.Outcome(shape(bs), w.visits)
		}},
		{Name: "header-forms", Bound: 2, Weight: 2, Body: tree(3, c06kinds, true, devScript(scriptsUpTo(depth(tier, 1, 2))))},
		{Name: "three-operations", Bound: 0, Body: tree(1, c06kinds, false, pickScript(three))},
		{Name: "long-scripts", Bound: 0, Weight: 2, Body: func(x *mc.X) { // one box with up to 5 (7) operations in any order
			k := []*ref.Box{{Type: "moov", Kids: []*ref.Box{ref.B("free", []byte{1, 2, 3}), ref.B("trak", nil, ref.B("skip", []byte{9}))}},
				{Type: "meta", Fields: []byte{0, 0, 0, 0}, Kids: []*ref.Box{ref.B("free", nil), ref.B("free", []byte{7})}},
				{Type: "meta", Kids: []*ref.Box{ref.B("free", []byte{8, 8})}},
				{Type: "mp4a", Fields: mp4a.fields(x, ref.Ctx{}), Kids: []*ref.Box{ref.B("free", nil)}},
			}
			b := k[x.Choose(len(k), "box")]
			data := ref.Cat(b, ref.B("free", []byte{1}))
			max := depth(tier, 4, 6)
			n := x.Choose(max+1, "n")
			s := ""
			for i := 0; i < n; i++ {
				s += opLetters[x.Choose(len(opLetters), "op")]
			}
			x.Describe("file %s", shape([]*ref.Box{b}))
			x.State(b.Type, s)
			w := newWalker(x, data, func(w *walker, n *ref.Node) string {
				if n.Off == 0 {
					return s
				}
				if n.Def != nil {
					return "E"
				}
				return ""
			})
			w.run()
			x.Outcome(s)
		}},
		{Name: "sample-files", Bound: depth(tier, 1, 2), Weight: depthF(tier, 1, 4), Body: func(x *mc.X) {
			name := names[x.Choose(len(names), "file")]
			x.Describe("file %s", name)
			list := two
			if thorough {
				list = scriptsUpTo(1)
			}
			w := newWalker(x, samples[name], devScript(list))
			w.run()
			x.Outcome(name, w.visits)
		}},
		{Name: "from-internal", Bound: depth(tier, 1, 2), Body: func(x *mc.X) { // walks that start at a given box
			g := &growth{x: x, kinds: c06kinds, left: 3, forms: true}
			bs := g.grow()
			data := ref.Cat(bs...)
			f := ref.Parse(data)
			var all []*ref.Node
			ref.Walk(f.Top, func(n *ref.Node) { all = append(all, n) })
			if len(all) == 0 {
				x.Skip()
			}
			n := all[x.Choose(len(all), "start")]
			sub := rebase(n, nil)
			w := newWalker(x, data, devScript(two))
			w.f = f
			x.Describe("file %s, start at %d", shape(bs), n.Off)
			x.State(data, n.Off)
			params := []interface{}{"p"}
			fr := &frame{nodes: []*ref.Node{sub}, params: params}
			w.stack = []*frame{fr}
			bi := &mp4.BoxInfo{Offset: n.Off, Size: n.Size, HeaderSize: n.Hdr, Type: btype(n.Type), ExtendToEOF: n.EOF, Context: toCtx(n.Ctx)}
			if x.Choose(2, "again") == 1 { // a walk leaves the caller's box information fit for another one
				mp4.ReadBoxStructureFromInternal(bytes.NewReader(data), bi, func(h *mp4.ReadHandle) (interface{}, error) {
					if !h.BoxInfo.IsSupportedType() {
						return nil, nil
					}
					return h.Expand()
				})
			}
			val, err := mp4.ReadBoxStructureFromInternal(w.r, bi, w.handle, params...)
			var vals []interface{}
			if err == nil {
				vals = []interface{}{val}
			}
			w.finish(fr, nil, vals, err, "the box")
			w.keptPaths()
			x.Outcome(shape(bs), w.visits)
		}},
	}
}

func depthF(tier string, q, t float64) float64 {
	if tier == "thorough" {
		return t
	}
	return q
}

// rebase gives the subtree the paths it has when the walk starts at its root.
func rebase(n *ref.Node, path []string) *ref.Node {
	m := *n
	m.Path = append(append([]string{}, path...), n.Type)
	m.Children = nil
	for _, c := range n.Children {
		m.Children = append(m.Children, rebase(c, m.Path))
	}
	return &m
}

// ---- C07

var c07kinds = []kind{ftypIso, ftypQT, container("moov"), container("udta"), metaISO, metaQT, keys2, keys1, container("ilst"),
	{"(c)nam", "\xa9nam", true, fixed()}, {"----", "----", true, fixed()}, leaf("data"), container("wave"), mp4a, mp4aV1, leaf("titl"),
	leaf("mean"), leaf("\x00\x00\x00\x01"), leaf("\x00\x00\x00\x02"), leaf("\x00\x00\x00\x03"), raw("free", 1)}

func c07(tier string) []*mc.Unit {
	all := targets(nil)
	grow := func(nodes int, kinds []kind, pre func(x *mc.X) []*ref.Box, exact bool) func(x *mc.X) {
		return func(x *mc.X) {
			g := &growth{x: x, kinds: kinds, left: nodes}
			bs := g.level(ref.Ctx{}, true)
			if exact && g.left > 0 {
				x.Skip()
			}
			data := ref.Cat(bs...)
			x.Describe("file %s", shape(bs))
			x.State(data)
			w := newWalker(x, data, supported("PE"))
			w.key = "context"
			w.run()
			x.Outcome(shape(bs), w.f.Err != nil)
		}
	}
	// item lists at a realistic depth: the skeleton is given, what goes where is enumerated
	skeleton := func(x *mc.X) {
		slot := func(name string, ks ...kind) *kind {
			c := x.Choose(len(ks)+1, name)
			if c == 0 {
				return nil
			}
			return &ks[c-1]
		}
		var top []*ref.Box
		ctx := ref.Ctx{}
		put := func(list *[]*ref.Box, k *kind, c ref.Ctx, kids ...*ref.Box) *ref.Box {
			if k == nil {
				return nil
			}
			b := &ref.Box{Type: k.typ, Fields: k.fields(x, c), Kids: kids}
			*list = append(*list, b)
			return b
		}
		nam := kind{"(c)nam", "\xa9nam", true, fixed()}
		fre := kind{"----", "----", true, fixed()}
		if k := slot("first", ftypIso, ftypQT); k != nil {
			put(&top, k, ctx)
			ctx.QT = k.name == "ftyp-qt"
		}
		moov := ref.B("moov", nil)
		udta := ref.B("udta", nil)
		c := ctx
		cu := ref.Below("udta", c)
		inUdta := c
		if x.Choose(2, "udta") == 1 {
			moov.Kids = append(moov.Kids, udta)
			inUdta = cu
		} else {
			udta = moov
		}
		meta := ref.B("meta", []byte{0, 0, 0, 0})
		udta.Kids = append(udta.Kids, meta)
		cm := inUdta
		if k := slot("keys", keys1, keys2); k != nil {
			b := put(&meta.Kids, k, cm)
			cm.Keys = int(binary.BigEndian.Uint32(b.Fields[4:]))
		}
		ilst := ref.B("ilst", nil)
		meta.Kids = append(meta.Kids, ilst)
		ci := ref.Below("ilst", cm)
		for i := 0; i < 2; i++ {
			k := slot("item", nam, fre, leaf("\x00\x00\x00\x01"), leaf("\x00\x00\x00\x02"), leaf("\x00\x00\x00\x03"), leaf("titl"), raw("free", 1), container("ilst"))
			b := put(&ilst.Kids, k, ci)
			if b != nil && k.container {
				cb := ref.Below(k.typ, ci)
				inner := 2
				if i == 1 && tier != "thorough" {
					inner = 0
				}
				for j := 0; j < inner; j++ {
					k2 := slot("in", leaf("data"), leaf("mean"), leaf("name"), nam, fre)
					b2 := put(&b.Kids, k2, cb)
					if b2 != nil && k2.container {
						put(&b2.Kids, slot("deep", leaf("data"), leaf("mean")), ref.Below(k2.typ, cb))
					}
				}
			}
		}
		// what follows must not be affected
		put(&meta.Kids, slot("after-ilst", leaf("data"), leaf("\x00\x00\x00\x01")), cm)
		put(&moov.Kids, slot("after-meta", leaf("titl"), leaf("data"), leaf("\x00\x00\x00\x01")), ctx)
		top = append(top, moov)
		if tier == "thorough" && x.Choose(2, "late") == 1 {
			top = append(top, ref.B("ftyp", ftypQT.fields(x, ctx)), ref.B("mp4a", mp4aV1.fields(x, ref.Ctx{QT: true})))
		}
		data := ref.Cat(top...)
		x.Describe("file %s", shape(top))
		x.State(data)
		w := newWalker(x, data, supported("PE"))
		w.key = "context"
		w.run()
		x.Outcome(shape(top))
	}
	waves := func(x *mc.X) { // sound descriptions below wave boxes
		g := &growth{x: x, kinds: []kind{ftypQT, stsd, mp4a, mp4aV1, container("wave"), raw("free", 1), {"enca", "enca", true, fromLayout("enca")}}, left: depth(tier, 5, 6)}
		bs := g.level(ref.Ctx{}, true)
		data := ref.Cat(bs...)
		x.Describe("file %s", shape(bs))
		x.State(data)
		w := newWalker(x, data, supported("EP"))
		w.key = "context"
		w.run()
		x.Outcome(shape(bs))
	}
	ext := extents(depth(tier, 1, 2))
	return []*mc.Unit{
		{Name: "bulky", Bound: 0, Weight: 6, Body: func(x *mc.X) {
			bs, _ := bulky(x, ext)
			data := ref.Cat(bs...)
			x.Describe("file %s", bulk(bs))
			x.State(data)
			w := newWalker(x, data, supported([]string{"PE", "E"}[x.Choose(2, "operations")]))
			w.key = "context"
			w.run()
			x.Outcome(w.visits)
		}},
		{Name: "trees", Bound: 0, Weight: 5, Body: grow(depth(tier, 4, 5), c07kinds, nil, false)},
		{Name: "item-lists", Bound: 0, Weight: 2, Body: skeleton},
		{Name: "types", Bound: 0, Body: func(x *mc.X) { // every type in every header form
			bs := typed(x, all, depth(tier, 3, 8))
			data := ref.Cat(bs...)
			x.Describe("file %s", shape(bs))
			x.State(data)
			w := newWalker(x, data, supported("PE"))
			w.key = "context"
			w.run()
			x.Outcome(shape(bs))
		}},
		{Name: "item-numbers", Bound: 0, Body: func(x *mc.X) { // one item of a number, with so many keys
			counts := []uint32{0, 1, 2, 3, 127, 128, 255, 256, 257, 300, 65537}
			n := counts[x.Choose(len(counts), "keys")]
			var nums []uint32
			for _, c := range append(counts, n+4, n) {
				nums = append(nums, c, c+1, c-1)
			}
			if n > 1000 && tier != "thorough" {
				nums = []uint32{0, 1, 2, 65535, 65536, n, n + 1, 1<<24 | 1}
			}
			for _, hi := range []uint32{1 << 24, 0x6162 << 16, 0x61 << 24, 1 << 31, 0xffff << 16, 0x7f << 24, 1 << 16, 0x100} {
				for _, lo := range []uint32{0, 1, 2, n, 255, 256} {
					if n < 1000 || tier == "thorough" {
						nums = append(nums, hi|lo)
					}
				}
			}
			seen := map[uint32]bool{}
			uniq := nums[:0]
			for _, v := range nums {
				if !seen[v] {
					seen[v] = true
					uniq = append(uniq, v)
				}
			}
			nums = uniq
			typ := make([]byte, 4)
			binary.BigEndian.PutUint32(typ, nums[x.Choose(len(nums), "number")])
			ctx := ref.Ctx{Keys: int(n)}
			var head []*ref.Box
			if x.Choose(2, "brand") == 1 {
				ctx.QT = true
				head = append(head, ref.B("ftyp", ftypQT.fields(x, ref.Ctx{})))
			}
			keys := make([]byte, 8, 8+8*n)
			binary.BigEndian.PutUint32(keys[4:], n)
			for i := uint32(0); i < n; i++ {
				keys = append(keys, 0, 0, 0, 8, 'm', 'd', 't', 'a')
			}
			item := ref.B(string(typ), []byte{0, 0, 0, 24, 'd', 'a', 't', 'a', 0, 0, 0, 1, 0, 0, 0, 0, 'v', 'a', 'l', 'u', 'e', ' ', '0', '1'})
			meta := ref.B("meta", []byte{0, 0, 0, 0}, ref.B("keys", keys), ref.B("ilst", nil, item))
			data := ref.Cat(append(head, ref.B("moov", nil, meta))...)
			x.Describe("%d keys, item %q", n, printable(string(typ)))
			x.State(n, typ, ctx.QT)
			w := newWalker(x, data, supported("PE"))
			w.key = "context"
			w.run()
			x.Outcome(n, ref.Lookup(string(typ), ref.Ctx{Ilst: true, Keys: int(n), QT: ctx.QT}) != nil)
		}},
		{Name: "sound-descriptions", Bound: 0, Weight: 2, Body: waves},
	}
}

// ---- C08

// sparse walks a file with a container of gigabytes, in which the sizes of the children do or do not add up.
func sparse(x *mc.X) {
	qt := x.Choose(2, "brand") == 1
	depth := 1 + x.Choose(2, "levels")
	totals := []uint64{1<<31 - 1, 1 << 31, 1<<32 - 9, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 8, 1<<32 + 17, 1<<33 + 5, 3<<32 - 1, 1<<40 + 3}
	total := totals[x.Choose(len(totals), "payload")]
	firsts := []uint64{0, 8, 16, 1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 1, 1 << 32, 1<<32 + 7, 1 << 33}
	f := &vfile{pages: map[int64]*[512]byte{}}
	type visit struct {
		path      string
		off, size uint64
	}
	var want []visit
	bad := false
	header := func(typ string, at, size uint64, large bool) uint64 {
		w := ref.W{}.U32(uint32(size)).S(typ)
		if large {
			w = ref.W{}.U32(1).S(typ).U64(size)
		}
		f.pos = int64(at)
		f.Write(w)
		return uint64(len(w))
	}
	at := uint64(0)
	if qt {
		b := ref.B("ftyp", ftypQT.fields(x, ref.Ctx{})).Bytes()
		f.Write(b)
		want = append(want, visit{"/ftyp", 0, uint64(len(b))})
		at = uint64(len(b))
	}
	path := ""
	end := at + 16*uint64(depth) + total
	for i := 0; i < depth; i++ {
		path += []string{"/moov", "/trak"}[i]
		want = append(want, visit{path, at, end - at})
		at += header([]string{"moov", "trak"}[i], at, end-at, true)
	}
	// children
	put := func(size uint64, large bool) {
		left := end - at
		h := uint64(8)
		if large {
			h = 16
		}
		if h > left {
			// the header itself goes beyond the parent
			x.Skip()
		}
		header("free", at, size, large)
		if size < h || size > left {
			bad = true
			return
		}
		want = append(want, visit{path + "/free", at, size})
		at += size
	}
	for i := 0; i < 2 && !bad; i++ {
		v := firsts[x.Choose(len(firsts), "child")]
		if v == 0 {
			break
		}
		put(v, v > 1<<32-1 || v >= 16 && x.Choose(2, "form") == 1)
	}
	if left := end - at; !bad && left >= 8 {
		c := x.Choose(26, "last")
		switch {
		case c < 18: // exactly, too long, or something left over
			v := left + 1 - uint64(c/2)
			if c%2 == 0 && v > 1<<32-1 || v > left+1 {
				x.Skip()
			}
			put(v, c%2 == 1)
		case c < 25:
			put([]uint64{left + 1<<32, left + 1<<33, 1 << 63, 1<<64 - 1, -at, 8 - at, 15}[c-18], true)
		default:
			put(left&(1<<32-1), false) // what a 32-bit calculation makes of it
			if !bad && at != end {
				x.Skip() // goes on with what is there: nothing but zeros
			}
		}
	}
	if left := end - at; !bad && left > 0 {
		if left >= 8 { // zeros: a box that extends to the end of the file
			bad = true
		} else if !qt {
			bad = true
		}
	}
	f.pos = int64(end)
	f.Write(ref.B("free", []byte{1}).Bytes())
	f.pos = 0
	if !bad {
		want = append(want, visit{"/free", end, 9})
	}
	x.Describe("qt %v, payload of %d bytes at level %d: %v bad %v", qt, total, depth, want, bad)
	x.State(fmt.Sprint(want, bad, qt), len(f.pages))
	var got []visit
	_, err := mp4.ReadBoxStructure(f, func(h *mp4.ReadHandle) (interface{}, error) {
		got = append(got, visit{pathOf(h.Path), h.BoxInfo.Offset, h.BoxInfo.Size})
		if t := h.BoxInfo.Type.String(); t == "moov" || t == "trak" {
			return h.Expand()
		}
		return nil, nil
	})
	x.Outcome(fmt.Sprint(got, err != nil))
	if bad != (err != nil) {
		x.Fail("size:sparse", "%v expected to be fine: %v; the walk ended with %v", want, !bad, err)
	}
	for i := range got {
		if i >= len(want) || got[i] != want[i] {
			x.Fail("size:sparse", "visited %v, expected %v", got, want)
		}
	}
	if len(got) != len(want) {
		x.Fail("size:sparse", "visited %v, expected %v", got, want)
	}
}

func c08(tier string) []*mc.Unit {
	kinds := []kind{ftypIso, ftypQT, container("moov"), raw("free", 1, 2, 3, 4, 5, 6, 7, 8, 9), mp4a, metaISO}
	sizes := func(own, left, off uint64) []uint64 {
		return []uint64{0, 2, 7, 8, 9, 15, 16, own - 1, own + 1, own + 8, left, left + 1, left + 8, 0x7fffffff, 0xffffffff, 1 << 32, 1<<32 + own,
			1<<63 - 1, 1 << 63, 1<<64 - 1, -own, -off, -off + 8, 1<<63 - off, 1 << 61, 1<<61 + own}
	}
	var spoil func(x *mc.X, bs []*ref.Box)
	spoil = func(x *mc.X, bs []*ref.Box) {
		// positions of the boxes as laid out now
		type at struct {
			b         *ref.Box
			own, left uint64
			off       uint64
		}
		var all []at
		var visit func(bs []*ref.Box, off, left uint64)
		visit = func(bs []*ref.Box, off, left uint64) {
			for _, b := range bs {
				own := b.Len()
				all = append(all, at{b, own, left, off})
				h := uint64(8)
				if b.Form == ref.Large {
					h = 16
				}
				visit(b.Kids, off+h+uint64(len(b.Fields)), own-h-uint64(len(b.Fields)))
				off += own
				left -= own
			}
		}
		visit(bs, 0, uint64(len(ref.Cat(bs...))))
		if len(all) == 0 {
			return
		}
		n := len(sizes(1, 1, 1))
		for k := 0; k < depth(tier, 1, 2); k++ {
			d := x.Dev(1+len(all)*n*2, "size")
			if d == 0 {
				break
			}
			d--
			a := all[d/(n*2)]
			v := sizes(a.own, a.left, a.off)[d/2%n]
			if d%2 == 1 {
				a.b.Form = ref.Large
			} else if v > 0xffffffff || a.b.Form == ref.Large {
				x.Skip()
			}
			if a.b.SizeField != nil {
				x.Skip()
			}
			a.b.SizeField = &v
		}
	}
	body := func(nodes int, trail bool) func(x *mc.X) {
		return func(x *mc.X) {
			g := &growth{x: x, kinds: kinds, left: nodes}
			bs := g.level(ref.Ctx{}, true)
			if trail {
				var cs []*ref.Box
				var visit func(bs []*ref.Box)
				visit = func(bs []*ref.Box) {
					for _, b := range bs {
						if b.Type == "moov" || b.Type == "mp4a" || b.Type == "meta" {
							cs = append(cs, b)
						}
						visit(b.Kids)
					}
				}
				visit(bs)
				if len(cs) == 0 {
					x.Skip()
				}
				junk := []byte{0, 0, 0, 8, 'f', 'r', 'e', 'e', 0, 0, 0, 1, 'f', 'r', 'e', 'e', 0, 0}
				for i := 0; i < depth(tier, 1, 2); i++ {
					c := cs[x.Choose(len(cs), "container")]
					c.Trail = append([]byte{}, junk[:x.Choose(len(junk), "trail")]...)
					if x.Choose(2, "zero") == 1 {
						c.Trail = make([]byte, len(c.Trail))
					}
				}
			} else {
				spoil(x, bs)
			}
			data := ref.Cat(bs...)
			x.Describe("file %s", shape(bs))
			x.State(data)
			w := newWalker(x, data, func(w *walker, n *ref.Node) string {
				if n.Def == nil || n.Beyond && n.Size > 1<<40 && n.Type == "mp4a" {
					return ""
				}
				if n.Type == "free" {
					if n.Beyond {
						return "D"
					}
					return "DE"
				}
				return "E"
			})
			w.key = "size"
			w.run()
			x.Outcome(w.f.Err, w.visits)
		}
	}
	ext := extents(depth(tier, 0, 1))
	return []*mc.Unit{
		{Name: "bulky", Bound: 0, Weight: 6, Body: func(x *mc.X) { // a wrong size at one of the marked boxes of a deep, wide or long file
			bs, marks := bulky(x, ext)
			off := places(bs)
			m := marks[x.Choose(len(marks), "mark")]
			own, left := m.Len(), uint64(len(ref.Cat(bs...)))-off[m]
			var up func(bs []*ref.Box) bool
			up = func(bs []*ref.Box) bool {
				for _, b := range bs {
					if b == m {
						return true
					}
					if up(b.Kids) {
						if l := off[b] + b.Len() - off[m]; l < left {
							left = l
						}
						return true
					}
				}
				return false
			}
			up(bs)
			switch x.Choose(2, "trouble") {
			case 0:
				v := sizes(own, left, off[m])[x.Choose(len(sizes(1, 1, 1)), "size")]
				if v > 0xffffffff {
					m.Form = ref.Large
				}
				m.SizeField = &v
			default:
				m.Trail = append(m.Trail, make([]byte, 1+x.Choose(7, "left over"))...)
			}
			data := ref.Cat(bs...)
			x.Describe("file %s", bulk(bs))
			x.State(data)
			w := newWalker(x, data, func(w *walker, n *ref.Node) string {
				if n.Def == nil {
					return ""
				}
				return "E"
			})
			w.key = "size"
			w.run()
			x.Outcome(w.f.Err, w.visits)
		}},
		{Name: "sparse", Body: sparse},
		{Name: "sizes", Bound: depth(tier, 1, 2), Weight: 4, Body: body(depth(tier, 4, 4), false)},
		{Name: "leftovers", Bound: 0, Weight: 2, Body: body(depth(tier, 4, 5), true)},
	}
}
