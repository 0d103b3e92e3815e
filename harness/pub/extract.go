//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/abema/go-mp4"
	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

const anyType = "\x00\x00\x00\x00"

func matches(req, path []string) bool {
	if len(req) != len(path) {
		return false
	}
	for i := range req {
		if req[i] != anyType && req[i] != path[i] {
			return false
		}
	}
	return true
}

func prefixOf(req, path []string) bool {
	return len(path) < len(req) && matches(req[:len(path)], path)
}

// selection is what extracting from a level must give; open tells that a box on the way cannot be expanded.
func selection(ns []*ref.Node, skip int, paths [][]string) (out []*ref.Node, open bool) {
	for _, n := range ns {
		p := n.Path[skip:]
		hit, way := false, false
		for _, q := range paths {
			hit = hit || matches(q, p)
			way = way || prefixOf(q, p)
		}
		if hit {
			out = append(out, n)
		}
		if way {
			if n.ExpandErr() != nil || n.Unspecified() {
				return out, true
			}
			o, bad := selection(n.Children, skip, paths)
			out = append(out, o...)
			if bad {
				return out, true
			}
		}
	}
	return out, false
}

func showPaths(ps [][]string) string {
	s := ""
	for _, p := range ps {
		for _, t := range p {
			s += "/" + printable(t)
		}
		s += " "
	}
	return s
}

func pathLists(ps [][]string) []mp4.BoxPath {
	out := []mp4.BoxPath{}
	for _, p := range ps {
		q := toPath(p)
		if q == nil {
			q = mp4.BoxPath{}
		}
		out = append(out, q)
	}
	return out
}

func infoOf(n *ref.Node) *mp4.BoxInfo {
	return &mp4.BoxInfo{Offset: n.Off, Size: n.Size, HeaderSize: n.Hdr, Type: btype(n.Type), ExtendToEOF: n.EOF, Context: toCtx(n.Ctx)}
}

func checkExtract(x *mc.X, f *ref.File, parent *ref.Node, paths [][]string) {
	ns, skip := f.Top, 0
	var pbi *mp4.BoxInfo
	if parent != nil {
		ns, skip = parent.Children, len(parent.Path)
		pbi = infoOf(parent)
	}
	r := bytes.NewReader(f.Data)
	r.Seek(int64(len(f.Data)/2), 0) // where the stream stands must not matter
	var bis []*mp4.BoxInfo
	var err error
	if parent != nil { // what comes out of this first extraction is the same below
		mp4.ExtractBoxes(r, pbi, pathLists(paths))
	}
	if len(paths) == 1 {
		bis, err = mp4.ExtractBox(r, pbi, pathLists(paths)[0])
	} else {
		bis, err = mp4.ExtractBoxes(r, pbi, pathLists(paths))
	}
	for _, p := range paths {
		if len(p) == 0 {
			if err == nil {
				x.Fail("extract:empty-path", "an empty path was accepted, %d boxes", len(bis))
			}
			return
		}
	}
	if len(paths) == 0 {
		if err != nil || len(bis) != 0 {
			x.Fail("extract:empty-list", "no path: %d boxes, error %v", len(bis), err)
		}
		return
	}
	want, open := selection(ns, skip, paths)
	if parent != nil && (parent.ExpandErr() != nil || parent.Unspecified()) {
		open = true
	}
	x.Outcome(len(want), open, err != nil)
	if open {
		return
	}
	if err != nil {
		x.Fail("extract:error", "paths %s: unexpected error %v", showPaths(paths), err)
	}
	if len(bis) != len(want) {
		x.Fail("extract:set", "paths %s: %d boxes extracted, %d match", showPaths(paths), len(bis), len(want))
	}
	for i := range bis {
		if d := checkInfo(bis[i], want[i]); d != "" {
			x.Fail("extract:info", "paths %s: box %d %s", showPaths(paths), i, d)
		}
	}
}

var c09kinds = []kind{container("moov"), container("trak"), raw("free", 1), raw("zzzz", 0, 0, 0, 8, 'f', 'r', 'e', 'e'), metaISO}

func allNodes(ns []*ref.Node) (out []*ref.Node) {
	ref.Walk(ns, func(n *ref.Node) { out = append(out, n) })
	return out
}

var parsedMu sync.Mutex
var parsedFiles = map[string]*ref.File{}

func parsedSample(name string) *ref.File {
	parsedMu.Lock()
	defer parsedMu.Unlock()
	if parsedFiles[name] == nil {
		parsedFiles[name] = ref.Parse(samples[name])
	}
	return parsedFiles[name]
}

func choosePath(x *mc.X, max int, comps []string) []string {
	n := x.Choose(max+1, "length")
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, comps[x.Choose(len(comps), "type")])
	}
	return p
}

func pickParent(x *mc.X, f *ref.File) *ref.Node {
	all := allNodes(f.Top)
	if c := x.Choose(len(all)+1, "parent"); c > 0 {
		return all[c-1]
	}
	return nil
}

func c09(tier string) []*mc.Unit {
	comps := []string{"moov", "trak", "free", "zzzz", anyType, "meta", "trax"}
	few := []string{"moov", "free", anyType, "trak"}
	body := func(nodes, list, length int, comps []string, exactList, forms bool) func(x *mc.X) {
		return func(x *mc.X) {
			g := &growth{x: x, kinds: c09kinds, left: nodes, forms: forms}
			bs := g.grow()
			f := ref.Parse(ref.Cat(bs...))
			n := list
			if !exactList {
				n = x.Choose(list+1, "paths")
			}
			var paths [][]string
			for i := 0; i < n; i++ {
				paths = append(paths, choosePath(x, length, comps))
			}
			parent := pickParent(x, f)
			x.Describe("file %s, paths %s", shape(bs), showPaths(paths))
			if parent != nil {
				x.Describe("parent %s at %d", printable(parent.Type), parent.Off)
			}
			x.State(f.Data, fmt.Sprintf("%q", paths), parent == nil)
			checkExtract(x, f, parent, paths)
		}
	}
	// deep chains: /a/b/c/d with paths that differ from the real ones in one component or in length
	deep := func(x *mc.X) {
		types := []string{"moov", "trak", "udta"}
		n := 2 + x.Choose(depth(tier, 3, 5), "depth")
		b := ref.B("free", []byte{1, 2})
		real := []string{"free"}
		for i := 1; i < n; i++ {
			t := types[x.Choose(len(types), "level")]
			b = ref.B(t, nil, ref.B("free", nil), b)
			if x.Choose(2, "again") == 1 {
				b.Kids = append(b.Kids, ref.B(t, nil, ref.B("free", []byte{3})))
			}
			real = append([]string{t}, real...)
		}
		f := ref.Parse(ref.Cat(b, ref.B("free", nil)))
		// depart from the real path
		p := append([]string{}, real...)
		switch c := x.Choose(4, "departure"); c {
		case 1:
			i := x.Choose(len(p), "at")
			p[i] = []string{anyType, "free", "moov", "abcd"}[x.Choose(4, "with")]
		case 2:
			i := x.Choose(len(p), "at")
			p = append(p[:i], p[i+1:]...)
		case 3:
			i := x.Choose(len(p)+1, "at")
			q := append([]string{}, p[:i]...)
			q = append(q, []string{anyType, "free", "moov"}[x.Choose(3, "with")])
			p = append(q, p[i:]...)
		}
		paths := [][]string{p}
		if x.Choose(2, "second") == 1 {
			paths = append(paths, real[:1+x.Choose(len(real), "prefix")])
		}
		parent := pickParent(x, f)
		if parent != nil && x.Choose(2, "relative") == 1 && len(paths[0]) > len(parent.Path) {
			paths[0] = paths[0][len(parent.Path):]
		}
		x.Describe("paths %s", showPaths(paths))
		x.State(f.Data, fmt.Sprintf("%q", paths), parent == nil)
		checkExtract(x, f, parent, paths)
	}
	names := []string{"sample.mp4", "sample_fragmented.mp4", "sample_init.enca.mp4", "sample_init.encv.mp4"}
	realFiles := func(x *mc.X) {
		f := parsedSample(names[x.Choose(len(names), "file")])
		all := allNodes(f.Top)
		p := append([]string{}, all[x.Choose(len(all), "path of")].Path...)
		if i := x.Choose(len(p)+1, "wild"); i > 0 {
			p[i-1] = anyType
		}
		paths := [][]string{p}
		if c := x.Choose(depth(tier, 2, 4), "second"); c > 0 {
			q := all[(len(p)*7+c*5)%len(all)].Path
			paths = append(paths, append([]string{}, q...))
		}
		var parent *ref.Node
		if k := x.Choose(len(p), "from"); k > 0 {
			// every node with that depth on some matching path serves as parent
			var cand []*ref.Node
			for _, n := range all {
				if len(n.Path) == k && matches(p[:k], n.Path) {
					cand = append(cand, n)
				}
			}
			if len(cand) == 0 {
				x.Skip()
			}
			parent = cand[x.Choose(len(cand), "parent")]
			for i := range paths {
				if len(paths[i]) > k {
					paths[i] = paths[i][k:]
				}
			}
		}
		x.Describe("paths %s", showPaths(paths))
		x.State(f.Data, fmt.Sprintf("%q", paths), parent == nil)
		checkExtract(x, f, parent, paths)
	}
	ts := targets(nil)
	ext := extents(depth(tier, 1, 2))
	return []*mc.Unit{
		{Name: "bulky", Bound: 0, Weight: 6, Body: func(x *mc.X) {
			f, paths := bulkyRequest(x, ext)
			checkExtract(x, f, nil, paths)
		}},
		{Name: "many-paths", Bound: 0, Body: func(x *mc.X) {
			f, parent, paths := manyPaths(x, tier)
			checkExtract(x, f, parent, paths)
		}},
		{Name: "one-path", Bound: 0, Weight: 3, Body: body(depth(tier, 3, 4), 1, 3, comps, true, false)},
		{Name: "path-lists", Bound: 0, Weight: 3, Body: body(3, 2, 2, comps[:5], false, false)},
		{Name: "three-paths", Bound: 0, Weight: 1, Body: body(2, 3, 2, few, true, false)},
		{Name: "header-forms", Bound: 2, Weight: 2, Body: body(3, 1, 2, comps[:5], true, true)},
		{Name: "deep", Bound: 0, Body: deep},
		{Name: "types", Bound: 0, Body: func(x *mc.X) { // every type in every header form
			bs := typed(x, ts, depth(tier, 2, 8))
			f := ref.Parse(ref.Cat(bs...))
			all := allNodes(f.Top)
			if len(all) == 0 {
				x.Skip()
			}
			p := append([]string{}, all[x.Choose(len(all), "path of")].Path...)
			if i := x.Choose(len(p)+1, "wild"); i > 0 {
				p[i-1] = anyType
			}
			x.Describe("file %s, path %s", shape(bs), showPaths([][]string{p}))
			x.State(f.Data, fmt.Sprintf("%q", p))
			checkExtract(x, f, nil, [][]string{p})
		}},
		{Name: "sample-files", Bound: 0, Body: realFiles},
	}
}

// bulkyRequest asks for a marked box of a bulky file.
func bulkyRequest(x *mc.X, ext extent) (*ref.File, [][]string) {
	bs, marks := bulky(x, ext)
	f := ref.Parse(ref.Cat(bs...))
	off := places(bs)[marks[x.Choose(len(marks), "mark")]]
	var p []string
	ref.Walk(f.Top, func(n *ref.Node) {
		if n.Off == off {
			p = append(p, n.Path...)
		}
	})
	if p == nil {
		x.Skip() // inside a box that cannot be expanded
	}
	paths := [][]string{p}
	switch x.Choose(6, "request") {
	case 1:
		p[len(p)-1] = anyType
	case 2:
		p[0] = anyType
	case 3:
		for i := range p {
			p[i] = anyType
		}
	case 4: // one longer, one shorter
		paths = [][]string{append(append([]string{}, p...), "free"), p[:1]}
	case 5:
		p[len(p)/2] = "abcd"
	}
	x.Describe("file %s, %d levels", bulk(bs), len(p))
	x.State(f.Data, fmt.Sprintf("%q", paths))
	return f, paths
}

// manyPaths asks for a few real paths among many.
func manyPaths(x *mc.X, tier string) (*ref.File, *ref.Node, [][]string) {
	mvhd := ref.B("mvhd", fromLayout("mvhd")(x, ref.Ctx{}))
	bs := []*ref.Box{ref.B("moov", nil, mvhd, ref.B("trak", nil, ref.B("free", []byte{1})), ref.B("free", []byte{2})), ref.B("free", []byte{3})}
	f := ref.Parse(ref.Cat(bs...))
	real := [][]string{{"moov", "trak", "free"}, {"moov", "mvhd"}, {"free"}, {"moov", anyType}, {anyType}}
	var parent *ref.Node
	if x.Choose(2, "parent") == 1 {
		parent = f.Top[0]
		real = [][]string{{"trak", "free"}, {"mvhd"}, {"trak"}, {anyType, "free"}}
	}
	ns := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}
	if tier == "thorough" {
		ns = append(ns, 511, 513, 1023, 1025, 4097, 65537)
	}
	n := ns[x.Choose(len(ns), "others")]
	// the others lead nowhere: by type, by length, or into a box they do not find anything in
	sort := x.Choose(4, "sort")
	var paths [][]string
	for i := 0; i < n; i++ {
		t := fmt.Sprintf("%c%c%c%c", 'a'+i%26, 'a'+i/26%26, 'A'+i/676%26, 'Z')
		switch sort {
		case 0:
			paths = append(paths, []string{t})
		case 1:
			paths = append(paths, []string{real[0][0], t})
		case 2:
			paths = append(paths, []string{"free", t, t})
		default:
			p := []string{real[0][0], "trak"}
			for j := 0; j < i%9; j++ {
				p = append(p, t)
			}
			paths = append(paths, append(p, t))
		}
	}
	insert := func(what string) {
		p := real[x.Choose(len(real), what)]
		at := []int{0, len(paths) / 2, len(paths) - 1, len(paths)}[x.Choose(4, "at")]
		paths = append(paths[:at:at], append([][]string{p}, paths[at:]...)...)
	}
	insert("real path")
	if x.Choose(2, "another") == 1 {
		insert("another")
	}
	x.Describe("%d paths", len(paths))
	x.State(f.Data, fmt.Sprintf("%q", paths), parent == nil)
	return f, parent, paths
}

// ---- C10

func checkWithPayload(x *mc.X, f *ref.File, parent *ref.Node, paths [][]string) {
	ns, skip := f.Top, 0
	var pbi *mp4.BoxInfo
	if parent != nil {
		ns, skip = parent.Children, len(parent.Path)
		pbi = infoOf(parent)
	}
	want, open := selection(ns, skip, paths)
	if open || parent != nil && (parent.ExpandErr() != nil || parent.Unspecified()) {
		x.Skip()
	}
	bad := false
	for _, n := range want {
		if n.Unspecified() {
			x.Skip()
		}
		bad = bad || n.Def == nil || n.Dec.Err != nil
	}
	// the description of the parent serves both extractions
	bis, err1 := mp4.ExtractBoxes(bytes.NewReader(f.Data), pbi, pathLists(paths))
	var bps []*mp4.BoxInfoWithPayload
	var err error
	r := bytes.NewReader(f.Data)
	if len(paths) == 1 {
		bps, err = mp4.ExtractBoxWithPayload(r, pbi, pathLists(paths)[0])
	} else {
		bps, err = mp4.ExtractBoxesWithPayload(r, pbi, pathLists(paths))
	}
	x.Outcome(len(want), bad)
	if bad {
		if err == nil {
			x.Fail("payload:accepted", "paths %s: a matching box cannot be decoded but there was no error", showPaths(paths))
		}
		return
	}
	if err1 != nil || err != nil {
		x.Fail("payload:error", "paths %s: errors %v, %v", showPaths(paths), err1, err)
	}
	if len(bps) != len(bis) || len(bps) != len(want) {
		x.Fail("payload:set", "paths %s: %d boxes with payload, %d without, %d match", showPaths(paths), len(bps), len(bis), len(want))
	}
	for i := range bps {
		if bps[i].Info != *bis[i] {
			x.Fail("payload:info", "box %d: %+v with payload, %+v without", i, bps[i].Info, *bis[i])
		}
		if d := checkInfo(&bps[i].Info, want[i]); d != "" {
			x.Fail("payload:info", "box %d %s", i, d)
		}
		if d := diffBox(bps[i].Payload, want[i].Dec.Val); d != "" {
			x.Fail("payload:value", "box %d (%s at %d, context %+v): %s", i, printable(want[i].Type), want[i].Off, want[i].Ctx, d)
		}
		if bps[i].Payload.GetType() != btype(want[i].Type) {
			x.Fail("payload:type", "box %d: type %v", i, bps[i].Payload.GetType())
		}
	}
}

// distinctPaths lists the different paths that occur.
func distinctPaths(ns []*ref.Node, skip int) (out [][]string) {
	seen := map[string]bool{}
	for _, n := range allNodes(ns) {
		p := n.Path[skip:]
		k := fmt.Sprintf("%q", p)
		if !seen[k] && len(p) > 0 {
			seen[k] = true
			out = append(out, p)
		}
	}
	return out
}

var c10kinds = []kind{ftypIso, ftypQT, container("moov"), container("udta"), metaISO, keys1, container("ilst"),
	{"(c)nam", "\xa9nam", true, fixed()}, {"----", "----", true, fixed()}, leaf("data"), container("wave"), mp4aV1, leaf("mean"), leaf("\x00\x00\x00\x01"), leaf("titl")}

func extractRequest(x *mc.X, f *ref.File) {
	parent := pickParent(x, f)
	ns, skip := f.Top, 0
	if parent != nil {
		ns, skip = parent.Children, len(parent.Path)
	}
	ps := distinctPaths(ns, skip)
	if len(ps) == 0 {
		x.Skip()
	}
	c := x.Choose(len(ps)+2, "request")
	switch {
	case c == 0: // everything at once
	case c == len(ps)+1: // one wildcard path per depth
		max := 0
		for _, p := range ps {
			if len(p) > max {
				max = len(p)
			}
		}
		n := 1 + x.Choose(max, "depth")
		ps = [][]string{{}}
		for i := 0; i < n; i++ {
			ps[0] = append(ps[0], anyType)
		}
	default:
		ps = ps[c-1 : c]
	}
	x.Describe("paths %s", showPaths(ps))
	if parent != nil {
		x.Describe("parent %s at %d", printable(parent.Type), parent.Off)
	}
	x.State(f.Data, fmt.Sprintf("%q", ps), parent == nil)
	checkWithPayload(x, f, parent, ps)
}

func c10(tier string) []*mc.Unit {
	grow := func(nodes int, kinds []kind, forms bool) func(x *mc.X) {
		return func(x *mc.X) {
			g := &growth{x: x, kinds: kinds, left: nodes, known: true, forms: forms}
			bs := g.grow()
			f := ref.Parse(ref.Cat(bs...))
			x.Describe("file %s", shape(bs))
			extractRequest(x, f)
		}
	}
	under := func(x *mc.X) { // item lists and sound descriptions in place
		qt := x.Choose(2, "qt") == 1
		ctx := ref.Ctx{QT: qt}
		var top []*ref.Box
		if qt {
			top = append(top, ref.B("ftyp", ftypQT.fields(x, ctx)))
		}
		item := func(ci ref.Ctx, t string) *ref.Box {
			cb := ref.Below(t, ci)
			b := ref.B(t, nil)
			if t == "----" {
				b.Kids = append(b.Kids, ref.B("mean", fromLayout("mean")(x, cb)), ref.B("name", fromLayout("name")(x, cb)))
			}
			b.Kids = append(b.Kids, ref.B("data", fromLayout("data")(x, cb)))
			return b
		}
		meta := ref.B("meta", []byte{0, 0, 0, 0})
		cm := ctx
		inUdta := x.Choose(2, "udta") == 1
		if inUdta {
			cm = ref.Below("udta", cm)
		}
		k := x.Choose(2, "keys")
		if k == 1 {
			meta.Kids = append(meta.Kids, ref.B("keys", keys2.fields(x, cm)))
			cm.Keys = 2
		}
		ilst := ref.B("ilst", nil)
		ci := ref.Below("ilst", cm)
		types := []string{"\xa9nam", "----", "desc"}
		if k == 1 {
			types = append(types, "\x00\x00\x00\x01", "\x00\x00\x00\x02")
		}
		for i := 0; i < 2; i++ {
			c := x.Choose(len(types)+1, "item")
			if c == 0 {
				continue
			}
			t := types[c-1]
			if t[0] == 0 {
				ilst.Kids = append(ilst.Kids, ref.B(t, fromLayout(t)(x, ci)))
			} else {
				ilst.Kids = append(ilst.Kids, item(ci, t))
			}
		}
		meta.Kids = append(meta.Kids, ilst)
		moov := ref.B("moov", nil)
		if inUdta {
			moov.Kids = append(moov.Kids, ref.B("udta", nil, meta, ref.B("titl", fromLayout("titl")(x, ref.Below("udta", ctx)))))
		} else {
			moov.Kids = append(moov.Kids, meta)
		}
		sd := ref.B("stsd", []byte{0, 0, 0, 0, 0, 0, 0, 1})
		switch x.Choose(4, "sound") {
		case 1:
			sd.Kids = append(sd.Kids, ref.B("mp4a", mp4aV1.fields(x, ctx)))
		case 2:
			cw := ref.Below("wave", ctx)
			sd.Kids = append(sd.Kids, ref.B("mp4a", mp4aV1.fields(x, ctx), ref.B("wave", nil, ref.B("mp4a", mp4aV1.fields(x, cw)), ref.B("enda", fromLayout("enda")(x, cw)))))
		case 3:
			cw := ref.Below("wave", ctx)
			sd.Kids = append(sd.Kids, ref.B("wave", nil, ref.B("mp4a", mp4aV1.fields(x, cw))), ref.B("mp4a", mp4aV1.fields(x, ctx)))
		}
		moov.Kids = append(moov.Kids, ref.B("trak", nil, ref.B("mdia", nil, ref.B("minf", nil, ref.B("stbl", nil, sd)))))
		top = append(top, moov)
		if f := x.Choose(3, "header form"); f > 0 {
			moov.Form = f
		}
		f := ref.Parse(ref.Cat(top...))
		x.Describe("file %s", shape(top))
		extractRequest(x, f)
	}
	// one box among decodable ones is of an unsupported version, is cut short or is of an unknown type
	undecodable := func(x *mc.X) {
		types := []string{"tfdt", "mvhd", "free", "mehd", "hdlr"}
		n := 1 + x.Choose(depth(tier, 3, 4), "boxes")
		at := x.Choose(n, "at")
		var bs []*ref.Box
		for i := 0; i < n; i++ {
			if i == at {
				switch x.Choose(3, "kind of trouble") {
				case 0:
					t := []string{"tfdt", "mvhd", "mehd", "sidx", "pssh", "elst"}[x.Choose(6, "versioned")]
					p := fromLayout(t)(x, ref.Ctx{})
					p[0] = []byte{2, 3, 9, 0x7f, 0x80, 0xff}[x.Choose(6, "version")]
					bs = append(bs, ref.B(t, p))
				case 1:
					t := []string{"tfdt", "mvhd", "mehd", "hdlr", "trex", "stts"}[x.Choose(6, "cut")]
					p := fromLayout(t)(x, ref.Ctx{})
					bs = append(bs, ref.B(t, p[:x.Choose(len(p), "to")]))
				default:
					bs = append(bs, ref.B("zzzz", []byte{1, 2}[:x.Choose(3, "len")]))
				}
				continue
			}
			bs = append(bs, ref.B(types[x.Choose(len(types), "sound")], nil))
			bs[i].Fields = fromLayout(bs[i].Type)(x, ref.Ctx{})
		}
		if x.Choose(2, "inside") == 1 {
			bs = []*ref.Box{ref.B("moov", nil, bs...)}
		}
		f := ref.Parse(ref.Cat(bs...))
		x.Describe("file %s", shape(bs))
		extractRequest(x, f)
	}
	names := []string{"sample.mp4", "sample_fragmented.mp4", "sample_init.enca.mp4", "sample_init.encv.mp4"}
	all := targets(nil)
	ext := extents(depth(tier, 1, 2))
	return []*mc.Unit{
		{Name: "bulky", Bound: 0, Weight: 6, Body: func(x *mc.X) {
			f, paths := bulkyRequest(x, ext)
			checkWithPayload(x, f, nil, paths)
		}},
		{Name: "many-paths", Bound: 0, Body: func(x *mc.X) {
			f, parent, paths := manyPaths(x, tier)
			checkWithPayload(x, f, parent, paths)
		}},
		{Name: "undecodable", Bound: 0, Weight: 1, Body: undecodable},
		{Name: "trees", Bound: 0, Weight: 4, Body: grow(depth(tier, 4, 5), c10kinds, false)},
		{Name: "header-forms", Bound: 2, Weight: 2, Body: grow(3, c10kinds, true)},
		{Name: "types", Bound: 0, Weight: 2, Body: func(x *mc.X) { // every type in every header form
			bs := typed(x, all, depth(tier, 3, 8))
			x.Describe("file %s", shape(bs))
			extractRequest(x, ref.Parse(ref.Cat(bs...)))
		}},
		{Name: "in-place", Bound: 0, Weight: 2, Body: under},
		{Name: "sample-files", Bound: 0, Weight: 1, Body: func(x *mc.X) {
			n := names[x.Choose(len(names), "file")]
			x.Describe("file %s", n)
			extractRequest(x, parsedSample(n))
		}},
	}
}
