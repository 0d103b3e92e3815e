//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

// visitAll goes through the boxes in file order. enter tells whether a box is expanded. It returns
// the error the walk runs into; open tells that the reference has no opinion from some point on.
func visitAll(f *ref.File, enter func(n *ref.Node) bool) (err error, open bool) {
	var level func(ns []*ref.Node, end error) bool
	level = func(ns []*ref.Node, end error) bool {
		for _, n := range ns {
			if !enter(n) {
				continue
			}
			if n.Unspecified() {
				open = true
				return false
			}
			if n.Dec.Err != nil {
				err = n.Dec.Err
				return false
			}
			if !level(n.Children, n.ChildErr) {
				return false
			}
		}
		err = end
		return end == nil
	}
	level(f.Top, f.Err)
	return
}

// leafTypes are the types of which the tool knows that nothing is inside; it may abbreviate them when they are long.
var leafTypes = map[string]bool{"emsg": true, "esds": true, "ftyp": true, "pssh": true, "ctts": true, "co64": true, "elst": true,
	"sbgp": true, "sdtp": true, "stco": true, "stsc": true, "stts": true, "stss": true, "stsz": true, "tfra": true, "trun": true}

type dumpOpts struct {
	full   []string
	all    bool
	mdat   bool
	free   bool
	offset bool
	hex    bool
}

func (o dumpOpts) args() (out []string) {
	if len(o.full) > 0 {
		out = append(out, "-full", strings.Join(o.full, ","))
	}
	for _, f := range []struct {
		on bool
		a  string
	}{{o.all, "-a"}, {o.mdat, "-mdat"}, {o.free, "-free"}, {o.offset, "-offset"}, {o.hex, "-hex"}} {
		if f.on {
			out = append(out, f.a)
		}
	}
	return
}

func (o dumpOpts) asked(t string) bool {
	for _, f := range o.full {
		if f == typeName(t) {
			return true
		}
	}
	return o.mdat && t == "mdat" || o.free && (t == "free" || t == "skip")
}

// dumpLine is what may be printed for one box.
type dumpLine struct {
	head string // always there
	full string // what follows when everything is shown
	// must: 0 = the full text is required, 1 = either, 2 = the notice is required
	must int
	typ  string
	n    *ref.Node
}

func (l *dumpLine) notice(s string) bool {
	n := fmt.Sprintf("(use \"-full %s\" to show all)", l.typ)
	return s == " Data=[...] "+n || s == " ... "+n
}

func (l *dumpLine) matches(s string) bool {
	if !strings.HasPrefix(s, l.head) {
		return false
	}
	rest := s[len(l.head):]
	return l.must != 2 && rest == l.full || l.must != 0 && l.notice(rest)
}

// dumpRef gives the lines of the dump, and the outcome of the walk.
func dumpRef(f *ref.File, o dumpOpts) (lines []*dumpLine, err error, open bool) {
	size := "%d"
	if o.hex {
		size = "0x%x"
	}
	var bad error
	err, open = visitAll(f, func(n *ref.Node) bool {
		if bad != nil {
			return false
		}
		l := &dumpLine{typ: typeName(n.Type), n: n}
		var b bytes.Buffer
		b.WriteString(strings.Repeat("  ", len(n.Path)-1))
		fmt.Fprintf(&b, "[%s]", l.typ)
		if n.Def == nil {
			b.WriteString(" (unsupported box type)")
		}
		if o.offset {
			fmt.Fprintf(&b, " Offset="+size, n.Off)
		}
		fmt.Fprintf(&b, " Size="+size, n.Size)
		lines = append(lines, l)
		asked := o.asked(n.Type)
		if !asked && (n.Type == "mdat" || n.Type == "free" || n.Type == "skip") {
			l.head, l.must = b.String(), 2
			return false
		}
		version := n.Def != nil && n.Dec.Err == ref.ErrVersion
		if n.Def == nil || version {
			if version {
				b.WriteString(" (unsupported box version)")
			}
			l.head = b.String()
			if !asked && !o.all {
				l.must = 2
				return false
			}
			if n.Beyond {
				bad = ref.ErrShort
				return true
			}
			var d []string
			for _, c := range f.Payload(n) {
				d = append(d, fmt.Sprintf("0x%02x", c))
			}
			l.full = " Data=[" + strings.Join(d, " ") + "]"
			return false
		}
		l.head = b.String()
		if n.Dec.Err == nil && n.Dec.Unspecified == "" && !n.Beyond {
			if s := ref.Render(n.Def, n.Ctx, n.Dec.Val, ""); s != "" {
				l.full = " " + s
			}
		}
		if asked || o.all {
			return true
		}
		if n.Size-n.Hdr >= 64 || len(l.head)+len(l.full) > 100 {
			l.must = 1
		}
		return true
	})
	if bad != nil {
		err = bad
	}
	return
}

func checkDump(x *mc.X, f *ref.File, o dumpOpts, what string) {
	s := newSandbox(x, "dump")
	defer s.close()
	s.write("in.mp4", f.Data)
	judgeDump(s, f, o, what)
}

func judgeDump(s *sandbox, f *ref.File, o dumpOpts, what string) {
	x := s.x
	r := s.run(append(append([]string{"dump"}, o.args()...), "in.mp4")...)
	lines, err, open := dumpRef(f, o)
	x.State(f.Data, strings.Join(o.args(), " "))
	x.Outcome(string(r.out), r.code)
	// a type the tool takes to be a leaf may be abbreviated without looking inside
	for _, l := range lines {
		if l.must == 1 && l.n.Def != nil && (l.n.Dec.Err != nil || leafTypes[l.n.Type] && l.n.ChildErr != nil) {
			open = true
		}
		// the version of a full box that ends before its flags is anybody's guess, and one that goes
		// beyond the end of the file is wrong in two ways
		if l.n.Def != nil && (l.n.Def.Full && l.n.Size < l.n.Hdr+4 || l.n.Dec.Err == ref.ErrVersion && l.n.Beyond) {
			open = true
		}
	}
	text := string(r.out)
	if text != "" && !strings.HasSuffix(text, "\n") {
		x.Fail("dump:text", "%s: the output does not end with a line break: %s", what, clip(text))
	}
	got := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if text == "" {
		got = nil
	}
	if r.code != 0 {
		if err == nil && !open {
			x.Fail("dump:error", "%s %v: exit %d: %s", what, o.args(), r.code, clip(text+r.errs))
		}
		s.failed(r, "")
		if len(got) > 0 && strings.HasPrefix(got[len(got)-1], "Error") {
			got = got[:len(got)-1]
		}
		if open {
			return
		}
		for i, g := range got {
			if i >= len(lines) {
				x.Fail("dump:extra", "%s %v: line %q printed before the error", what, o.args(), g)
			}
			if !lines[i].matches(g) {
				x.Fail("dump:line", "%s %v: line %d is %q, expected %q + %q", what, o.args(), i, g, lines[i].head, lines[i].full)
			}
		}
		if len(got) < len(lines)-1 {
			x.Fail("dump:missing", "%s %v: %d lines before the error, %d boxes come before it", what, o.args(), len(got), len(lines)-1)
		}
		return
	}
	if err != nil && !open {
		x.Fail("dump:accepted", "%s %v: exit status 0 although %v", what, o.args(), err)
	}
	for i, l := range lines {
		if i >= len(got) {
			x.Fail("dump:missing", "%s %v: %d lines, the line of box %s at %d is missing", what, o.args(), len(got), l.typ, l.n.Off)
		}
		if open && (l.n.Unspecified() || l.n.Dec.Err != nil || l.n.ChildErr != nil) {
			return
		}
		if !l.matches(got[i]) {
			x.Fail("dump:line", "%s %v: line %d is %s, expected %s + %s (rule %d)", what, o.args(), i, clip(got[i]), clip(l.head), clip(l.full), l.must)
		}
	}
	if len(got) > len(lines) && !open {
		x.Fail("dump:extra", "%s %v: extra line %s", what, o.args(), clip(got[len(lines)]))
	}
}

// dumpKinds are boxes with everything the dump distinguishes.
func dumpKinds() []kind {
	return []kind{
		container("moov"), container("trak"), raw("free", 1, 2, 3), raw("mdat", 0xab, 0), raw("skip"), raw("zzzz", 0xff, 0, 7), raw("\x00\xff\x01\xa9", 5),
		{"mvhd-9", "mfhd", false, fixed(9, 0, 0, 0, 0, 0, 0, 5)}, raw("mfhd", 0, 0, 0, 1, 0, 0, 0, 5),
		{"ftyp", "ftyp", false, ftypIso.fields}, {"stco", "stco", false, fixed(0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 9)},
		container("udta"), raw("\xa9nam", 0, 1, 'x'), stsd, raw("hdlr", append(append([]byte{0, 0, 0, 0, 0, 0, 0, 0}, "vide"...), append(make([]byte, 12), 'n', 0)...)...),
	}
}

// chooseOpts picks options for a file that has the given types.
func chooseOpts(x *mc.X, types []string) (o dumpOpts) {
	c := x.Choose(5+len(types), "options")
	switch c {
	case 0:
	case 1:
		o.all = true
	case 2:
		o.offset = true
	case 3:
		o.offset, o.hex, o.all = true, true, true
	case 4:
		o.hex, o.mdat, o.free = true, true, true
	default:
		o.full = []string{typeName(types[c-5])}
	}
	return
}

func typesOf(bs []*ref.Box) (out []string) {
	seen := map[string]bool{}
	var rec func(bs []*ref.Box)
	rec = func(bs []*ref.Box) {
		for _, b := range bs {
			if !seen[b.Type] {
				seen[b.Type] = true
				out = append(out, b.Type)
			}
			rec(b.Kids)
		}
	}
	rec(bs)
	return
}

// corruptSize replaces the size of one of the boxes.
func corruptSize(x *mc.X, bs []*ref.Box) {
	var all []*ref.Box
	var rec func(bs []*ref.Box)
	rec = func(bs []*ref.Box) {
		for _, b := range bs {
			all = append(all, b)
			rec(b.Kids)
		}
	}
	rec(bs)
	if len(all) == 0 {
		x.Skip()
	}
	b := all[x.Choose(len(all), "corrupt")]
	switch x.Choose(3, "how") {
	case 0:
		size := uint64(len(b.Bytes()))
		v := []uint64{size - 1, size + 1, 0, 1, 7, 8, 9, size + 8, size + 1000, 0x7fffffff, 0xffffffff, size - 4}[x.Choose(12, "size")]
		b.SizeField = &v
	case 1:
		b.Form = ref.Large
		size := uint64(len(b.Bytes()))
		v := []uint64{size - 1, size + 1, 0, 15, 16, 17, size + 1000, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}[x.Choose(11, "size")]
		b.SizeField = &v
	default:
		b.Trail = make([]byte, []int{1, 4, 7, 8, 9, 16}[x.Choose(6, "left over")])
	}
}

func c26(tier string) []*mc.Unit {
	ks := dumpKinds()
	trees := func(x *mc.X) {
		n := depth(tier, 3, 4)
		g := &growth{x: x, kinds: ks, left: n}
		bs := g.level(ref.Ctx{}, true)
		o := chooseOpts(x, typesOf(bs))
		if n := countBoxes(bs); n < 3 {
			toEOF(bs, x.Choose(2, "to the end of the file"))
		}
		x.Describe("%s %v", shape(bs), o.args())
		checkDump(x, ref.Parse(ref.Cat(bs...)), o, shape(bs))
	}
	forms := func(x *mc.X) {
		g := &growth{x: x, kinds: ks[:8], left: 2, forms: true}
		bs := g.grow()
		o := chooseOpts(x, typesOf(bs))
		x.Describe("%s %v", shape(bs), o.args())
		checkDump(x, ref.Parse(ref.Cat(bs...)), o, shape(bs))
	}
	malformed := func(x *mc.X) {
		g := &growth{x: x, kinds: []kind{ks[0], ks[2], ks[3], ks[5], ks[7], ks[8], ks[9], ks[10]}, left: depth(tier, 2, 3)}
		bs := g.level(ref.Ctx{}, true)
		corruptSize(x, bs)
		o := []dumpOpts{{}, {all: true, mdat: true, free: true}}[x.Choose(2, "options")]
		x.Describe("%s %v", shape(bs), o.args())
		checkDump(x, ref.Parse(ref.Cat(bs...)), o, shape(bs))
	}
	ts := targets(nil)
	inForms := func(x *mc.X) { // every type in every header form
		bs := typed(x, ts, depth(tier, 1, 8))
		o := []dumpOpts{{}, {all: true, mdat: true, free: true, offset: true, hex: true}}[x.Choose(2, "options")]
		x.Describe("%s %v", shape(bs), o.args())
		checkDump(x, ref.Parse(ref.Cat(bs...)), o, shape(bs))
	}
	types := func(x *mc.X) {
		t := ts[x.Choose(len(ts), "type")]
		var bs []*ref.Box
		for v := 0; v < 6; v++ {
			obj, p := ref.Generate(t.d, t.ctx, fixedChooser(v), false)
			if obj.Vals["Flags"] != nil && !t.d.Full {
				copy(p[1:4], []byte{0, 0, 0}) // see known finding C20
			}
			bs = append(bs, ref.B(t.d.Name, p))
		}
		file := wrap(t.ctx, bs...)
		o := chooseOpts(x, []string{t.d.Name})
		x.Describe("%s in %+v %v", printable(t.d.Name), t.ctx, o.args())
		checkDump(x, ref.Parse(ref.Cat(file...)), o, shape(file))
	}
	sizes := func(x *mc.X) {
		type sized struct {
			typ string
			f   func(n int) []byte
		}
		list := []sized{
			{"mdat", func(n int) []byte { return bytes.Repeat([]byte{7}, n) }},
			{"free", func(n int) []byte { return bytes.Repeat([]byte{7}, n) }},
			{"zzzz", func(n int) []byte { return bytes.Repeat([]byte{7}, n) }},
			{"ftyp", func(n int) []byte {
				return append([]byte("isom\x00\x00\x00\x00"), bytes.Repeat([]byte("abcd"), n/4)...)
			}},
			{"stts", func(n int) []byte { return append(ref.Full(0, 0).U32(uint32(n/8)), make([]byte, n/8*8)...) }},
			{"stco", func(n int) []byte { return append(ref.Full(0, 0).U32(uint32(n/4)), make([]byte, n/4*4)...) }},
			{"sdtp", func(n int) []byte { return append(ref.Full(0, 0), make([]byte, n)...) }},
			{"hdlr", func(n int) []byte {
				return append(append(ref.Full(0, 0).U32(0).S("vide").Zero(12), bytes.Repeat([]byte{'n'}, n)...), 0)
			}},
			{"pssh", func(n int) []byte { return append(ref.Full(0, 0).Zero(16).U32(uint32(n)), make([]byte, n)...) }},
			{"avcC", func(n int) []byte {
				return append(ref.W{1, 77, 0, 30, 0xff, 0xe1}.U16(uint16(n)), append(make([]byte, n), 0)...)
			}},
		}
		k := list[x.Choose(len(list), "type")]
		n := []int{0, 1, 31, 40, 55, 56, 59, 60, 63, 64, 65, 72, 100, 160, 255, 256, 300, 5000, 140000}[x.Choose(19, "size")]
		in := x.Choose(2, "nested")
		bs := []*ref.Box{ref.B(k.typ, k.f(n)), ref.B("moov", nil)}
		if in == 1 {
			bs = []*ref.Box{ref.B("moov", nil, bs...)}
		}
		o := chooseOpts(x, []string{k.typ, "moov"})
		x.Describe("%s of %d %v", k.typ, n, o.args())
		checkDump(x, ref.Parse(ref.Cat(bs...)), o, fmt.Sprintf("%s of %d", k.typ, n))
	}
	// an mdat box of 5 GB in front of (and inside of the same file as) other boxes: only a sparse file
	huge := func(x *mc.X) {
		s := newSandbox(x, "dump")
		defer s.close()
		off := hugeFile(s, x)
		o := []dumpOpts{{}, {offset: true}, {offset: true, hex: true}}[x.Choose(3, "options")]
		r := s.run(append(append([]string{"dump"}, o.args()...), "in.mp4")...)
		x.Outcome(string(r.out))
		want := "[ftyp] Size=16"
		f := "%d"
		if o.hex {
			f = "0x%x"
		}
		want = ""
		line := func(ind int, typ string, at, size uint64, rest string) {
			want += strings.Repeat("  ", ind) + "[" + typ + "]"
			if o.offset {
				want += fmt.Sprintf(" Offset="+f, at)
			}
			want += fmt.Sprintf(" Size="+f, size) + rest + "\n"
		}
		line(0, "free", 0, 9, " Data=[...] (use \"-full free\" to show all)")
		line(0, "mdat", 9, off-9, " Data=[...] (use \"-full mdat\" to show all)")
		line(0, "moof", off, 24, "")
		line(1, "mfhd", off+8, 16, " Version=0 Flags=0x000000 SequenceNumber=7")
		if string(r.out) != want || r.code != 0 {
			x.Fail("dump:huge", "%v: exit %d, printed %s, expected %s", o.args(), r.code, clip(string(r.out)), clip(want))
		}
	}
	none := func(x *mc.X) {
		s := newSandbox(x, "dump")
		defer s.close()
		var r run
		switch x.Choose(4, "case") {
		case 0:
			r = s.run("dump", "missing.mp4")
			s.failed(r, "the file does not exist")
		case 1:
			os.Mkdir(s.path("d"), 0700)
			r = s.run("dump", "d")
			s.failed(r, "the file is a directory")
		case 2:
			r = s.run("dump")
			if r.code == 0 {
				x.Fail("dump:accepted", "exit status 0 without a file")
			}
		default:
			s.write("in.mp4", nil)
			r = s.run("dump", "in.mp4")
			if r.code != 0 || len(r.out) != 0 {
				x.Fail("dump:empty", "empty file: exit %d, %q", r.code, r.out)
			}
		}
	}
	codes := func(x *mc.X) { // every byte in every place of a type
		at := x.Choose(4, "place")
		base := []string{"aaaa", "ZZZZ", "\xa9\xa9\xa9\xa9", "\x00\x00\x00\x00", "a\xa9\x01~", "\x1f \x7f-"}[x.Choose(6, "base")]
		var bs []*ref.Box
		for c := 0; c < 256; c++ {
			t := []byte(base)
			t[at] = byte(c)
			if string(t) != "\x00\x00\x00\x00" {
				bs = append(bs, ref.B(string(t), []byte{1, 2}))
			}
		}
		if x.Choose(2, "nested") == 1 {
			bs = []*ref.Box{ref.B("moov", nil, bs...)}
		}
		o := []dumpOpts{{}, {all: true}, {full: []string{"(c)aaa", "0x00616161", "aaaa", "0x5a7f5a5a"}}}[x.Choose(3, "options")]
		x.Describe("types like %q, byte %d, %v", base, at, o.args())
		checkDump(x, ref.Parse(ref.Cat(bs...)), o, "type codes")
	}
	ext := extents(depth(tier, 0, 1))
	large := func(x *mc.X) { // deep, wide and long files
		bs, marks := bulky(x, ext)
		o := []dumpOpts{{}, {all: true, mdat: true, free: true, offset: true}, {offset: true, hex: true}, {}}[x.Choose(4, "options")]
		if o.args() == nil && x.Choose(2, "full") == 1 {
			t := marks[len(marks)/2].Type
			if strings.ContainsAny(typeName(t), ",\x00") {
				x.Skip()
			}
			o.full = []string{"yyyy", typeName(t), "zzzz"}
		}
		x.Describe("%s %v", bulk(bs), o.args())
		checkDump(x, ref.Parse(ref.Cat(bs...)), o, bulk(bs))
	}
	list := []string{"free", "mdat", "skip", " zz ", "stco", "stts", "ftyp", "pssh", "\xa9xyz", "hdlr", "sdtp"}
	fulls := func(x *mc.X) { // every set of types to be shown in full
		set := x.Choose(1<<uint(len(list)), "types")
		var o dumpOpts
		for i, t := range list {
			if set>>uint(i)&1 == 1 {
				o.full = append(o.full, typeName(t))
			}
		}
		if x.Choose(2, "order") == 1 {
			for i, j := 0, len(o.full)-1; i < j; i, j = i+1, j-1 {
				o.full[i], o.full[j] = o.full[j], o.full[i]
			}
		}
		bs := []*ref.Box{
			ref.B("free", make([]byte, 70)), ref.B("mdat", make([]byte, 80)), ref.B("skip", make([]byte, 90)), ref.B(" zz ", make([]byte, 100)), ref.B("\xa9xyz", make([]byte, 100)),
			ref.B("stco", ref.Full(0, 0).U32(40).Fill(160, 3)), ref.B("stts", ref.Full(0, 0).U32(40).Fill(320, 4)),
			ref.B("ftyp", append([]byte("isom\x00\x00\x00\x00"), bytes.Repeat([]byte("abcd"), 60)...)), ref.B("pssh", ref.Full(0, 0).Zero(16).U32(80).Fill(80, 5)),
			ref.B("hdlr", append(append(ref.Full(0, 0).U32(0).S("vide").Zero(12), bytes.Repeat([]byte{'n'}, 120)...), 0)), ref.B("sdtp", append(ref.Full(0, 0), make([]byte, 90)...)),
		}
		x.Describe("%v", o.args())
		checkDump(x, ref.Parse(ref.Cat(append(bs, ref.B("moov", nil, bs...))...)), o, "boxes of eleven types")
	}
	return []*mc.Unit{
		{Name: "no-file", Body: none},
		{Name: "bulky", Weight: 2, Body: large},
		{Name: "full-lists", Weight: 2, Body: fulls},
		{Name: "types", Body: types},
		{Name: "type-codes", Body: codes},
		{Name: "sizes", Body: sizes},
		{Name: "huge", Body: huge},
		{Name: "header-forms", Bound: 1, Body: forms},
		{Name: "types-in-forms", Body: inForms},
		{Name: "malformed", Weight: 2, Body: malformed},
		{Name: "trees", Weight: 4, Body: trees},
	}
}

func countBoxes(bs []*ref.Box) int {
	n := len(bs)
	for _, b := range bs {
		n += countBoxes(b.Kids)
	}
	return n
}

// hugeFile writes a sparse file with an mdat box of more than 4 GB followed by a moof box; it returns the offset of the latter.
func hugeFile(s *sandbox, x *mc.X) uint64 {
	size := []uint64{1<<32 + 5, 5<<30 + 3}[x.Choose(2, "size")]
	f, err := os.Create(s.path("in.mp4"))
	if err != nil {
		panic("mc: " + err.Error())
	}
	defer f.Close()
	head := append(ref.B("free", []byte{1}).Bytes(), ref.W{0, 0, 0, 1}.S("mdat").U64(size)...)
	f.Write(head)
	off := 9 + size
	if _, err := f.WriteAt(ref.B("moof", nil, ref.B("mfhd", ref.Full(0, 0).U32(7))).Bytes(), int64(off)); err != nil {
		x.Skip() // no room for sparse files here
	}
	return off
}
