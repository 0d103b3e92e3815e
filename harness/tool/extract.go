//go:build go1.22

package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"

	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

// vague tells that a box is wrong in a way that leaves the outcome open.
func vague(n *ref.Node) bool {
	return n.Def != nil && (n.Def.Full && n.Size < n.Hdr+4 || n.Dec.Err == ref.ErrVersion && n.Beyond)
}

// bytesOf gives the bytes of a box as far as they exist.
func bytesOf(f *ref.File, n *ref.Node) []byte {
	if n.Beyond || n.Off+n.Size > uint64(len(f.Data)) {
		return f.Data[n.Off:]
	}
	return f.Data[n.Off : n.Off+n.Size]
}

// extractRef gives what the boxes of the type consist of.
func extractRef(f *ref.File, typ string) (out []byte, err error, open bool) {
	cut := false
	err, open = visitAll(f, func(n *ref.Node) bool {
		if cut {
			return false
		}
		if n.Type == typ {
			out = append(out, bytesOf(f, n)...)
			if n.Beyond {
				cut = true
				return false
			}
		}
		if n.Def == nil || n.Dec.Err == ref.ErrVersion && !vague(n) {
			return false
		}
		if vague(n) {
			open = true
		}
		if n.Size >= 256 && leafTypes[n.Type] {
			if n.Dec.Err != nil || n.ChildErr != nil || len(n.Children) > 0 {
				open = true
			}
			return false
		}
		return true
	})
	if cut {
		err = ref.ErrShort
	}
	return
}

func checkExtract(x *mc.X, f *ref.File, typ, what string) {
	s := newSandbox(x, "extract")
	defer s.close()
	s.write("in.mp4", f.Data)
	judgeExtract(s, f, typ, what)
}

func judgeExtract(s *sandbox, f *ref.File, typ, what string) {
	x := s.x
	args := []string{"extract", typ, "in.mp4"}
	if typ[0] == '-' {
		args = []string{"extract", "--", typ, "in.mp4"}
	}
	open := false
	ref.Walk(f.Top, func(n *ref.Node) { open = open || vague(n) })
	r := s.run(args...)
	want, err, o := extractRef(f, typ)
	open = open || o
	x.State(f.Data, typ)
	x.Outcome(string(r.out), r.code)
	if open {
		return
	}
	if r.code != 0 {
		if err == nil {
			x.Fail("extract:error", "%s from %s: exit %d: %s", printable(typ), what, r.code, clip(string(r.out)+r.errs))
		}
		s.failed(r, "")
		got := r.out
		if i := bytes.LastIndex(got, []byte("Error")); i >= 0 {
			got = got[:i]
		}
		if !bytes.HasPrefix(want, got) {
			x.Fail("extract:wrong", "%s from %s: printed %s before the error, expected %s", printable(typ), what, clip(string(got)), clip(string(want)))
		}
		return
	}
	if err != nil {
		x.Fail("extract:accepted", "%s from %s: exit status 0 although %v", printable(typ), what, err)
	}
	if !bytes.Equal(r.out, want) {
		x.Fail("extract:wrong", "%s from %s: %s, expected %s", printable(typ), what, clip(string(r.out)), clip(string(want)))
	}
}

// psshRef is the text that is printed for the protection boxes of the file.
func psshRef(f *ref.File) (out string, err error, open bool) {
	i := 0
	err, open = visitAll(f, func(n *ref.Node) bool {
		if n.Parent == nil {
			return n.Type == "moov" || n.Type == "moof"
		}
		if n.Type != "pssh" || len(n.Path) != 2 {
			return false
		}
		if n.Dec.Err != nil || n.Beyond || n.Unspecified() {
			return true
		}
		v := n.Dec.Val
		id := ""
		for k, b := range f.Payload(n)[4:20] {
			if k == 4 || k == 6 || k == 8 || k == 10 {
				id += "-"
			}
			id += fmt.Sprintf("%02x", b)
		}
		out += fmt.Sprintf("%d:\n  offset: %d\n  size: %d\n  version: %d\n  flags: 0x%06x\n  systemId: %s\n  dataSize: %d\n  base64: \"%s\"\n\n",
			i, n.Off, n.Size, f.Payload(n)[0], uint32(f.Payload(n)[1])<<16|uint32(f.Payload(n)[2])<<8|uint32(f.Payload(n)[3]), id, v.S("DataSize"),
			base64.StdEncoding.EncodeToString(bytesOf(f, n)))
		i++
		return false
	})
	return
}

func checkPssh(x *mc.X, f *ref.File, what string) {
	s := newSandbox(x, "pssh")
	defer s.close()
	s.write("in.mp4", f.Data)
	open := false
	ref.Walk(f.Top, func(n *ref.Node) { open = open || vague(n) })
	r := s.run("psshdump", "in.mp4")
	want, err, o := psshRef(f)
	x.State(f.Data)
	x.Outcome(string(r.out), r.code)
	if open || o {
		return
	}
	if r.code != 0 {
		if err == nil {
			x.Fail("pssh:error", "%s: exit %d: %s", what, r.code, clip(string(r.out)+r.errs))
		}
		s.failed(r, "")
		return
	}
	if err != nil {
		x.Fail("pssh:accepted", "%s: exit status 0 although %v", what, err)
	}
	if string(r.out) != want {
		x.Fail("pssh:wrong", "%s: %s, expected %s", what, clip(string(r.out)), clip(want))
	}
}

// psshKinds are protection boxes.
func psshKinds() []kind {
	p := func(name string, b []byte) kind { return kind{name, "pssh", false, fixed(b...)} }
	id := func(w ref.W) ref.W {
		for i := byte(0); i < 16; i++ {
			w = append(w, 0xf0-i*13)
		}
		return w
	}
	return []kind{
		container("moov"), container("moof"),
		p("pssh-0", id(ref.Full(0, 0)).U32(0)),
		p("pssh-data", id(ref.Full(0, 0x10203)).U32(5).U8(1, 2, 3, 0xff, 0)),
		p("pssh-kid", id(id(ref.Full(1, 0)).U32(1)).U32(1).U8(9)),
		p("pssh-kids", id(id(id(ref.Full(1, 0xffffff)).U32(2))).U32(2).U8(9, 8)),
		container("trak"), raw("zzzz", 1, 2, 3),
	}
}

func c27(tier string) []*mc.Unit {
	ks := append(dumpKinds(), leaf("pssh"), raw("----", 3, 4))
	request := func(x *mc.X, bs []*ref.Box) string {
		ts := append(typesOf(bs), "yyyy", "trak")
		return ts[x.Choose(len(ts), "type")]
	}
	trees := func(x *mc.X) {
		g := &growth{x: x, kinds: ks, left: depth(tier, 3, 4)}
		bs := g.level(ref.Ctx{}, true)
		typ := request(x, bs)
		if bytes.IndexByte([]byte(typ), 0) >= 0 {
			x.Skip() // cannot be an argument
		}
		if n := countBoxes(bs); n < 3 {
			toEOF(bs, x.Choose(2, "to the end of the file"))
		}
		x.Describe("%s of %s", printable(typ), shape(bs))
		checkExtract(x, ref.Parse(ref.Cat(bs...)), typ, shape(bs))
	}
	small := []kind{ks[0], ks[1], ks[2], ks[3], ks[5], ks[7], ks[9], ks[10]}
	nested := func(x *mc.X) {
		g := &growth{x: x, kinds: []kind{container("moov"), container("trak"), raw("zzzz", 0, 0, 0, 8, 'm', 'o', 'o', 'v'), raw("free", 0, 0, 0, 8, 't', 'r', 'a', 'k')}, left: depth(tier, 4, 5), forms: true}
		bs := g.grow()
		typ := []string{"moov", "trak", "zzzz", "free"}[x.Choose(4, "type")]
		x.Describe("%s of %s", typ, shape(bs))
		checkExtract(x, ref.Parse(ref.Cat(bs...)), typ, shape(bs))
	}
	malformed := func(x *mc.X) {
		g := &growth{x: x, kinds: small, left: depth(tier, 2, 3)}
		bs := g.level(ref.Ctx{}, true)
		corruptSize(x, bs)
		typ := request(x, bs)
		x.Describe("%s of %s", printable(typ), shape(bs))
		checkExtract(x, ref.Parse(ref.Cat(bs...)), typ, shape(bs))
	}
	ts := targets(nil)
	types := func(x *mc.X) {
		t := ts[x.Choose(len(ts), "type")]
		var bs []*ref.Box
		for v := 0; v < 6; v++ {
			_, p := ref.Generate(t.d, t.ctx, fixedChooser(v), false)
			bs = append(bs, ref.B(t.d.Name, p))
		}
		if bytes.IndexByte([]byte(t.d.Name), 0) >= 0 {
			x.Skip()
		}
		file := append(wrap(t.ctx, bs...), ref.B("zzzz", nil))
		typ := []string{t.d.Name, "zzzz"}[x.Choose(2, "which")]
		x.Describe("%s of %s in %+v", printable(typ), printable(t.d.Name), t.ctx)
		checkExtract(x, ref.Parse(ref.Cat(file...)), typ, shape(file))
	}
	inForms := func(x *mc.X) { // every type in every header form
		bs := typed(x, ts, depth(tier, 1, 8))
		typ := request(x, bs)
		if bytes.IndexByte([]byte(typ), 0) >= 0 {
			x.Skip() // cannot be an argument
		}
		x.Describe("%s of %s", printable(typ), shape(bs))
		checkExtract(x, ref.Parse(ref.Cat(bs...)), typ, shape(bs))
	}
	sizes := func(x *mc.X) {
		n := []int{0, 200, 247, 248, 249, 256, 1000, 131072 - 8, 131072, 300000, 1 << 20}[x.Choose(11, "size")]
		typ := []string{"mdat", "zzzz", "pssh", "stts", "ftyp", "udta"}[x.Choose(6, "type")]
		fill := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i ^ i>>8 ^ i>>16)
			}
			return b
		}
		var b *ref.Box
		switch typ {
		case "pssh":
			b = ref.B(typ, append(ref.Full(0, 0).Zero(16).U32(uint32(n)), fill(n)...))
		case "stts":
			b = ref.B(typ, append(ref.Full(0, 0).U32(uint32(n/8)), fill(n/8*8)...))
		case "ftyp":
			b = ref.B(typ, append([]byte("isom\x00\x00\x00\x00"), fill(n/4*4)...))
		case "udta":
			b = ref.B(typ, nil, ref.B("zzzz", fill(n)))
		default:
			b = ref.B(typ, fill(n))
		}
		bs := []*ref.Box{b, ref.B("free", fill(n/2)), ref.B("moov", nil, b, ref.B("free", []byte{1}))}
		req := []string{typ, "free", "moov"}[x.Choose(3, "which")]
		x.Describe("%s from %s of %d", req, typ, n)
		checkExtract(x, ref.Parse(ref.Cat(bs...)), req, fmt.Sprintf("%s of %d", typ, n))
	}
	// only the listing of protection boxes gets by without reading what is in between
	huge := func(x *mc.X) {
		s := newSandbox(x, "pssh")
		defer s.close()
		off := hugeFile(s, x)
		box := ref.B("pssh", ref.Full(0, 0).Fill(16, 0x5a).U32(2).U8(1, 2))
		n := 1 + x.Choose(2, "boxes")
		tail := ref.B("moof", nil, ref.B("mfhd", ref.Full(0, 0).U32(7)), box)
		if n == 2 {
			tail.Kids = append(tail.Kids, box)
		}
		f, err := os.OpenFile(s.path("in.mp4"), os.O_WRONLY, 0)
		if err != nil {
			panic("mc: " + err.Error())
		}
		defer f.Close()
		if _, err := f.WriteAt(tail.Bytes(), int64(off)); err != nil {
			x.Skip()
		}
		r := s.run("psshdump", "in.mp4")
		x.Outcome(string(r.out))
		at := func(i int) bool {
			return bytes.Contains(r.out, []byte(fmt.Sprintf("%d:\n  offset: %d\n  size: 34\n", i, off+24+uint64(34*i))))
		}
		if r.code != 0 || !at(0) || at(1) != (n == 2) || bytes.Count(r.out, []byte(base64.StdEncoding.EncodeToString(box.Bytes()))) != n {
			x.Fail("pssh:huge", "exit %d, printed %s for boxes at %d", r.code, clip(string(r.out)), off+24)
		}
	}
	none := func(x *mc.X) {
		tool := []string{"extract", "psshdump"}[x.Choose(2, "tool")]
		s := newSandbox(x, tool)
		defer s.close()
		args := []string{tool}
		if tool == "extract" {
			args = append(args, "moov")
		}
		switch x.Choose(6, "case") {
		case 0:
			s.failed(s.run(append(args, "missing.mp4")...), "the file does not exist")
		case 1:
			os.Mkdir(s.path("d"), 0700)
			s.failed(s.run(append(args, "d")...), "the file is a directory")
		case 2:
			if r := s.run(args...); r.code == 0 {
				x.Fail(tool+":accepted", "exit status 0 without a file")
			}
		case 3:
			s.write("in.mp4", nil)
			if r := s.run(append(args, "in.mp4")...); r.code != 0 || len(r.out) != 0 {
				x.Fail(tool+":empty", "empty file: exit %d, %q", r.code, r.out)
			}
		default:
			if tool != "extract" {
				x.Skip()
			}
			s.write("in.mp4", ref.B("moov", nil).Bytes())
			t := []string{"", "moo", "moovx", "moof/mfhd"}[x.Choose(4, "type")]
			if r := s.run("extract", t, "in.mp4"); r.code == 0 || bytes.Contains(r.out, []byte("moov\x00")) {
				x.Fail("extract:accepted", "type %q: exit %d, %q", t, r.code, r.out)
			}
		}
	}
	pk := psshKinds()
	pssh := func(x *mc.X) {
		g := &growth{x: x, kinds: pk, left: depth(tier, 3, 4), forms: true}
		bs := g.grow()
		x.Describe("%s", shape(bs))
		checkPssh(x, ref.Parse(ref.Cat(bs...)), shape(bs))
	}
	psshBig := func(x *mc.X) {
		n := []int{0, 1, 255, 500, 992, 1023, 1024, 2048, 4096, 5000, 20000, 200000}[x.Choose(12, "size")]
		pad := []int{0, 1000, 5000, 100000}[x.Choose(4, "padding")]
		p := func(k byte) *ref.Box {
			return ref.B("pssh", ref.Full(0, uint32(k)).Fill(16, k).U32(uint32(n)).Fill(n, k))
		}
		bs := []*ref.Box{ref.B("free", make([]byte, pad)), ref.B("moov", nil, p(1), ref.B("free", make([]byte, pad)), p(2)), ref.B("mdat", make([]byte, pad)), ref.B("moof", nil, p(3))}
		x.Describe("%d bytes of data, %d in between", n, pad)
		checkPssh(x, ref.Parse(ref.Cat(bs...)), fmt.Sprintf("%d bytes of data, %d in between", n, pad))
	}
	psshBad := func(x *mc.X) {
		ks := append(pk, kind{"pssh-2", "pssh", false, fixed(2, 0, 0, 0, 1, 2, 3, 4)}, kind{"pssh-short", "pssh", false, fixed(0, 0, 0, 0, 1, 2, 3, 4)},
			kind{"pssh-long", "pssh", false, fixed(append(ref.Full(0, 0).Zero(16).U32(9), 1)...)},
			kind{"pssh-many", "pssh", false, fixed(append(ref.Full(1, 0).Zero(16).U32(0xffffffff), 1)...)})
		g := &growth{x: x, kinds: ks, left: depth(tier, 2, 3)}
		bs := g.level(ref.Ctx{}, true)
		if x.Choose(2, "corrupt") == 1 {
			corruptSize(x, bs)
		}
		x.Describe("%s", shape(bs))
		checkPssh(x, ref.Parse(ref.Cat(bs...)), shape(bs))
	}
	ext := extents(depth(tier, 0, 1))
	large := func(x *mc.X) { // deep, wide and long files
		bs, marks := bulky(x, ext)
		ts := []string{"zzzz", "free", "data", "moov"}
		seen := map[string]bool{"zzzz": true, "free": true, "data": true, "moov": true}
		for _, b := range marks {
			if !seen[b.Type] && bytes.IndexByte([]byte(b.Type), 0) < 0 {
				seen[b.Type] = true
				ts = append(ts, b.Type)
			}
		}
		typ := ts[x.Choose(len(ts), "type")]
		f := ref.Parse(ref.Cat(bs...))
		n := uint64(0)
		ref.Walk(f.Top, func(b *ref.Node) {
			if b.Type == typ {
				n += b.Size
			}
		})
		if n > 64<<20 {
			x.Skip()
		}
		x.Describe("%s from %s", printable(typ), bulk(bs))
		checkExtract(x, f, typ, bulk(bs))
	}
	full := func(x *mc.X) { // an output without enough room
		var bs []*ref.Box
		for i := 0; i < 3; i++ {
			bs = append(bs, ref.B("moov", nil, ref.B("trak", nil, ref.B("udta", nil)), ref.B("free", []byte{1, 2, byte(i)})), ref.B("mdat", ref.W{}.Fill(100*i, 7)))
		}
		fullOutput(x, "extract", ref.Cat(bs...), "extract", []string{"moov", "free", "udta", "mdat"}[x.Choose(4, "type")], "in.mp4")
	}
	psshMany := func(x *mc.X) {
		n := []int{5, 9, 10, 11, 16, 17, 33, 64, 65, 99, 100, 101, 129, 255, 256, 257, 300, 513, 1001, 1025, 4097}[x.Choose(21, "boxes")]
		ids := []int{0, 1, 2, 5, 17, 255, 256, 257, 1000}[x.Choose(9, "key ids")]
		if n*ids > 65536 {
			x.Skip()
		}
		where := x.Choose(4, "where")
		alike := x.Choose(4, "alike")
		if alike > 0 && n > 17 {
			x.Skip()
		}
		var bs []*ref.Box
		var kids [2][]*ref.Box
		for i := 0; i < n; i++ {
			k := i
			if alike == 3 {
				k = 0
			}
			w := ref.Full(byte(0), uint32(k)).U64(uint64(k)).U64(uint64(k * 5))
			if ids > 0 {
				w[0] = 1
				w = w.U32(uint32(ids)).Fill(16*ids, byte(k))
			}
			switch alike { // data that is the same in all, or almost
			case 0:
				w = w.U32(uint32(i%7)).Fill(i%7, byte(i))
			case 1:
				w = w.U32(150).Fill(150, 5)
			case 2:
				w = w.U32(70).Fill(69, 5).U8(byte(i / 2))
			case 3:
				w = w.U32(100).Fill(100, 5)
			}
			b := ref.B("pssh", w)
			switch where {
			case 0:
				kids[0] = append(kids[0], b)
			case 1:
				kids[1] = append(kids[1], ref.B("zzzz", []byte{byte(i)}), b)
			case 2: // in turns
				kids[i%2] = append(kids[i%2], b)
			case 3: // each in a fragment of its own
				bs = append(bs, ref.B("moof", nil, b), ref.B("mdat", []byte{byte(i)}))
			}
		}
		bs = append(bs, ref.B("moov", nil, kids[0]...), ref.B("free", nil), ref.B("moof", nil, kids[1]...))
		x.Describe("%d protection boxes of %d key ids, arrangement %d", n, ids, where)
		checkPssh(x, ref.Parse(ref.Cat(bs...)), fmt.Sprintf("%d protection boxes of %d key ids, arrangement %d", n, ids, where))
	}
	return []*mc.Unit{
		{Name: "no-file", Body: none},
		{Name: "full-output", Body: full},
		{Name: "bulky", Weight: 2, Body: large},
		{Name: "pssh-many", Body: psshMany},
		{Name: "types", Body: types},
		{Name: "types-in-forms", Weight: 5, Body: inForms},
		{Name: "sizes", Body: sizes},
		{Name: "huge", Body: huge},
		{Name: "pssh-sizes", Body: psshBig},
		{Name: "pssh-malformed", Weight: 2, Body: psshBad},
		{Name: "pssh", Bound: 1, Weight: 3, Body: pssh},
		{Name: "malformed", Weight: 2, Body: malformed},
		{Name: "nested", Bound: 1, Weight: 3, Body: nested},
		{Name: "trees", Weight: 4, Body: trees},
	}
}
