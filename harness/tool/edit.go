//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

type editOpts struct {
	drop  []string // types
	value *uint64
}

func (o editOpts) args() (out []string) {
	if len(o.drop) > 0 {
		var d []string
		for _, t := range o.drop {
			d = append(d, typeName(t))
		}
		out = append(out, "-drop", strings.Join(d, ","))
	}
	if o.value != nil {
		out = append(out, "-base_media_decode_time", strconv.FormatUint(*o.value, 10))
	}
	return
}

func (o editOpts) drops(t string) bool {
	for _, d := range o.drop {
		if typeName(d) == typeName(t) {
			return true
		}
	}
	return false
}

// editRef gives the edited file.
func editRef(f *ref.File, o editOpts) (out []byte, err error, open bool) {
	var level func(ns []*ref.Node, end error) []byte
	level = func(ns []*ref.Node, end error) (out []byte) {
		for _, n := range ns {
			if o.drops(n.Type) {
				continue
			}
			if n.Def == nil || n.Type == "mdat" {
				if n.Beyond {
					err = ref.ErrShort
				}
				out = append(out, bytesOf(f, n)...)
				continue
			}
			if n.Unspecified() {
				open = true
				return
			}
			if n.Dec.Err != nil || n.Beyond {
				err = ref.ErrShort
				return
			}
			p := f.Payload(n)
			used := uint64(len(p))
			if len(n.Children) > 0 {
				used = n.Children[0].Off - n.Off - n.Hdr
			}
			b := &ref.Box{Type: n.Type, Fields: append([]byte(nil), p[:used]...)}
			if e, encErr := ref.Encode(n.Def, n.Ctx, n.Dec.Val); encErr != nil || !bytes.Equal(e, b.Fields) {
				open = true // not in canonical form
			}
			switch {
			case n.EOF:
				b.Form = ref.ToEOF
			case n.Hdr == 16:
				b.Form = ref.Large
			}
			if n.Type == "tfdt" && o.value != nil && *o.value != math.MaxUint64 {
				if b.Fields[0] == 0 {
					if *o.value > math.MaxUint32 {
						err = ref.ErrShort
						return
					}
					binary.BigEndian.PutUint32(b.Fields[4:], uint32(*o.value))
				} else {
					binary.BigEndian.PutUint64(b.Fields[4:], *o.value)
				}
			}
			b.Trail = level(n.Children, n.ChildErr)
			if err != nil || open {
				return
			}
			out = append(out, b.Bytes()...)
		}
		if end != nil {
			err = end
		}
		return
	}
	out = level(f.Top, f.Err)
	if f.Tail {
		open = true
	}
	return
}

func checkEdit(x *mc.X, f *ref.File, o editOpts, what string) {
	s := newSandbox(x, "edit")
	defer s.close()
	s.write("in.mp4", f.Data)
	s.write("out.mp4", []byte("left over from before, and longer than what is written now"))
	open := false
	ref.Walk(f.Top, func(n *ref.Node) { open = open || vague(n) })
	r := s.run(append(append([]string{"alpha", "edit"}, o.args()...), "in.mp4", "out.mp4")...)
	if !bytes.Equal(s.read("in.mp4"), f.Data) {
		x.Fail("edit:input", "%s %v: the input file was changed", what, o.args())
	}
	want, err, op := editRef(f, o)
	got := s.read("out.mp4")
	x.State(f.Data, strings.Join(o.args(), " "))
	x.Outcome(string(got), r.code)
	if r.code != 0 {
		if err == nil && !op && !open {
			x.Fail("edit:error", "%s %v: exit %d: %s", what, o.args(), r.code, clip(string(r.out)+r.errs))
		}
		s.failed(r, "")
		return
	}
	if op || open {
		return
	}
	if err != nil {
		x.Fail("edit:accepted", "%s %v: exit status 0 although %v", what, o.args(), err)
	}
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		from := i - 20
		if from < 0 {
			from = 0
		}
		x.Fail("edit:wrong", "%s %v: the result (%d bytes) differs from what is expected (%d bytes) at %d: %x, expected %x", what, o.args(),
			len(got), len(want), i, clipBytes(got, from), clipBytes(want, from))
	}
}

func clipBytes(b []byte, from int) []byte {
	b = b[from:]
	if len(b) > 60 {
		b = b[:60]
	}
	return b
}

func c24(tier string) []*mc.Unit {
	tfdt := func(v byte) kind {
		if v == 0 {
			return kind{"tfdt-0", "tfdt", false, fixed(0, 0, 0, 0, 0x11, 0x22, 0x33, 0x44)}
		}
		return kind{"tfdt-1", "tfdt", false, fixed(1, 0, 0, 0, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88)}
	}
	base := []kind{
		container("moov"), container("trak"), raw("free", 1, 2, 3), raw("mdat", 0, 0, 0, 8, 'm', 'o', 'o', 'v'), raw("zzzz", 0, 0, 0, 8, 't', 'r', 'a', 'k'),
		raw("mfhd", 0, 0, 0, 1, 0, 0, 0, 5), ftypIso, stsd, mp4a, metaISO,
		raw("\x00\xff\x01\xa9", 5), container("udta"), raw("\xa9nam", 0, 1, 0x15, 0xc7, 'x'), tfdt(0),
		raw("hdlr", append(append([]byte{0, 0, 0, 0, 0, 0, 0, 0}, "vide"...), append(make([]byte, 12), 'n', 0)...)...),
	}
	choose := func(x *mc.X, bs []*ref.Box) (o editOpts) {
		ts := append(typesOf(bs), "yyyy")
		for i := 0; i < len(ts); i++ {
			// a type that cannot be told from another, or cut in two by a comma, cannot be asked for
			if strings.ContainsAny(typeName(ts[i]), ",\x00") {
				ts = append(ts[:i], ts[i+1:]...)
				i--
			}
		}
		c := x.Choose(1+len(ts)+len(ts)*(len(ts)-1)/2, "drop")
		switch {
		case c == 0:
		case c <= len(ts):
			o.drop = []string{ts[c-1]}
		default:
			c -= len(ts) + 1
			for i := range ts {
				if c < len(ts)-1-i {
					o.drop = []string{ts[i], ts[i+1+c]}
					break
				}
				c -= len(ts) - 1 - i
			}
		}
		return
	}
	trees := func(x *mc.X) {
		g := &growth{x: x, kinds: base, left: depth(tier, 3, 4)}
		bs := g.level(ref.Ctx{}, true)
		o := choose(x, bs)
		if n := countBoxes(bs); n < 3 {
			toEOF(bs, x.Choose(2, "to the end of the file"))
		}
		x.Describe("%s %v", shape(bs), o.args())
		checkEdit(x, ref.Parse(ref.Cat(bs...)), o, shape(bs))
	}
	deep := func(x *mc.X) {
		g := &growth{x: x, kinds: []kind{container("moov"), container("trak"), base[2], base[4]}, left: depth(tier, 3, 4), forms: true}
		bs := g.grow()
		o := choose(x, bs)
		x.Describe("%s %v", shape(bs), o.args())
		checkEdit(x, ref.Parse(ref.Cat(bs...)), o, shape(bs))
	}
	times := func(x *mc.X) {
		g := &growth{x: x, kinds: []kind{container("moof"), container("traf"), tfdt(0), tfdt(1), {"tfdt-none", "tfdt", false, fixed(make([]byte, 8)...)}, {"tfdt-none", "tfdt", false, fixed(append([]byte{1}, make([]byte, 11)...)...)}, raw("mfhd", 0, 0, 0, 1, 0, 0, 0, 5), raw("zzzz", 0, 0, 0, 16, 't', 'f', 'd', 't', 0, 0, 0, 0, 0, 0, 0, 0)}, left: depth(tier, 3, 4)}
		bs := g.level(ref.Ctx{}, true)
		vs := []uint64{0, 1, 0x11223344, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}
		v := vs[x.Choose(len(vs), "time")]
		o := editOpts{value: &v}
		if x.Choose(2, "drop") == 1 {
			o.drop = []string{"mfhd"}
		}
		x.Describe("%s %v", shape(bs), o.args())
		checkEdit(x, ref.Parse(ref.Cat(bs...)), o, shape(bs))
	}
	ts := targets(nil)
	types := func(x *mc.X) {
		t := ts[x.Choose(len(ts), "type")]
		v := x.Choose(8, "values")
		_, p := ref.Generate(t.d, t.ctx, fixedChooser(v), false)
		file := wrap(t.ctx, ref.B(t.d.Name, p), ref.B("zzzz", []byte{1}))
		var o editOpts
		if x.Choose(2, "drop") == 1 {
			o.drop = []string{"zzzz"}
		}
		x.Describe("%s in %+v, values %d %v", printable(t.d.Name), t.ctx, v, o.args())
		checkEdit(x, ref.Parse(ref.Cat(file...)), o, shape(file))
	}
	inForms := func(x *mc.X) { // every type in every header form
		bs := typed(x, ts, depth(tier, 1, 8))
		var o editOpts
		if x.Choose(2, "drop") == 1 {
			o.drop = []string{"mfhd"}
		}
		x.Describe("%s %v", shape(bs), o.args())
		checkEdit(x, ref.Parse(ref.Cat(bs...)), o, shape(bs))
	}
	malformed := func(x *mc.X) {
		g := &growth{x: x, kinds: append([]kind{{"mfhd-9", "mfhd", false, fixed(9, 0, 0, 0, 0, 0, 0, 5)}}, base[:7]...), left: depth(tier, 2, 3)}
		bs := g.level(ref.Ctx{}, true)
		if x.Choose(2, "corrupt") == 1 {
			corruptSize(x, bs)
		}
		var o editOpts
		if c := x.Choose(4, "drop"); c > 0 {
			o.drop = []string{[]string{"mfhd", "mdat", "trak"}[c-1]}
		}
		x.Describe("%s %v", shape(bs), o.args())
		checkEdit(x, ref.Parse(ref.Cat(bs...)), o, shape(bs))
	}
	sizes := func(x *mc.X) {
		n := []int{0, 1000, 131072 - 32, 131072 - 8, 131072, 300000, 1 << 20}[x.Choose(7, "size")]
		fill := make([]byte, n)
		for i := range fill {
			fill[i] = byte(i ^ i>>8 ^ i>>16)
		}
		var b *ref.Box
		switch x.Choose(4, "type") {
		case 0:
			b = ref.B("mdat", fill)
		case 1:
			b = ref.B("zzzz", fill)
		case 2:
			b = ref.B("free", fill)
		default:
			b = ref.B("stts", append(ref.Full(0, 0).U32(uint32(n/8)), fill[:n/8*8]...))
		}
		bs := []*ref.Box{ref.B("free", fill[:n/3]), ref.B("moov", nil, b, ref.B("mfhd", ref.Full(0, 0).U32(7)), b), b, ref.B("mfhd", ref.Full(0, 0).U32(7))}
		o := editOpts{drop: [][]string{nil, {"mfhd"}, {b.Type}}[x.Choose(3, "drop")]}
		x.Describe("%s of %d %v", b.Type, n, o.args())
		checkEdit(x, ref.Parse(ref.Cat(bs...)), o, fmt.Sprintf("%s of %d", b.Type, n))
	}
	huge := func(x *mc.X) {
		s := newSandbox(x, "edit")
		defer s.close()
		hugeFile(s, x)
		r := s.run("alpha", "edit", "-drop", "mdat", "in.mp4", "out.mp4")
		want := ref.Cat(ref.B("free", []byte{1}), ref.B("moof", nil, ref.B("mfhd", ref.Full(0, 0).U32(7))))
		got := s.read("out.mp4")
		x.Outcome(string(got))
		if r.code != 0 || !bytes.Equal(got, want) {
			x.Fail("edit:huge", "exit %d: %x, expected %x", r.code, got, want)
		}
	}
	none := func(x *mc.X) {
		s := newSandbox(x, "edit")
		defer s.close()
		data := ref.B("moov", nil).Bytes()
		s.write("in.mp4", data)
		switch x.Choose(7, "case") {
		case 0:
			s.failed(s.run("alpha", "edit", "missing.mp4", "out.mp4"), "the file does not exist")
		case 1:
			os.Mkdir(s.path("d"), 0700)
			s.failed(s.run("alpha", "edit", "d", "out.mp4"), "the input is a directory")
		case 2:
			os.Mkdir(s.path("d"), 0700)
			s.failed(s.run("alpha", "edit", "in.mp4", "d"), "the output is a directory")
		case 3:
			s.failed(s.run("alpha", "edit", "in.mp4", "no/out.mp4"), "the output is in no directory")
		case 4:
			if r := s.run("alpha", "edit", "in.mp4"); r.code == 0 {
				x.Fail("edit:accepted", "exit status 0 without an output file")
			}
		case 5:
			s.write("in.mp4", nil)
			if r := s.run("alpha", "edit", "in.mp4", "out.mp4"); r.code != 0 || len(s.read("out.mp4")) != 0 {
				x.Fail("edit:empty", "empty file: exit %d, %q", r.code, s.read("out.mp4"))
			}
		default:
			if _, err := os.Stat("/dev/full"); err != nil {
				x.Skip()
			}
			os.Symlink("/dev/full", s.path("out.mp4"))
			s.failed(s.run("alpha", "edit", "in.mp4", "out.mp4"), "nothing can be written")
		}
	}
	ext := extents(depth(tier, 0, 1))
	large := func(x *mc.X) { // deep, wide and long files
		bs, marks := bulky(x, ext)
		var o editOpts
		switch c := x.Choose(4, "edit"); c {
		case 1:
			o.drop = []string{"zzzz", "data"}
		case 2:
			o.drop = []string{"free"}
		case 3:
			t := marks[len(marks)/2].Type
			if strings.ContainsAny(typeName(t), ",\x00") {
				x.Skip()
			}
			o.drop = []string{t}
		}
		x.Describe("%s %v", bulk(bs), o.args())
		checkEdit(x, ref.Parse(ref.Cat(bs...)), o, bulk(bs))
	}
	full := func(x *mc.X) { // a disk without enough room
		var bs []*ref.Box
		form := x.Choose(2, "form")
		for i := 0; i < 3; i++ {
			bs = append(bs, ref.B("ftyp", []byte("isom\x00\x00\x00\x01avc1")), ref.B("moov", nil, ref.B("trak", nil, ref.B("zzzz", []byte{1, 2, 3}), ref.B("udta", nil))),
				ref.B("moof", nil, ref.B("traf", nil, ref.B("tfdt", ref.Full(1, 0).U64(9)))), ref.B("mdat", []byte{1, 2, 3, 4, 5, 6, 7}))
		}
		if form == 1 {
			bs[1].Form, bs[3].Form = 1, 1
		}
		var o editOpts
		if x.Choose(2, "drop") == 1 {
			o.drop = []string{"udta"}
		}
		fullDisk(x, "edit", 1, ref.Cat(bs[:[]int{4, 12, 1, 2}[x.Choose(4, "boxes")]]...), "out.mp4", append(append([]string{"alpha", "edit"}, o.args()...), "in.mp4", "out.mp4")...)
	}
	list := []string{"mfhd", "mdat", "free", "zzzz", "trak", "udta", "ftyp", "skip", "stco", "\x00\xff\x01\xa9", "\xa9nam", "moov"}
	drops := func(x *mc.X) { // every set of a dozen types, in any of some orders
		set := x.Choose(1<<uint(len(list)), "types")
		var o editOpts
		for i, t := range list {
			if set>>uint(i)&1 == 1 {
				o.drop = append(o.drop, t)
			}
		}
		switch x.Choose(3, "order") {
		case 1:
			for i, j := 0, len(o.drop)-1; i < j; i, j = i+1, j-1 {
				o.drop[i], o.drop[j] = o.drop[j], o.drop[i]
			}
		case 2:
			o.drop = append(append(append([]string{}, o.drop...), "yyyy"), o.drop...)
		}
		leaves := func(k byte) (out []*ref.Box) {
			stco := ref.B("stco", ref.Full(0, 0).U32(1).U32(uint32(k)))
			return []*ref.Box{ref.B("mfhd", ref.Full(0, 0).U32(uint32(k))), ref.B("mdat", []byte{k}), ref.B("free", []byte{k, 1}), ref.B("zzzz", []byte{k, 2}), stco,
				ref.B("skip", []byte{k, 3}), ref.B("\x00\xff\x01\xa9", []byte{k, 4}), ref.B("\xa9nam", []byte{k, 5}), ref.B("ftyp", []byte("isom\x00\x00\x00\x01avc1"))}
		}
		bs := append(leaves(0), ref.B("moov", nil, append(leaves(1), ref.B("trak", nil, leaves(2)...), ref.B("udta", nil, leaves(3)...))...), ref.B("mfhd", ref.Full(0, 0).U32(9)), ref.B("moof", nil, leaves(4)...), ref.B("zzzz", nil))
		x.Describe("%v", o.args())
		checkEdit(x, ref.Parse(ref.Cat(bs...)), o, "boxes of a dozen types")
	}
	return []*mc.Unit{
		{Name: "no-file", Body: none},
		{Name: "full-disk", Body: full},
		{Name: "types", Body: types},
		{Name: "bulky", Weight: 2, Body: large},
		{Name: "drop-lists", Weight: 2, Body: drops},
		{Name: "sizes", Body: sizes},
		{Name: "huge", Body: huge},
		{Name: "malformed", Weight: 2, Body: malformed},
		{Name: "decode-times", Weight: 3, Body: times},
		{Name: "header-forms", Bound: 2, Weight: 3, Body: deep},
		{Name: "types-in-forms", Weight: 2, Body: inForms},
		{Name: "trees", Weight: 4, Body: trees},
	}
}
