//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

type target struct {
	d   *ref.Def
	ctx ref.Ctx
}

func targets(filter func(*ref.Def) bool) (out []target) {
	for _, d := range ref.AllDefs() {
		if filter != nil && !filter(d) {
			continue
		}
		for _, c := range d.Ctxs {
			out = append(out, target{d, c})
		}
	}
	return out
}

type devOnly struct{}

func (devOnly) Choose(int, string) int { return 0 }
func (devOnly) Dev(int, string) int    { return 0 }

type fixedChooser int

func (f fixedChooser) Choose(n int, _ string) int {
	if int(f) < n {
		return int(f)
	}
	return n - 1
}
func (fixedChooser) Dev(int, string) int { return 0 }

// ---- growing files

// kind is one sort of box that trees are made of.
type kind struct {
	name      string
	typ       string
	container bool
	fields    func(x *mc.X, ctx ref.Ctx) []byte
}

func fixed(b ...byte) func(*mc.X, ref.Ctx) []byte {
	return func(*mc.X, ref.Ctx) []byte { return b }
}

// fromLayout uses the default payload of the type in the context, or 4 bytes when it is not defined.
func fromLayout(typ string) func(*mc.X, ref.Ctx) []byte {
	return func(_ *mc.X, ctx ref.Ctx) []byte {
		d := ref.Lookup(typ, ctx)
		if d == nil {
			return []byte{0xde, 0xad, 0xbe, 0xef}
		}
		_, p := ref.Generate(d, ctx, devOnly{}, false)
		return p
	}
}

func container(typ string) kind { return kind{typ, typ, true, fixed()} }
func leaf(typ string) kind      { return kind{typ, typ, false, fromLayout(typ)} }
func raw(typ string, b ...byte) kind {
	return kind{typ, typ, false, fixed(b...)}
}

var ftypIso = kind{"ftyp", "ftyp", false, fixed([]byte("isom\x00\x00\x00\x01isomavc1")...)}
var ftypQT = kind{"ftyp-qt", "ftyp", false, fixed([]byte("qt  \x00\x00\x00\x01isomqt  ")...)}
var metaISO = kind{"meta", "meta", true, fixed(0, 0, 0, 0)}
var metaQT = kind{"meta-qt", "meta", true, fixed()}
var stsd = kind{"stsd", "stsd", true, fixed(0, 0, 0, 0, 0, 0, 0, 1)}
var mp4a = kind{"mp4a", "mp4a", true, fromLayout("mp4a")}
var mp4aV1 = kind{"mp4a-v1", "mp4a", true, func(_ *mc.X, ctx ref.Ctx) []byte {
	p := fromLayout("mp4a")(nil, ref.Ctx{})
	if ctx.Wave && ctx.QT {
		return fromLayout("mp4a")(nil, ctx)
	}
	p[8], p[9] = 0, 1
	if ctx.QT {
		p = append(p, bytes.Repeat([]byte{0x11}, 16)...)
	}
	return p
}}
var keys2 = kind{"keys", "keys", false, fixed(0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 9, 'm', 'd', 't', 'a', 'x', 0, 0, 0, 9, 'm', 'd', 't', 'a', 'y')}
var keys1 = kind{"keys-1", "keys", false, fixed(0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 9, 'm', 'd', 't', 'a', 'x')}

type growth struct {
	x     *mc.X
	kinds []kind
	left  int
	forms bool // header forms as deviations
	known bool // only types that are defined where they are put
}

func (g *growth) level(ctx ref.Ctx, root bool) []*ref.Box {
	var out []*ref.Box
	for g.left > 0 {
		c := g.x.Choose(len(g.kinds)+1, "box")
		if c == 0 {
			break
		}
		k := g.kinds[c-1]
		if g.known && ref.Lookup(k.typ, ctx) == nil {
			g.x.Skip()
		}
		g.left--
		if k.typ == "ftyp" && root && k.name == "ftyp-qt" {
			ctx.QT = true
		}
		b := &ref.Box{Type: k.typ, Fields: k.fields(g.x, ctx)}
		if k.typ == "keys" {
			ctx.Keys = int(binary.BigEndian.Uint32(b.Fields[4:]))
		}
		if g.forms {
			b.Form = g.x.Dev(2, "form")
		}
		if k.container {
			b.Kids = g.level(ref.Below(k.typ, ctx), false)
		}
		if k.name == "meta-qt" && len(b.Kids) == 0 {
			g.x.Skip()
		}
		out = append(out, b)
	}
	return out
}

// grow gives a file; with forms it may end in boxes that extend to the end of the file.
func (g *growth) grow() []*ref.Box {
	bs := g.level(ref.Ctx{}, true)
	if g.forms {
		n := 0
		for l := bs; len(l) > 0; l = l[len(l)-1].Kids {
			n++
		}
		toEOF(bs, g.x.Dev(n+1, "to the end of the file"))
	}
	return bs
}

// toEOF rewrites the last top-level box (and optionally the last below it) to extend to the end of the file.
func toEOF(bs []*ref.Box, levels int) {
	for i := 0; i < levels && len(bs) > 0; i++ {
		b := bs[len(bs)-1]
		b.Form = ref.ToEOF
		bs = b.Kids
	}
}

func shape(bs []*ref.Box) string {
	var s []string
	for _, b := range bs {
		t := printable(b.Type)
		switch b.Form {
		case ref.Large:
			t += "*64"
		case ref.ToEOF:
			t += "*eof"
		}
		if b.SizeField != nil {
			t += fmt.Sprintf("!%#x", *b.SizeField)
		}
		if len(b.Kids) > 0 {
			t += "(" + shape(b.Kids) + ")"
		}
		if len(b.Trail) > 0 {
			t += fmt.Sprintf("+%d", len(b.Trail))
		}
		s = append(s, t)
	}
	return strings.Join(s, " ")
}

// wrap puts a box in the context.
func wrap(c ref.Ctx, bs ...*ref.Box) []*ref.Box {
	out := bs
	switch {
	case c.Wave:
		out = []*ref.Box{ref.B("wave", nil, out...)}
	case c.IlstMeta:
		out = []*ref.Box{ref.B("ilst", nil, ref.B("\xa9nam", nil, out...))}
	case c.IlstFree:
		out = []*ref.Box{ref.B("ilst", nil, ref.B("----", nil, out...))}
	case c.Ilst:
		out = []*ref.Box{ref.B("ilst", nil, out...)}
	}
	if c.Udta {
		out = []*ref.Box{ref.B("udta", nil, out...)}
	}
	if c.Keys > 0 {
		w := ref.Full(0, 0).U32(uint32(c.Keys))
		for i := 0; i < c.Keys; i++ {
			w = w.U32(9).S("mdtax")
		}
		out = append([]*ref.Box{ref.B("keys", w)}, out...)
	}
	if c.QT {
		out = append([]*ref.Box{ref.B("ftyp", ref.W{}.S("qt  ").U32(0).S("qt  "))}, out...)
	}
	return out
}

// typed gives a file with a box of any type, in any header form, where the type is defined.
func typed(x *mc.X, ts []target, shapes int) []*ref.Box {
	t := ts[x.Choose(len(ts), "type")]
	form := x.Choose(3, "form")
	if form != ref.Compact {
		shapes = 1
	}
	obj, p := ref.Generate(t.d, t.ctx, fixedChooser(x.Choose(shapes, "values")), false)
	if obj.Vals["Flags"] != nil && !t.d.Full {
		copy(p[1:4], []byte{0, 0, 0}) // see known finding C20
	}
	b := ref.B(t.d.Name, p)
	b.Form = form
	if x.Choose(2, "child") == 1 {
		n := 3
		if t.d.Name == "ftyp" {
			n = 4 // whole brands
		}
		b.Kids = append(b.Kids, ref.B("free", []byte{1, 2, 3, 4}[:n]))
	}
	bs := []*ref.Box{b}
	switch x.Choose(3, "around") {
	case 1:
		bs = []*ref.Box{ref.B("free", []byte{4}), b}
	case 2:
		if form == ref.ToEOF {
			x.Skip()
		}
		bs = []*ref.Box{b, ref.B("free", []byte{5})}
	}
	bs = wrap(t.ctx, bs...)
	if x.Choose(2, "in moov") == 1 {
		k := 0
		if t.ctx.QT {
			k = 1
		}
		bs = append(bs[:k:k], ref.B("moov", nil, bs[k:]...))
	}
	return bs
}

// ---- bulky files

var chains = []struct {
	name  string
	types []string // repeated; the last is repeated when once is set
	once  bool
}{
	{"moov", []string{"moov"}, false},
	{"tracks", []string{"moov", "trak", "mdia", "minf", "stbl"}, false},
	{"meta", []string{"meta"}, false},
	{"udta", []string{"udta"}, false},
	{"wave", []string{"wave", "moov"}, false},
	{"items", []string{"moov", "udta", "meta", "ilst", "\xa9nam", "moov"}, true},
}

func chainType(c, i int) string {
	t := chains[c].types
	if chains[c].once {
		if i >= len(t) {
			i = len(t) - 1
		}
		return t[i]
	}
	return t[i%len(t)]
}

type extent struct {
	depths, widths, lengths []int
}

// extents of bulky files; the tables straddle the widths of small integers and common buffer sizes.
func extents(level int) extent {
	if level == 0 {
		return extent{
			depths:  []int{5, 8, 9, 12, 13, 16, 17, 32, 33, 64, 65, 129, 257},
			widths:  []int{8, 9, 16, 17, 33, 65, 129, 256, 257, 513, 1025, 4097},
			lengths: []int{256, 512, 513, 4096, 4097, 32769, 65535, 65536, 65537, 1<<20 + 1},
		}
	}
	e := extent{
		depths:  []int{5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 31, 32, 33, 34, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300},
		widths:  []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1025, 4095, 4097},
		lengths: []int{255, 256, 257, 511, 512, 513, 1023, 1025, 2047, 2049, 4080, 4088, 4096, 4097, 8191, 8193, 16385, 32767, 32768, 32769, 65527, 65528, 65535, 65536, 65537, 131073, 262145, 1<<20 - 8, 1 << 20, 1<<20 + 1},
	}
	if level == 2 {
		for d := 19; d <= 66; d++ {
			e.depths = append(e.depths, d)
		}
		for w := 5; w <= 300; w++ {
			e.widths = append(e.widths, w)
		}
		e.depths = append(e.depths, 301, 511, 513, 1000, 1025, 2000)
		e.widths = append(e.widths, 8193, 16385, 32769, 65535, 65537, 70000)
		e.lengths = append(e.lengths, 1<<21+1, 1<<22+1, 1<<24-8, 1<<24-1, 1<<24, 1<<24+1)
	}
	return e
}

// bulky gives a file that is deep, wide or long, with its boxes that are worth a closer look.
func bulky(x *mc.X, e extent) (bs, marks []*ref.Box) {
	var head []*ref.Box
	ctx := ref.Ctx{}
	brand := func() {
		if x.Choose(2, "brand") == 1 {
			ctx.QT = true
			head = []*ref.Box{ref.B("ftyp", ftypQT.fields(x, ref.Ctx{}))}
		}
	}
	small := func(i int) *ref.Box { return ref.B("free", []byte{1, 2, 3, 4, 5}[:i%5]) }
	switch x.Choose(3, "bulk") {
	case 0:
		c := x.Choose(len(chains), "chain")
		n := e.depths[x.Choose(len(e.depths), "depth")]
		brand()
		side := x.Choose(4, "siblings") // none, before, behind, around
		mark := map[int]bool{0: true, n / 2: true, n - 2: true, n - 1: true}
		var build func(i int, ctx ref.Ctx) *ref.Box
		build = func(i int, ctx ref.Ctx) *ref.Box {
			b := ref.B(chainType(c, i), nil)
			if b.Type == "meta" {
				b.Fields = []byte{0, 0, 0, 0}
			}
			if mark[i] {
				marks = append(marks, b)
			}
			if i == n-1 {
				return b
			}
			below := ref.Below(b.Type, ctx)
			if side&1 != 0 && b.Type != "ilst" {
				b.Kids = append(b.Kids, small(i))
			}
			b.Kids = append(b.Kids, build(i+1, below))
			if side&2 != 0 && b.Type != "ilst" {
				if i%2 == 0 {
					b.Kids = append(b.Kids, small(i))
				} else {
					b.Kids = append(b.Kids, ref.B("data", fromLayout("data")(x, below)))
				}
			}
			return b
		}
		bs = append(head, build(0, ctx))
		if side&2 != 0 {
			bs = append(bs, ref.B("data", []byte{0, 0, 0, 1, 0, 0, 0, 0}))
		}
	case 1:
		where := x.Choose(5, "where")
		n := e.widths[x.Choose(len(e.widths), "width")]
		brand()
		var kids []*ref.Box
		for i := 0; i < n; i++ {
			var b *ref.Box
			switch {
			case where == 3: // items by number, with a data box in each
				b = ref.B(string([]byte{0, byte((i + 1) >> 16), byte((i + 1) >> 8), byte(i + 1)}), []byte{0, 0, 0, 0, 'd', 'a', 't', 'a', 0, 0, 0, 1, 0, 0, 0, 0, byte(i)})
			case where == 4: // containers
				b = ref.B("trak", nil, small(i))
			case i%16 == 9:
				b = ref.B("zzzz", []byte{byte(i)})
			default:
				b = small(i)
			}
			if i == 0 || i == n/2 || i == n-1 {
				marks = append(marks, b)
			}
			kids = append(kids, b)
		}
		switch where {
		case 0:
			bs = append(head, kids...)
		case 1, 4:
			bs = append(head, ref.B("moov", nil, kids...), small(3))
		case 2:
			bs = append(head, ref.B("moov", nil, ref.B("udta", nil, kids...), small(1)))
		case 3:
			keys := make([]byte, 8, 8+8*n)
			binary.BigEndian.PutUint32(keys[4:], uint32(n))
			for i := 0; i < n; i++ {
				keys = append(keys, 0, 0, 0, 8, 'm', 'd', 't', 'a')
			}
			bs = append(head, ref.B("moov", nil, ref.B("meta", []byte{0, 0, 0, 0}, ref.B("keys", keys), ref.B("ilst", nil, kids...), small(1))))
		}
	default:
		t := []string{"free", "mdat", "zzzz", "\xa9nam"}[x.Choose(4, "type")]
		n := e.lengths[x.Choose(len(e.lengths), "length")]
		p := make([]byte, n)
		for i := range p {
			p[i] = byte(i*7 + i>>8)
		}
		b := ref.B(t, p)
		if t == "\xa9nam" { // unknown out of place
			b.Type = "zz\xa9z"
		}
		b.Form = x.Choose(3, "form")
		marks = []*ref.Box{b}
		bs = []*ref.Box{small(2), b}
		if b.Form != ref.ToEOF && x.Choose(2, "behind") == 1 {
			bs = append(bs, small(1), ref.B("free", []byte{6}))
		}
		if x.Choose(2, "inside") == 1 {
			bs = []*ref.Box{ref.B("moov", nil, bs...)}
			if b.Form != ref.ToEOF {
				bs = append(bs, small(4))
			}
		}
	}
	return bs, marks
}

// places gives the offset of every box.
func places(bs []*ref.Box) map[*ref.Box]uint64 {
	out := map[*ref.Box]uint64{}
	var visit func(bs []*ref.Box, off uint64)
	visit = func(bs []*ref.Box, off uint64) {
		for _, b := range bs {
			out[b] = off
			h := uint64(8)
			if b.Form == ref.Large {
				h = 16
			}
			visit(b.Kids, off+h+uint64(len(b.Fields)))
			off += b.Len()
		}
	}
	visit(bs, 0)
	return out
}

// bulk describes a bulky file without listing it.
func bulk(bs []*ref.Box) string {
	s := shape(bs)
	if len(s) > 300 {
		s = s[:200] + " ... " + s[len(s)-80:]
	}
	return s
}
