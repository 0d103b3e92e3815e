//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	mp4 "github.com/abema/go-mp4"
	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

// ---- C28

// flagOps are the values handed to the flag operations.
var flagVals = []uint32{0, 1, 0x800000, 0x000100, 0x010101, 0xffffff, 0x01000000, 0xffffffff, 0x80000000, 0x7fff00}

func c28(tier string) []*mc.Unit {
	ts := targets(func(d *ref.Def) bool { return true })
	// history runs n operations on a box and checks it against a 24-bit set after each.
	history := func(x *mc.X, b mp4.IBox, vals []uint32, n int, versions []byte, start uint32) {
		v := b.GetVersion()
		b.SetFlags(start)
		set := start & 0xffffff
		check := func(op string) {
			if got := b.GetFlags(); got != set {
				x.Fail("flags:value", "after %s the flags are %#x, read back as %#x", op, set, got)
			}
			if got := b.GetVersion(); got != v {
				x.Fail("flags:version", "after %s the version is %d, read back as %d", op, v, got)
			}
			for i := 0; i < 32; i++ {
				if got, want := b.CheckFlag(1<<uint(i)), i < 24 && set>>uint(i)&1 == 1; got != want {
					x.Fail("flags:query", "flags %#x: bit %d is reported as %v", set, i, got)
				}
			}
			for _, m := range vals {
				if got, want := b.CheckFlag(m), set&m != 0; got != want {
					x.Fail("flags:query-mask", "flags %#x: query %#x answers %v", set, m, got)
				}
			}
			x.State(b.GetType(), v, set)
		}
		check("the start")
		for k := 0; k < n; k++ {
			var op string
			c := x.Choose(3*len(vals)+len(versions)+1, "operation")
			if c == 0 {
				break
			}
			c--
			if c >= 3*len(vals) {
				v = versions[c-3*len(vals)]
				b.SetVersion(v)
				op = fmt.Sprintf("version %d", v)
			} else {
				f := vals[c/3]
				switch c % 3 {
				case 0:
					b.SetFlags(f)
					set = f & 0xffffff
					op = fmt.Sprintf("set %#x", f)
				case 1:
					b.AddFlag(f)
					set |= f & 0xffffff
					op = fmt.Sprintf("add %#x", f)
				case 2:
					b.RemoveFlag(f)
					set &^= f
					op = fmt.Sprintf("remove %#x", f)
				}
			}
			x.Describe("%s", op)
			check(op)
		}
		x.Outcome(set, v)
	}
	// header checks the encoded bytes.
	header := func(x *mc.X, b mp4.IBox, ctx mp4.Context) {
		var buf bytes.Buffer
		if _, err := mp4.Marshal(&buf, b, ctx); err != nil {
			x.Outcome("not encoded")
			return
		}
		f := b.GetFlags()
		want := []byte{b.GetVersion(), byte(f >> 16), byte(f >> 8), byte(f)}
		if buf.Len() < 4 || !bytes.Equal(buf.Bytes()[:4], want) {
			x.Fail("flags:header", "version %d and flags %#x were encoded as %x", b.GetVersion(), f, short(buf.Bytes()))
		}
	}
	deep := func(x *mc.X) {
		boxes := []mp4.IBox{&mp4.Mfhd{}, &mp4.Tkhd{}}
		b := boxes[x.Choose(len(boxes), "box")]
		history(x, b, flagVals, depth(tier, 3, 5), []byte{0, 1, 255}, 0)
		if b.GetVersion() == 0 {
			header(x, b, mp4.Context{})
		}
	}
	all := func(x *mc.X) { // the same on every type
		t := pick(x, ts)
		ctx := toCtx(t.ctx)
		b, err := btype(t.d.Name).New(ctx)
		if err != nil {
			x.Skip()
		}
		x.Describe("box %s", printable(t.d.Name))
		vers := t.d.Vers
		if !t.d.Full {
			// no version and flags: the operations change nothing
			var before bytes.Buffer
			n, err := mp4.Marshal(&before, b, ctx)
			b.SetFlags(0xffffff)
			b.AddFlag(1)
			b.RemoveFlag(2)
			var after bytes.Buffer
			n2, err2 := mp4.Marshal(&after, b, ctx)
			if n != n2 || (err == nil) != (err2 == nil) || !bytes.Equal(before.Bytes(), after.Bytes()) {
				x.Fail("flags:plain-box", "flag operations changed the encoding from %x to %x", short(before.Bytes()), short(after.Bytes()))
			}
			x.State("plain", t.d.Name)
			return
		}
		var v byte
		if len(vers) > 0 {
			v = byte(vers[x.Choose(len(vers), "version")])
		}
		b.SetVersion(v)
		history(x, b, []uint32{0x000001, 0x800000, 0x00ff00, 0x1000000}, 2, nil, []uint32{0, 0xffffff, 0x000f01}[x.Choose(3, "start")])
		header(x, b, ctx)
	}
	words := func(x *mc.X) { // every byte of the flags field at every value, and what is on the wire
		b := &mp4.Tfhd{}
		i := x.Choose(3, "byte")
		v := uint32(x.Choose(256, "value")) << (8 * uint(i))
		other := []uint32{0, 0xffffff, 0x5a5a5a}[x.Choose(3, "others")] &^ (0xff << (8 * uint(i)))
		b.SetVersion(byte(x.Choose(2, "version") * 255))
		b.SetFlags(v | other)
		x.State(v|other, b.Version)
		if b.Flags != [3]byte{byte((v | other) >> 16), byte((v | other) >> 8), byte(v | other)} || b.GetFlags() != v|other {
			x.Fail("flags:bytes", "flags %#x are held as %x", v|other, b.Flags)
		}
		w := &mp4.Mfhd{FullBox: mp4.FullBox{Version: 0, Flags: b.Flags}}
		header(x, w, mp4.Context{})
		var back mp4.Mfhd
		pl := append([]byte{0}, b.Flags[:]...)
		pl = append(pl, 0, 0, 0, 9)
		if _, err := mp4.Unmarshal(bytes.NewReader(pl), 8, &back, mp4.Context{}); err != nil || back.GetFlags() != v|other || back.SequenceNumber != 9 {
			x.Fail("flags:decode", "flags %#x were decoded as %#x (%v)", v|other, back.GetFlags(), err)
		}
	}
	br := func(i int) [4]byte {
		return [][4]byte{{'i', 's', 'o', 'm'}, {'i', 's', 'o', '2'}, {'q', 't', ' ', ' '}, {0, 0, 0, 0}, {'i', 's', 'o', 'M'}}[i]
	}
	brands := func(x *mc.X) {
		f := &mp4.Ftyp{MajorBrand: br(0), MinorVersion: 7}
		var model []int
		n := x.Choose(depth(tier, 5, 6), "brands present")
		spare := x.Choose(2, "spare capacity") == 1
		list := make([]mp4.CompatibleBrandElem, 0, n+spareCap(spare))
		for i := 0; i < n; i++ {
			b := x.Choose(3, "brand")
			model = append(model, b)
			list = append(list, mp4.CompatibleBrandElem{CompatibleBrand: br(b)})
		}
		if n > 0 {
			f.CompatibleBrands = list
		}
		x.Describe("brands %v", model)
		check := func(op string) {
			counts := [5]int{}
			for _, b := range model {
				counts[b]++
			}
			got := [5]int{}
			for _, e := range f.CompatibleBrands {
				k := -1
				for i := 0; i < 5; i++ {
					if e.CompatibleBrand == br(i) {
						k = i
					}
				}
				if k < 0 {
					x.Fail("brands:foreign", "after %s the list holds %q", op, e.CompatibleBrand)
				}
				got[k]++
			}
			if got != counts {
				x.Fail("brands:list", "after %s the brands should be %v, are %v", op, counts, got)
			}
			for i := 0; i < 5; i++ {
				if f.HasCompatibleBrand(br(i)) != (counts[i] > 0) {
					x.Fail("brands:query", "after %s brand %q is reported as present: %v", op, br(i), counts[i] == 0)
				}
			}
			if f.MajorBrand != br(0) || f.MinorVersion != 7 {
				x.Fail("brands:others", "after %s the major brand is %q, the minor version %d", op, f.MajorBrand, f.MinorVersion)
			}
			x.State(counts)
		}
		check("the start")
		for k := 0; k < depth(tier, 4, 5); k++ {
			c := x.Choose(9, "operation")
			if c == 0 {
				break
			}
			b := (c - 1) / 2
			if c%2 == 1 {
				f.AddCompatibleBrand(br(b))
				have := false
				for _, m := range model {
					have = have || m == b
				}
				if !have {
					model = append(model, b)
				}
				x.Describe("add %q", br(b))
				check(fmt.Sprintf("adding %q", br(b)))
			} else {
				f.RemoveCompatibleBrand(br(b))
				var m []int
				for _, v := range model {
					if v != b {
						m = append(m, v)
					}
				}
				model = m
				x.Describe("remove %q", br(b))
				check(fmt.Sprintf("removing %q", br(b)))
			}
		}
		var buf bytes.Buffer
		if _, err := mp4.Marshal(&buf, f, mp4.Context{}); err != nil {
			x.Fail("brands:encode", "%v", err)
		}
		want := ref.W{}.S("isom").U32(7)
		for _, e := range f.CompatibleBrands {
			want = want.S(string(e.CompatibleBrand[:]))
		}
		if !bytes.Equal(buf.Bytes(), want) {
			x.Fail("brands:wire", "encoded as %x, not %x", buf.Bytes(), []byte(want))
		}
		x.Outcome(len(model))
	}
	many := func(x *mc.X) { // long lists of brands
		ns := []int{0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}
		if tier == "thorough" {
			ns = append(ns, 511, 513, 1023, 1025, 4097, 65537)
		}
		n := ns[x.Choose(len(ns), "brands")]
		brand := func(i int) [4]byte { return [4]byte{'a' + byte(i>>16), byte(i >> 8), byte(i), '4'} }
		copies := x.Choose(4, "copies") // 0: all different, 1: the first again at the end, 2: all twice in a row, 3: all the same
		var model [][4]byte
		for i := 0; i < n; i++ {
			switch copies {
			case 0, 1:
				model = append(model, brand(i))
			case 2:
				model = append(model, brand(i/2))
			default:
				model = append(model, brand(0))
			}
		}
		if copies == 1 && n > 0 {
			model = append(model, brand(0))
		}
		f := &mp4.Ftyp{MajorBrand: br(0), MinorVersion: 7}
		for _, b := range model {
			f.CompatibleBrands = append(f.CompatibleBrands, mp4.CompatibleBrandElem{CompatibleBrand: b})
		}
		count := func(m [][4]byte) map[[4]byte]int {
			c := map[[4]byte]int{}
			for _, b := range m {
				c[b]++
			}
			return c
		}
		check := func(op string) {
			want := count(model)
			var got [][4]byte
			for _, e := range f.CompatibleBrands {
				got = append(got, e.CompatibleBrand)
			}
			have := count(got)
			if len(got) != len(model) || len(have) != len(want) {
				x.Fail("brands:list", "after %s there should be %d brands (%d different), are %d (%d)", op, len(model), len(want), len(got), len(have))
			}
			for b, k := range want {
				if have[b] != k {
					x.Fail("brands:list", "after %s brand %x should be there %d times, is %d times", op, b, k, have[b])
				}
			}
			ask := func(b [4]byte) {
				if f.HasCompatibleBrand(b) != (want[b] > 0) {
					x.Fail("brands:query", "after %s brand %x is reported as present: %v", op, b, want[b] == 0)
				}
			}
			for i := 0; i <= n+1 && i < 1500; i++ {
				ask(brand(i))
			}
			ask(brand(n - 1))
			ask(br(2))
			x.State(n, copies, len(model), len(want))
		}
		check("the start")
		at := []int{0, 1, 15, 16, 17, n / 2, n - 2, n - 1, n, n + 1}
		for k := 0; k < depth(tier, 2, 3); k++ {
			c := x.Choose(1+2*len(at), "operation")
			if c == 0 {
				break
			}
			i := at[(c-1)/2]
			if i < 0 {
				x.Skip()
			}
			b := brand(i)
			op := ""
			if c%2 == 1 {
				op = fmt.Sprintf("adding %d", i)
				f.AddCompatibleBrand(b)
				if count(model)[b] == 0 {
					model = append(model, b)
				}
			} else {
				op = fmt.Sprintf("removing %d", i)
				f.RemoveCompatibleBrand(b)
				var m [][4]byte
				for _, v := range model {
					if v != b {
						m = append(m, v)
					}
				}
				model = m
			}
			x.Describe("%d brands, copies %d: %s", n, copies, op)
			check(op)
		}
		x.Outcome(len(model))
	}
	return []*mc.Unit{
		{Name: "many-brands", Body: many},
		{Name: "histories", Body: deep, Weight: 2},
		{Name: "every-type", Body: all},
		{Name: "bytes", Body: words},
		{Name: "brands", Body: brands, Weight: 2},
	}
}

func spareCap(b bool) int {
	if b {
		return 3
	}
	return 0
}

// ---- C31

// pair picks any 16-bit number.
func pair(x *mc.X) int { return x.Choose(256, "high byte")<<8 | x.Choose(256, "low byte") }

// fld is a field of a payload with the accessor that returns it.
type fld struct {
	bits   int
	signed bool
	name   string
	get    func(b mp4.IBox, i int) uint64
}

// accBox is the layout of one version of a box with accessors.
type accBox struct {
	typ   string
	ver   byte
	flags uint32
	head  []fld
	count int // width of the entry count; 0 = no entries
	entry []fld
	tail  []fld
	split bool // the entries are separate lists
}

func f(bits int, name string, get func(b mp4.IBox, i int) uint64) fld {
	return fld{bits: bits, name: name, get: get}
}
func sf(bits int, name string, get func(b mp4.IBox, i int) uint64) fld {
	return fld{bits: bits, signed: true, name: name, get: get}
}
func gap(bits int) fld { return fld{bits: bits} }

func accBoxes() (out []accBox) {
	for v := byte(0); v < 2; v++ {
		w := 32 + 32*int(v)
		i64 := func(g func(b mp4.IBox, i int) int64) func(mp4.IBox, int) uint64 {
			return func(b mp4.IBox, i int) uint64 { return uint64(g(b, i)) }
		}
		out = append(out,
			accBox{typ: "cslg", ver: v, head: []fld{
				sf(w, "CompositionToDTSShift", i64(func(b mp4.IBox, _ int) int64 { return b.(*mp4.Cslg).GetCompositionToDTSShift() })),
				sf(w, "LeastDecodeToDisplayDelta", i64(func(b mp4.IBox, _ int) int64 { return b.(*mp4.Cslg).GetLeastDecodeToDisplayDelta() })),
				sf(w, "GreatestDecodeToDisplayDelta", i64(func(b mp4.IBox, _ int) int64 { return b.(*mp4.Cslg).GetGreatestDecodeToDisplayDelta() })),
				sf(w, "CompositionStartTime", i64(func(b mp4.IBox, _ int) int64 { return b.(*mp4.Cslg).GetCompositionStartTime() })),
				sf(w, "CompositionEndTime", i64(func(b mp4.IBox, _ int) int64 { return b.(*mp4.Cslg).GetCompositionEndTime() }))}},
			accBox{typ: "ctts", ver: v, count: 32, entry: []fld{gap(32),
				{bits: 32, signed: v == 1, name: "SampleOffset", get: i64(func(b mp4.IBox, i int) int64 { return b.(*mp4.Ctts).GetSampleOffset(i) })}}},
			accBox{typ: "elst", ver: v, count: 32, entry: []fld{
				f(w, "SegmentDuration", func(b mp4.IBox, i int) uint64 { return b.(*mp4.Elst).GetSegmentDuration(i) }),
				sf(w, "MediaTime", i64(func(b mp4.IBox, i int) int64 { return b.(*mp4.Elst).GetMediaTime(i) })), gap(16), {bits: -16}}},
			accBox{typ: "mdhd", ver: v, head: []fld{
				f(w, "CreationTime", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Mdhd).GetCreationTime() }),
				f(w, "ModificationTime", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Mdhd).GetModificationTime() }),
				gap(32), f(w, "Duration", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Mdhd).GetDuration() }), {bits: -32}}},
			accBox{typ: "mehd", ver: v, head: []fld{f(w, "FragmentDuration", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Mehd).GetFragmentDuration() })}},
			accBox{typ: "mvhd", ver: v, head: []fld{
				f(w, "CreationTime", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Mvhd).GetCreationTime() }),
				f(w, "ModificationTime", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Mvhd).GetModificationTime() }),
				gap(32), f(w, "Duration", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Mvhd).GetDuration() }),
				sf(32, "RateInt", func(b mp4.IBox, _ int) uint64 {
					m := b.(*mp4.Mvhd)
					return uint64(int64(m.GetRateInt()))<<16 | uint64(m.Rate)&0xffff
				}), gap(16), {bits: -16}, {bits: -64}, {bits: -288}, {bits: -192}, gap(32)}},
			accBox{typ: "sidx", ver: v, head: []fld{gap(32), gap(32),
				f(w, "EarliestPresentationTime", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Sidx).GetEarliestPresentationTime() }),
				f(w, "FirstOffset", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Sidx).GetFirstOffset() }), {bits: -16}},
				count: 16, entry: []fld{gap(32), gap(32), gap(32)}},
			accBox{typ: "tfdt", ver: v, head: []fld{f(w, "BaseMediaDecodeTime", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Tfdt).GetBaseMediaDecodeTime() })}},
			accBox{typ: "tkhd", ver: v, head: []fld{
				f(w, "CreationTime", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Tkhd).GetCreationTime() }),
				f(w, "ModificationTime", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Tkhd).GetModificationTime() }),
				gap(32), {bits: -32}, f(w, "Duration", func(b mp4.IBox, _ int) uint64 { return b.(*mp4.Tkhd).GetDuration() }),
				{bits: -64}, gap(16), gap(16), gap(16), {bits: -16}, {bits: -288},
				f(32, "Width", func(b mp4.IBox, _ int) uint64 {
					t := b.(*mp4.Tkhd)
					return uint64(t.GetWidthInt())<<16 | uint64(t.Width)&0xffff
				}),
				f(32, "Height", func(b mp4.IBox, _ int) uint64 {
					t := b.(*mp4.Tkhd)
					return uint64(t.GetHeightInt())<<16 | uint64(t.Height)&0xffff
				})}})
		for _, fl := range []uint32{0, 1} {
			b := accBox{typ: "saio", ver: v, flags: fl, count: 32, entry: []fld{f(w, "Offset", func(b mp4.IBox, i int) uint64 { return b.(*mp4.Saio).GetOffset(i) })}}
			if fl == 1 {
				b.head = []fld{gap(32), gap(32)}
			}
			out = append(out, b)
		}
		for _, fl := range []uint32{0x800, 0xf00, 0xa00, 0xd05} {
			b := accBox{typ: "trun", ver: v, flags: fl, count: 32}
			if fl&1 != 0 {
				b.tail = append(b.tail, gap(32))
			}
			if fl&4 != 0 {
				b.tail = append(b.tail, gap(32))
			}
			for _, bit := range []uint32{0x100, 0x200, 0x400} {
				if fl&bit != 0 {
					b.entry = append(b.entry, gap(32))
				}
			}
			b.entry = append(b.entry, fld{bits: 32, signed: v == 1, name: "SampleCompositionTimeOffset",
				get: func(b mp4.IBox, i int) uint64 { return uint64(b.(*mp4.Trun).GetSampleCompositionTimeOffset(i)) }})
			b.split = true // the tail comes between count and entries
			out = append(out, b)
		}
		for _, n := range []int{8, 16, 24, 32} { // length of the numbers in random access entries
			out = append(out, accBox{typ: "tfra", ver: v, head: []fld{gap(32), {bits: 1000 + n}}, count: 32, entry: []fld{
				f(w, "Time", func(b mp4.IBox, i int) uint64 { return b.(*mp4.Tfra).GetTime(i) }),
				f(w, "MoofOffset", func(b mp4.IBox, i int) uint64 { return b.(*mp4.Tfra).GetMoofOffset(i) }), gap(n), gap(n), gap(n)}})
		}
	}
	return out
}

func c31(tier string) []*mc.Unit {
	boxes := accBoxes()
	wide := func(x *mc.X) {
		a := boxes[x.Choose(len(boxes), "layout")]
		x.Describe("%s version %d flags %#x", a.typ, a.ver, a.flags)
		w := ref.Full(a.ver, a.flags)
		seq := uint64(0)
		type want struct {
			f fld
			i int
			v uint64
		}
		var wants []want
		put := func(fl fld, i int) {
			if fl.bits < 0 {
				w = w.Zero(-fl.bits / 8)
				return
			}
			if fl.bits > 1000 { // the length sizes of tfra
				l := uint32((fl.bits-1000)/8 - 1)
				w = w.U32(l<<4 | l<<2 | l)
				return
			}
			seq++
			def := 0x8182838485868788*seq ^ 0x0102030405060708
			m := uint64(math.MaxUint64)
			if fl.bits < 64 {
				m = 1<<uint(fl.bits) - 1
			}
			top := uint64(1) << uint(fl.bits-1)
			vals := []uint64{def & m, 0, 1, m, top, top - 1, top | 1, m - 1, m >> 8, 0xffffffff & m, 0x80000000 & m, 0x100000000 & m}
			v := vals[x.Dev(len(vals), fmt.Sprintf("%s[%d]", fl.name, i))]
			for k := fl.bits - 8; k >= 0; k -= 8 {
				w = append(w, byte(v>>uint(k)))
			}
			if fl.get != nil {
				if fl.signed && v&top != 0 {
					v |= ^m
				}
				wants = append(wants, want{fl, i, v})
			}
		}
		for _, fl := range a.head {
			put(fl, 0)
		}
		if a.count > 0 {
			n := x.Choose(depth(tier, 4, 5), "entries")
			if a.count == 32 {
				w = w.U32(uint32(n))
			} else {
				w = w.U16(uint16(n))
			}
			for _, fl := range a.tail {
				put(fl, 0)
			}
			for i := 0; i < n; i++ {
				for _, fl := range a.entry {
					put(fl, i)
				}
			}
		}
		x.State([]byte(w))
		b, err := btype(a.typ).New(mp4.Context{})
		if err != nil {
			x.Fail("accessor:type", "%s: %v", a.typ, err)
		}
		if _, err := mp4.Unmarshal(bytes.NewReader(w), uint64(len(w)), b, mp4.Context{}); err != nil {
			x.Fail("accessor:decode", "%s %x: %v", a.typ, short(w), err)
		}
		for pass := 0; pass < 2; pass++ { // in either order: the accessors have no memory
			for k := range wants {
				q := wants[k]
				if pass == 1 {
					q = wants[len(wants)-1-k]
				}
				if got := q.f.get(b, q.i); got != q.v {
					x.Fail("accessor:"+a.typ+":"+q.f.name, "%s version %d, %s of entry %d is %#x, reported %#x", a.typ, a.ver, q.f.name, q.i, q.v, got)
				}
			}
		}
		x.Outcome(a.typ, len(wants))
	}
	// fixed-point numbers: the value divided by its scale, and the floor of it
	half := func(x *mc.X, v uint32) {
		x.State(v)
		u, s := math.Ldexp(float64(v), -16), math.Ldexp(float64(int32(v)), -16)
		m := &mp4.Mvhd{Rate: int32(v)}
		if got := m.GetRate(); got != s {
			x.Fail("accessor:rate", "rate %#x is %v, reported %v", v, s, got)
		}
		if got := m.GetRateInt(); float64(got) != math.Floor(s) {
			x.Fail("accessor:rate-int", "rate %#x is %v, reported as %d", v, s, got)
		}
		t := &mp4.Tkhd{Width: v, Height: v ^ 0x00ffff00}
		h := math.Ldexp(float64(v^0x00ffff00), -16)
		if t.GetWidth() != u || float64(t.GetWidthInt()) != math.Floor(u) {
			x.Fail("accessor:width", "width %#x is %v, reported %v and %d", v, u, t.GetWidth(), t.GetWidthInt())
		}
		if t.GetHeight() != h || float64(t.GetHeightInt()) != math.Floor(h) {
			x.Fail("accessor:height", "height %v, reported %v and %d", h, t.GetHeight(), t.GetHeightInt())
		}
		a := &mp4.AudioSampleEntry{SampleRate: v}
		if a.GetSampleRate() != u || float64(a.GetSampleRateInt()) != math.Floor(u) {
			x.Fail("accessor:sample-rate", "sample rate %#x is %v, reported %v and %d", v, u, a.GetSampleRate(), a.GetSampleRateInt())
		}
	}
	fixedPoint := func(x *mc.X) {
		edges := []uint32{0, 1, 0x7fff, 0x8000, 0xffff, 0x00ff, 0x0100}
		if x.Choose(2, "which half varies") == 0 {
			half(x, uint32(pair(x))<<16|edges[x.Choose(len(edges), "fraction")])
		} else {
			half(x, edges[x.Choose(len(edges), "integral")]<<16|uint32(pair(x)))
		}
	}
	balance := func(x *mc.X) {
		v := int16(pair(x))
		x.State(v)
		b := &mp4.Smhd{}
		w := ref.Full(0, 0).U16(uint16(v)).U16(0)
		if _, err := mp4.Unmarshal(bytes.NewReader(w), 8, b, mp4.Context{}); err != nil {
			x.Fail("accessor:decode", "smhd: %v", err)
		}
		want := math.Ldexp(float64(v), -8)
		if got := b.GetBalance(); float64(got) != want {
			x.Fail("accessor:balance", "balance %#x is %v, reported %v", uint16(v), want, got)
		}
		if got := b.GetBalanceInt(); float64(got) != math.Floor(want) {
			x.Fail("accessor:balance-int", "balance %#x is %v, reported as %d", uint16(v), want, got)
		}
	}
	texts := func(x *mc.X) { // space-separated lists
		n := x.Choose(depth(tier, 8, 10), "length")
		b := make([]byte, n)
		for i := range b {
			b[i] = "a b,"[x.Choose(3, "character")]
		}
		s := string(b)
		x.State(s)
		var want []string
		for _, p := range strings.Split(s, " ") {
			if p != "" {
				want = append(want, p)
			}
		}
		e := &mp4.XMLSubtitleSampleEntry{}
		which := x.Choose(3, "field")
		var got []string
		e.Namespace, e.SchemaLocation, e.AuxiliaryMIMETypes = "n1 n2", "s", "m1 m2 m3"
		switch which {
		case 0:
			e.Namespace = s
			got = e.GetNamespaceList()
		case 1:
			e.SchemaLocation = s
			got = e.GetSchemaLocationList()
		case 2:
			e.AuxiliaryMIMETypes = s
			got = e.GetAuxiliaryMIMETypesList()
		}
		if len(got) != len(want) || strings.Join(got, "\x00") != strings.Join(want, "\x00") {
			x.Fail("accessor:list", "%q holds %q, reported %q", s, want, got)
		}
		x.Outcome(len(want))
	}
	many := func(x *mc.X) { // every entry of long tables
		a := boxes[x.Choose(len(boxes), "layout")]
		if a.count == 0 {
			x.Skip()
		}
		ns := []int{5, 16, 17, 127, 128, 129, 255, 256, 257, 300, 4097, 32767, 32769, 65535, 65536, 65537, 70001}
		if tier == "thorough" {
			ns = append(ns, 131073, 1<<20+1)
		}
		n := ns[x.Choose(len(ns), "entries")]
		if a.count == 16 && n > 65535 {
			x.Skip()
		}
		x.Describe("%s version %d flags %#x, %d entries", a.typ, a.ver, a.flags, n)
		x.State(a.typ, a.ver, a.flags, n, len(a.entry))
		w := ref.Full(a.ver, a.flags)
		fixed := func(fl fld) {
			switch {
			case fl.bits < 0:
				w = w.Zero(-fl.bits / 8)
			case fl.bits > 1000:
				l := uint32((fl.bits-1000)/8 - 1)
				w = w.U32(l<<4 | l<<2 | l)
			default:
				w = w.Fill(fl.bits/8, 0x11)
			}
		}
		for _, fl := range a.head {
			fixed(fl)
		}
		if a.count == 32 {
			w = w.U32(uint32(n))
		} else {
			w = w.U16(uint16(n))
		}
		for _, fl := range a.tail {
			fixed(fl)
		}
		start, size := len(w), 0
		for _, fl := range a.entry {
			if fl.bits < 0 {
				size -= fl.bits / 8
			} else {
				size += fl.bits / 8
			}
		}
		v := uint32(n)
		for i := 0; i < n*size; i++ {
			v = v*1664525 + 1013904223
			w = append(w, byte(v>>24))
		}
		b, err := btype(a.typ).New(mp4.Context{})
		if err != nil {
			x.Fail("accessor:type", "%s: %v", a.typ, err)
		}
		if _, err := mp4.Unmarshal(bytes.NewReader(w), uint64(len(w)), b, mp4.Context{}); err != nil {
			x.Fail("accessor:decode", "%s with %d entries: %v", a.typ, n, err)
		}
		for i := 0; i < n; i++ {
			at := start + i*size
			for _, fl := range a.entry {
				k := fl.bits
				if k < 0 {
					k = -k
				}
				if fl.get != nil {
					var want uint64
					for _, c := range w[at : at+k/8] {
						want = want<<8 | uint64(c)
					}
					if fl.signed && k < 64 && want>>uint(k-1) == 1 {
						want |= ^(1<<uint(k) - 1)
					}
					if got := fl.get(b, i); got != want {
						x.Fail("accessor:"+a.typ+":"+fl.name, "%s version %d of %d entries, %s of entry %d is %#x, reported %#x", a.typ, a.ver, n, fl.name, i, want, got)
					}
				}
				at += k / 8
			}
		}
		x.Outcome(a.typ, n)
	}
	long := func(x *mc.X) { // long space-separated lists
		ns := []int{1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 4097}
		n := ns[x.Choose(len(ns), "items")]
		l := []int{1, 2, 15, 16, 17, 63, 64, 255, 256, 300}[x.Choose(10, "length of an item")]
		sep := []string{" ", "  ", "   "}[x.Choose(3, "separator")]
		var want []string
		for i := 0; i < n; i++ {
			want = append(want, strings.Repeat(string(rune('a'+i%26)), l))
		}
		s := []string{"", " "}[x.Choose(2, "in front")] + strings.Join(want, sep) + []string{"", " ", "   "}[x.Choose(3, "behind")]
		e := &mp4.XMLSubtitleSampleEntry{Namespace: s, SchemaLocation: s, AuxiliaryMIMETypes: s}
		x.State(s)
		for i, got := range [][]string{e.GetNamespaceList(), e.GetSchemaLocationList(), e.GetAuxiliaryMIMETypesList()} {
			if strings.Join(got, "\x00") != strings.Join(want, "\x00") || len(got) != len(want) {
				x.Fail("accessor:list", "list %d of %d items is reported with %d", i, n, len(got))
			}
		}
		x.Outcome(n)
	}
	return []*mc.Unit{
		{Name: "many-entries", Body: many},
		{Name: "long-lists", Body: long},
		{Name: "versions", Bound: depth(tier, 2, 3), Body: wide, Weight: 2},
		{Name: "fixed-point", Body: fixedPoint},
		{Name: "balance", Body: balance},
		{Name: "lists", Body: texts},
	}
}
