//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime/metrics"
	"strings"

	"github.com/abema/go-mp4"
	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

// interesting leaves out the item types that share the empty layout.
func interesting(d *ref.Def) bool {
	for i, n := range ref.IlstTypes {
		if d.Name == n && d.Layout != nil && i > 1 {
			return ref.Lookup(n, ref.Ctx{}) == d || ref.Lookup(n, ref.Ctx{Udta: true}) == d
		}
	}
	return true
}

func pick(x *mc.X, ts []target) target { return ts[x.Choose(len(ts), "type")] }

func describe(x *mc.X, t target, payload []byte) {
	x.Describe("type %q context %+v payload %s", printable(t.d.Name), t.ctx, short(payload))
}

func depth(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// ---- C01

var postJunk = []byte{0xff, 0x00, 0xa5, 0x5a, 0x80, 0x01, 0xff, 0x7f, 0x10}

// follow picks what follows the laid-out fields: inside of the declared payload, and after it.
func follow(x *mc.X, thorough bool) (in, post []byte) {
	n := 2
	if thorough {
		n = 4
	}
	switch x.Choose(n, "follow") {
	case 1:
		return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, postJunk
	case 2:
		return []byte{0, 0, 0, 8, 'f', 'r', 'e', 'e'}, nil
	case 3:
		return nil, nil
	}
	return nil, postJunk
}

func checkDecode(x *mc.X, t target, payload, post []byte, exp ref.Decoded, pre int) {
	ctx := toCtx(t.ctx)
	typ := btype(t.d.Name)
	key := "decode:" + printable(t.d.Name)
	for mode := 0; mode < 2; mode++ {
		r := pad(pre, payload, post)
		var b mp4.IBox
		var n uint64
		var err error
		if mode == 0 {
			b, n, err = mp4.UnmarshalAny(r, typ, uint64(len(payload)), ctx)
		} else {
			b, err = typ.New(ctx)
			if err != nil {
				x.Fail(key, "New: %v", err)
			}
			n, err = mp4.Unmarshal(r, uint64(len(payload)), b, ctx)
		}
		if exp.Err != nil {
			if err == nil {
				x.Fail(key+":accepted", "decoding succeeded (n=%d) although the payload is malformed (%v)", n, exp.Err)
			}
			if exp.Err == ref.ErrVersion && !errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
				x.Fail(key+":version", "version %d: error %v", exp.Version, err)
			}
			continue
		}
		if err != nil {
			x.Fail(key+":refused", "decoding failed: %v", err)
		}
		if n != uint64(exp.N) {
			x.Fail(key+":n", "reported %d consumed bytes, the fields take %d", n, exp.N)
		}
		if d := diffBox(b, exp.Val); d != "" {
			x.Fail(key+":value", "wrong value: %s", d)
		}
		if b.GetType() != typ {
			x.Fail(key+":type", "GetType() = %v", b.GetType())
		}
		if p := pos(r); p != int64(pre+exp.N) {
			x.Fail(key+":position", "stream left at %d, fields end at %d", p-int64(pre), exp.N)
		}
	}
}

// longer makes one text or list of a box long; all others have one element.
type longer struct {
	x    *mc.X
	tier string
	used bool
	n    int
}

func (g *longer) Choose(n int, label string) int {
	if label == "pattern" {
		return 0
	}
	if g.used {
		g.n++
		return g.n % n
	}
	return g.x.Choose(n, label)
}

func (g *longer) Dev(int, string) int { return 0 }

func (g *longer) Long(label string, max uint64, unit int) uint64 {
	if g.used || g.x.Choose(2, label) == 0 {
		return 1
	}
	g.used = true
	lens := []uint64{1024, 4096, 5000, 65536, 70000}
	if unit > 8 {
		lens = []uint64{256, 1024, 4097, 65536}
	}
	if g.tier == "thorough" {
		lens = []uint64{511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 300000}
		if unit > 8 {
			lens = []uint64{255, 256, 257, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 16384, 32768, 65535, 65536, 65537, 100000}
		}
	}
	k := len(lens)
	for k > 0 && lens[k-1] > max {
		k--
	}
	if k < len(lens) {
		lens = append(lens[:k:k], max)
	}
	return lens[g.x.Choose(len(lens), label)]
}

// anyByte makes a payload in which one of the bytes is any byte, or two in a row are any of a few.
func anyByte(x *mc.X, t target, tier string, pairs bool) []byte {
	_, p := ref.Generate(t.d, t.ctx, fixedChooser(x.Choose(depth(tier, 2, 5), "values")), false)
	if len(p) == 0 {
		x.Skip()
	}
	n := len(p)
	if n > 100 {
		n = 100
	}
	at := x.Choose(n, "at")
	if at >= n-20 { // the last ones
		at += len(p) - n
	}
	if pairs {
		if at+1 >= len(p) {
			x.Skip()
		}
		few := []byte{0, 1, 0x0a, 0x20, 0x22, 0x41, 0x7f, 0x80, 0xc3, 0xfe, 0xff, 8, 2, 3, 4, 0x0d, 0x2d, 0x30, 0x5c, 0x60, 0xa9, 0xef}[:depth(tier, 12, 22)]
		p[at], p[at+1] = few[x.Choose(len(few), "byte")], few[x.Choose(len(few), "byte")]
	} else {
		p[at] = byte(x.Choose(256, "byte"))
	}
	if amplifies(t, p) > 1<<16 {
		x.Skip()
	}
	return p
}

// generate makes a value and its payload, with one long text or list for how == "long", any byte in any place for how == "bytes" and "byte-pairs".
func generate(x *mc.X, t target, tier, how string) (*ref.Obj, []byte) {
	if how == "bytes" || how == "byte-pairs" {
		p := anyByte(x, t, tier, how != "bytes")
		e := ref.Decode(t.d, t.ctx, p)
		if e.Err != nil || e.Unspecified != "" || e.NonCanonical != "" || e.N != len(p) {
			x.Skip()
		}
		return e.Val, p
	}
	if how != "long" {
		return ref.Generate(t.d, t.ctx, x, tier == "thorough")
	}
	g := &longer{x: x, tier: tier}
	obj, payload := ref.Generate(t.d, t.ctx, g, false)
	if !g.used {
		x.Skip()
	}
	return obj, payload
}

func decodeBody(ts []target, tier, how string) func(x *mc.X) {
	large := tier == "thorough"
	return func(x *mc.X) {
		t := pick(x, ts)
		obj, payload := generate(x, t, tier, how)
		var in, post []byte
		if how == "" {
			in, post = follow(x, large)
		}
		self := ref.Decode(t.d, t.ctx, payload)
		if self.Err != nil || !sameObj(self.Val, obj) || self.N != len(payload) {
			panic(fmt.Sprintf("harness: reference disagrees with itself for %q %x: %v", t.d.Name, payload, self.Err))
		}
		if self.Unspecified != "" {
			x.Skip()
		}
		exp := self
		if in != nil {
			payload = append(append([]byte{}, payload...), in...)
			exp = ref.Decode(t.d, t.ctx, payload)
			if exp.Unspecified != "" {
				x.Skip()
			}
		}
		describe(x, t, payload)
		x.State(t.d.Name, fmt.Sprint(t.ctx), payload)
		x.Outcome(exp.N)
		checkDecode(x, t, payload, post, exp, 5)
	}
}

func c01(tier string) []*mc.Unit {
	ts := targets(nil)
	hd := []target{{ref.Lookup("hdlr", ref.Ctx{}), ref.Ctx{}}}
	units := []*mc.Unit{
		{Name: "layouts", Bound: depth(tier, 1, 2), Weight: 8, Body: decodeBody(ts, tier, "")},
		{Name: "long", Bound: 0, Weight: 2, Body: decodeBody(ts, tier, "long")},
		{Name: "bytes", Bound: 0, Weight: 2, Body: func(x *mc.X) {
			t := pick(x, ts)
			checkSmall(x, t, anyByte(x, t, tier, false))
		}},
		{Name: "byte-pairs", Bound: 0, Weight: 2, Body: func(x *mc.X) {
			t := pick(x, ts)
			checkSmall(x, t, anyByte(x, t, tier, true))
		}},
		{Name: "handler-names", Bound: 0, Body: func(x *mc.X) { // counted, terminated and unterminated names
			pre := []byte{0, 0, 0, 0, 0, 0, 0, 0, 'v', 'i', 'd', 'e', 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
			if x.Choose(2, "component") == 1 {
				copy(pre[4:], "mhlr")
			}
			n := x.Choose(6, "len")
			p := append([]byte{}, pre...)
			for i := 0; i < n; i++ {
				p = append(p, []byte{0, 1, 2, 3, 4, 5, 'a', 0xff}[x.Choose(8, "b")])
			}
			if n == 5 && x.Choose(2, "long") == 1 { // names of 254 to 256 bytes
				k := 250 + x.Choose(3, "n")
				for i := 0; i < k; i++ {
					p = append(p, 'A')
				}
				p[24] = []byte{254, 255, 'a', 0, 253}[x.Choose(5, "first")]
			}
			exp := ref.Decode(hd[0].d, ref.Ctx{}, p)
			describe(x, hd[0], p)
			x.State(p)
			x.Outcome(exp.Val.Vals["Name"])
			checkDecode(x, hd[0], p, nil, exp, 0)
		}},
		// version, flags and what QuickTime has in their place
		{Name: "metadata-headers", Bound: 0, Body: fourBytes(func(*ref.Def) bool { return true }, []string{"meta"}, []byte{0, 1, 2, 8, 0x7f, 0x80, 0xff}, 4, checkSmall)},
		{Name: "flag-bytes", Bound: 0, Weight: 2, Body: fourBytes(interesting, nil, []byte{0, 1, 0x80, 0xff}, depth(tier, 2, 3), checkSmall)},
		{Name: "small-payloads", Bound: 0, Weight: 4, Body: smallPayloads(tier, checkSmall)},
	}
	return units
}

func checkSmall(x *mc.X, t target, payload []byte) {
	exp := ref.Decode(t.d, t.ctx, payload)
	if exp.Unspecified != "" || exp.Err != nil {
		x.Skip()
	}
	describe(x, t, payload)
	x.State(t.d.Name, fmt.Sprint(t.ctx), payload)
	x.Outcome(exp.N)
	checkDecode(x, t, payload, nil, exp, 0)
}

// fourBytes puts combinations of bytes where boxes have version and flags, in front of payloads of a few lengths;
// at most changes of them depart from the payload.
func fourBytes(filter func(*ref.Def) bool, only []string, alpha []byte, changes int, f func(*mc.X, target, []byte)) func(*mc.X) {
	var ts []target
	for _, t := range targets(filter) {
		keep := only == nil && t.d.Full
		for _, o := range only {
			keep = keep || o == t.d.Name
		}
		if keep {
			ts = append(ts, t)
		}
	}
	return func(x *mc.X) {
		t := pick(x, ts)
		var p []byte
		switch c := x.Choose(5, "payload"); {
		case only == nil || c == 4:
			_, p = ref.Generate(t.d, t.ctx, fixedChooser(c), false)
			p = append([]byte{}, p...)
			if only != nil {
				p = append(p, 0, 0, 0, 8, 'f', 'r', 'e', 'e')
			}
		default:
			p = make([]byte, []int{4, 8, 12, 1}[c])
		}
		left := changes
		for i := 0; i < 4 && i < len(p); i++ {
			if left == 0 {
				break
			}
			if c := x.Choose(len(alpha)+1, "byte"); c > 0 {
				if p[i] == alpha[c-1] {
					x.Skip()
				}
				p[i] = alpha[c-1]
				left--
			}
		}
		if amplifies(t, p) > 1<<16 {
			x.Skip() // the memory unit of C04 has these
		}
		f(x, t, p)
	}
}

// smallPayloads enumerates every payload over a small alphabet, up to a number of bytes, after version and flags.
func smallPayloads(tier string, f func(*mc.X, target, []byte)) func(*mc.X) {
	ts := targets(interesting)
	alpha := []byte{0, 1, 2, 0xff}
	max := depth(tier, 5, 7)
	return func(x *mc.X) {
		t := pick(x, ts)
		var p []byte
		if t.d.Full {
			vs := t.d.Vers
			if vs == nil {
				vs = []uint64{0}
			}
			p = append(p, byte(vs[x.Choose(len(vs), "version")]))
			p = append(p, 0, 0, byte(x.Choose(2, "flags")))
		}
		k := x.Choose(max+1, "len")
		for i := 0; i < k; i++ {
			p = append(p, alpha[x.Choose(len(alpha), "b")])
		}
		if amplifies(t, p) > 1<<16 {
			x.Skip() // the memory unit of C04 has these
		}
		f(x, t, p)
	}
}

// ---- C02

// lists collects the slices of a box that can be made longer or shorter.
type listRef struct {
	path string
	v    reflect.Value
	o    *ref.Obj
	key  string
}

func lists(path string, v reflect.Value, o *ref.Obj, out *[]listRef) {
	for _, k := range o.Keys {
		f := v.FieldByName(k)
		switch w := o.Vals[k].(type) {
		case []uint64, []int64:
			if f.Kind() == reflect.Slice {
				*out = append(*out, listRef{path + k, f, o, k})
			}
		case []*ref.Obj:
			*out = append(*out, listRef{path + k, f, o, k})
			for i := range w {
				if i < 2 {
					lists(fmt.Sprintf("%s%s[%d].", path, k, i), reflect.Indirect(f.Index(i)), w[i], out)
				}
			}
		case *ref.Obj:
			if f.Kind() == reflect.Ptr {
				f = f.Elem()
			}
			lists(path+k+".", f, w, out)
		}
	}
}

// resize appends one element (copy of the last, or zero) or drops the last one.
func (l listRef) resize(grow bool) bool {
	n := l.v.Len()
	if !grow {
		if n == 0 {
			return false
		}
		l.v.Set(l.v.Slice(0, n-1))
	}
	switch w := l.o.Vals[l.key].(type) {
	case []uint64:
		if grow {
			l.o.Vals[l.key] = append(append([]uint64{}, w...), 0)
		} else {
			l.o.Vals[l.key] = w[:n-1]
		}
	case []int64:
		if grow {
			l.o.Vals[l.key] = append(append([]int64{}, w...), 0)
		} else {
			l.o.Vals[l.key] = w[:n-1]
		}
	case []*ref.Obj:
		if grow {
			if n == 0 {
				return false
			}
			l.o.Vals[l.key] = append(append([]*ref.Obj{}, w...), w[n-1])
			l.v.Set(reflect.Append(l.v, l.v.Index(n-1)))
			return true
		}
		l.o.Vals[l.key] = w[:n-1]
	}
	if grow {
		l.v.Set(reflect.Append(l.v, reflect.Zero(l.v.Type().Elem())))
	}
	return true
}

// poison gives a value to every field that is not on the wire.
func poison(v reflect.Value, o *ref.Obj) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i)
		if ft.PkgPath != "" {
			continue
		}
		f := v.Field(i)
		want, has := o.Vals[ft.Name]
		if ft.Anonymous && !has {
			if ft.Type.Kind() == reflect.Struct && !skipEmbedded(ft.Type) {
				poison(f, o)
			}
			continue
		}
		if has {
			switch w := want.(type) {
			case *ref.Obj:
				if f.Kind() == reflect.Ptr {
					f = f.Elem()
				}
				poison(f, w)
			case []*ref.Obj:
				for j, e := range w {
					poison(reflect.Indirect(f.Index(j)), e)
				}
			}
			continue
		}
		switch f.Kind() {
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			f.SetUint(0x5a)
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			f.SetInt(0x33)
		case reflect.String:
			f.SetString("absent")
		case reflect.Slice:
			f.Set(reflect.MakeSlice(f.Type(), 3, 3))
		}
	}
}

func c02(tier string) []*mc.Unit {
	return []*mc.Unit{{Name: "values", Bound: depth(tier, 1, 2), Weight: 4, Body: encodeBody(targets(nil), tier, "")},
		{Name: "long", Bound: 0, Body: encodeBody(targets(nil), tier, "long")},
		{Name: "bytes", Bound: 0, Body: encodeBody(targets(nil), tier, "bytes")},
		{Name: "byte-pairs", Bound: 0, Body: encodeBody(targets(nil), tier, "byte-pairs")}}
}

func encodeBody(ts []target, tier, how string) func(x *mc.X) {
	return func(x *mc.X) {
		t := pick(x, ts)
		ctx := toCtx(t.ctx)
		key := "encode:" + printable(t.d.Name)
		obj, want := generate(x, t, tier, how)
		b, err := build(t.d.Name, t.ctx, obj)
		if err != nil {
			x.Fail(key, "New: %v", err)
		}
		var ls []listRef
		lists("", reflect.ValueOf(b).Elem(), obj, &ls)
		changed := false
		if d := x.Dev(1+2*len(ls), "resize"); d > 0 {
			l := ls[(d-1)/2]
			if !l.resize((d-1)%2 == 0) {
				x.Skip()
			}
			x.Describe("list %s %s", l.path, []string{"made longer", "made shorter"}[(d-1)%2])
			changed = true
		}
		if x.Dev(2, "absent") == 1 {
			poison(reflect.ValueOf(b).Elem(), obj)
		}
		want2, werr := ref.Encode(t.d, t.ctx, obj)
		if !changed && (werr != nil || !bytes.Equal(want, want2)) {
			panic(fmt.Sprintf("harness: reference disagrees with itself for %q: %x %x %v", t.d.Name, want, want2, werr))
		}
		describe(x, t, want2)
		x.State(t.d.Name, fmt.Sprint(t.ctx), want2)
		pre := 3
		if how == "" {
			pre *= x.Choose(2, "pre")
		}
		buf := bytes.NewBuffer(make([]byte, pre))
		n, err := mp4.Marshal(buf, b, ctx)
		x.Outcome(werr != nil)
		if werr != nil {
			if err == nil {
				x.Fail(key+":short-list", "a list shorter than its count was encoded without an error: %s", short(buf.Bytes()[pre:]))
			}
			return
		}
		if err != nil {
			x.Fail(key+":refused", "encoding failed: %v", err)
		}
		got := buf.Bytes()[pre:]
		if n != uint64(len(got)) {
			x.Fail(key+":n", "reported %d bytes, wrote %d", n, len(got))
		}
		if !bytes.Equal(got, want2) {
			x.Fail(key+":bytes", "wrote %s, the layout is %s", short(got), short(want2))
		}
		exp := ref.Decode(t.d, t.ctx, got)
		if exp.Err != nil || exp.Unspecified != "" {
			return // e.g. more elements than the fixed length of an entry allows
		}
		checkDecode(x, t, got, nil, exp, 0)
	}
}

// ---- C03

func c03(tier string) []*mc.Unit {
	units := roundUnits(targets(nil), tier)
	return append(units, &mc.Unit{Name: "small-payloads", Bound: 0, Weight: 2, Body: smallPayloads(tier, round)})
}

func round(x *mc.X, t target, payload []byte) {
	exp := ref.Decode(t.d, t.ctx, payload)
	if exp.Err != nil || exp.Unspecified != "" || exp.NonCanonical != "" {
		x.Skip()
	}
	describe(x, t, payload)
	x.State(t.d.Name, fmt.Sprint(t.ctx), payload)
	ctx := toCtx(t.ctx)
	key := "roundtrip:" + printable(t.d.Name)
	b, n, err := mp4.UnmarshalAny(bytes.NewReader(payload), btype(t.d.Name), uint64(len(payload)), ctx)
	if err != nil || n != uint64(len(payload)) {
		x.Fail(key, "decode: n=%d err=%v", n, err)
	}
	var buf bytes.Buffer
	m, err := mp4.Marshal(&buf, b, ctx)
	if err != nil {
		x.Fail(key, "encode: %v", err)
	}
	if !bytes.Equal(buf.Bytes(), payload) || m != n {
		x.Fail(key, "re-encoded as %s (n=%d)", short(buf.Bytes()), m)
	}
	x.Outcome(len(payload))
}

func roundUnits(ts []target, tier string) []*mc.Unit {
	return []*mc.Unit{
		{Name: "generated", Bound: depth(tier, 1, 2), Weight: 3, Body: func(x *mc.X) {
			t := pick(x, ts)
			_, payload := generate(x, t, tier, "")
			round(x, t, payload)
		}},
		{Name: "long", Bound: 0, Body: func(x *mc.X) {
			t := pick(x, ts)
			_, payload := generate(x, t, tier, "long")
			round(x, t, payload)
		}},
		{Name: "bytes", Bound: 0, Weight: 2, Body: func(x *mc.X) {
			t := pick(x, ts)
			round(x, t, anyByte(x, t, tier, false))
		}},
		{Name: "byte-pairs", Bound: 0, Weight: 2, Body: func(x *mc.X) {
			t := pick(x, ts)
			round(x, t, anyByte(x, t, tier, true))
		}},
		{Name: "changed-bytes", Bound: depth(tier, 1, 2), Weight: 3, Body: func(x *mc.X) {
			t := pick(x, ts)
			_, payload := ref.Generate(t.d, t.ctx, devBudget{x, 0}, false)
			round(x, t, mutate(x, payload, depth(tier, 1, 2)))
		}},
	}
}

// devBudget forwards choices but offers no deviations.
type devBudget struct {
	x *mc.X
	_ int
}

func (d devBudget) Choose(n int, l string) int { return d.x.Choose(n, l) }
func (d devBudget) Dev(int, string) int        { return 0 }

// mutate replaces up to k bytes of a payload.
func mutate(x *mc.X, p []byte, k int) []byte {
	p = append([]byte{}, p...)
	if len(p) == 0 {
		return p
	}
	n := len(p)
	if n > 160 {
		n = 160
	}
	for i := 0; i < k; i++ {
		d := x.Dev(1+n*5, "byte")
		if d == 0 {
			break
		}
		at, how := (d-1)/5, (d-1)%5
		switch how {
		case 0:
			p[at] = 0
		case 1:
			p[at] = 0xff
		case 2:
			p[at] ^= 0x80
		case 3:
			p[at]++
		case 4:
			p[at] = 0x7f
		}
	}
	return p
}

// ---- C04

func judge(x *mc.X, t target, payload, post []byte) {
	if amplifies(t, payload) > 1<<16 {
		x.Skip() // the memory unit has these
	}
	exp := ref.Decode(t.d, t.ctx, payload)
	describe(x, t, payload)
	x.State(t.d.Name, fmt.Sprint(t.ctx), payload)
	key := "malformed:" + printable(t.d.Name)
	r := &stepReader{Reader: pad(3, payload, post), x: x, limit: 2000 + 200*(len(payload)+len(post))}
	b, n, err := mp4.UnmarshalAny(r, btype(t.d.Name), uint64(len(payload)), toCtx(t.ctx))
	x.Outcome(err == nil, exp.Err)
	if err == nil && n > uint64(len(payload)) {
		x.Fail(key+":overrun", "consumed %d of %d bytes", n, len(payload))
	}
	if exp.Unspecified != "" {
		return
	}
	if exp.Err != nil {
		if err == nil {
			x.Fail(key+":accepted", "decoding succeeded (n=%d) although the payload is malformed (%v); payload size %d", n, exp.Err, len(payload))
		}
		return
	}
	if err != nil {
		x.Fail(key+":refused", "well-formed payload refused: %v", err)
	}
	if n != uint64(exp.N) {
		x.Fail(key+":n", "consumed %d bytes, the fields take %d", n, exp.N)
	}
	if d := diffBox(b, exp.Val); d != "" {
		x.Fail(key+":value", "wrong value: %s", d)
	}
}

func postOf(tier string) func(x *mc.X) []byte {
	return func(x *mc.X) []byte {
		switch x.Choose(depth(tier, 2, 3), "post") {
		case 1:
			return bytes.Repeat([]byte{0x81, 0x7f, 0x00, 0x41}, 75)
		case 2:
			return make([]byte, 300)
		}
		return nil
	}
}

func malformedUnits(ts []target, tier string) []*mc.Unit {
	post := postOf(tier)
	return []*mc.Unit{
		{Name: "truncated", Bound: depth(tier, 1, 2), Weight: 2, Body: func(x *mc.X) {
			t := pick(x, ts)
			var p []byte
			if tier == "thorough" {
				_, p = ref.Generate(t.d, t.ctx, x, false)
			} else {
				_, p = ref.Generate(t.d, t.ctx, devBudget{x, 0}, false)
			}
			n := len(p)
			if n > 120 {
				n = 120
			}
			if d := x.Dev(1+n, "cut"); d > 0 {
				p = p[:len(p)-d]
			}
			judge(x, t, p, post(x))
		}},
		{Name: "changed-bytes", Bound: depth(tier, 1, 2), Weight: 3, Body: func(x *mc.X) {
			t := pick(x, ts)
			_, p := ref.Generate(t.d, t.ctx, devBudget{x, 0}, false)
			judge(x, t, mutate(x, p, depth(tier, 1, 2)), post(x))
		}},
		{Name: "bytes", Bound: 0, Weight: 2, Body: func(x *mc.X) {
			t := pick(x, ts)
			judge(x, t, anyByte(x, t, tier, false), post(x))
		}},
		{Name: "byte-pairs", Bound: 0, Weight: 2, Body: func(x *mc.X) {
			t := pick(x, ts)
			judge(x, t, anyByte(x, t, tier, true), post(x))
		}},
		{Name: "changed-words", Bound: 1, Weight: 4, Body: func(x *mc.X) {
			t := pick(x, ts)
			_, p := ref.Generate(t.d, t.ctx, devBudget{x, 0}, false)
			p = mutateWord(x, p, depth(tier, 5, 8))
			judge(x, t, p, post(x))
		}},
	}
}

func c04(tier string) []*mc.Unit {
	ts := targets(interesting)
	post := postOf(tier)
	var units []*mc.Unit
	// memory: every type with every 32-bit word replaced by huge counts; measured one by one
	units = append(units, &mc.Unit{Name: "memory", Bound: 1, Serial: true, Weight: 3, Body: func(x *mc.X) {
		t := pick(x, ts)
		_, p := ref.Generate(t.d, t.ctx, devOnly{}, false)
		if x.Choose(2, "more") == 1 { // with elements, when the first alternative has none
			_, p = ref.Generate(t.d, t.ctx, fixedChooser(1), false)
		}
		if t.d.Full && x.Choose(2, "allflags") == 1 {
			p[1], p[2], p[3] = 0xff, 0xff, 0xff
		}
		p = mutateWord(x, p, depth(tier, 3, 8))
		if amplifies(t, p) > 1<<21 {
			x.Skip() // the same as with fewer samples, but would not fit into memory
		}
		var ps []byte
		if tier == "thorough" {
			ps = post(x)
		}
		describe(x, t, p)
		x.State(t.d.Name, p)
		r := pad(0, p, ps)
		before := allocated()
		b, n, err := mp4.UnmarshalAny(r, btype(t.d.Name), uint64(len(p)), toCtx(t.ctx))
		used := allocated() - before

		_ = b
		x.Outcome(err == nil, n)
		if limit := uint64(1<<20 + 8192*(len(p)+len(ps))); used > limit {
			key := "memory:" + printable(t.d.Name)
			if amplifies(t, p) > 1000 {
				key += ":samples-without-fields"
			}
			x.Fail(key, "decoding a payload of %d bytes allocated %d bytes", len(p), used)
		}
	}})
	units = append(units, malformedUnits(ts, tier)...)
	units = append(units, &mc.Unit{Name: "small-payloads", Bound: 0, Weight: 2, Body: smallPayloads(tier, func(x *mc.X, t target, p []byte) {
		judge(x, t, p, post(x))
	})})
	return units
}

// amplifies gives the number of samples of a trun box that has no per-sample fields.
func amplifies(t target, p []byte) uint32 {
	if t.d.Name != "trun" || len(p) < 8 || p[2]&0x0f != 0 {
		return 0
	}
	return uint32(p[4])<<24 | uint32(p[5])<<16 | uint32(p[6])<<8 | uint32(p[7])
}

// mutateWord replaces a 16 or 32-bit word by an extreme value.
func mutateWord(x *mc.X, p []byte, nvals int) []byte {
	p = append([]byte{}, p...)
	vals := []uint32{0xffffffff, 0x20000000, 0x00ffffff, 0x7fffffff, 0x1fffffff, 0x80000000, 0xfffffff8, 0x00010000}[:nvals]
	n := len(p) - 3
	if n <= 0 {
		return p
	}
	if n > 160 {
		n = 160
	}
	if d := x.Dev(1+n*len(vals), "word"); d > 0 {
		at, v := (d-1)/len(vals), vals[(d-1)%len(vals)]
		p[at], p[at+1], p[at+2], p[at+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
	return p
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// stepReader bounds the number of operations.
type stepReader struct {
	*bytes.Reader
	x     *mc.X
	limit int
}

func (s *stepReader) Read(p []byte) (int, error) {
	s.x.Step(s.limit, "reads")
	return s.Reader.Read(p)
}

func (s *stepReader) Seek(o int64, w int) (int64, error) {
	s.x.Step(s.limit, "reads")
	return s.Reader.Seek(o, w)
}

// ---- C20

func c20(tier string) []*mc.Unit {
	return []*mc.Unit{{Name: "values", Bound: depth(tier, 1, 2), Weight: 3, Body: renderBody(targets(nil), tier, "")},
		{Name: "long", Bound: 0, Body: renderBody(targets(nil), tier, "long")},
		{Name: "bytes", Bound: 0, Body: renderBody(targets(nil), tier, "bytes")},
		{Name: "byte-pairs", Bound: 0, Body: renderBody(targets(nil), tier, "byte-pairs")}}
}

func renderBody(ts []target, tier, how string) func(x *mc.X) {
	indents := []string{"", " ", "\t", "   "}
	return func(x *mc.X) {
		t := pick(x, ts)
		var obj *ref.Obj
		var payload []byte
		if how == "" {
			obj, payload = ref.Generate(t.d, t.ctx, x, false)
		} else {
			obj, payload = generate(x, t, tier, how)
		}
		b, err := build(t.d.Name, t.ctx, obj)
		if err != nil {
			x.Fail("render", "New: %v", err)
		}
		describe(x, t, payload)
		key := "render:" + printable(t.d.Name)
		ind := indents[1]
		if how == "" {
			ind = indents[x.Choose(len(indents), "indent")]
		}
		want := ref.Render(t.d, t.ctx, obj, ind)
		x.State(t.d.Name, want)
		x.Outcome(want)
		var got string
		if ind == "" && x.Choose(2, "fn") == 0 {
			got, err = mp4.Stringify(b, toCtx(t.ctx))
		} else {
			got, err = mp4.StringifyWithIndent(b, ind, toCtx(t.ctx))
		}
		if err != nil {
			x.Fail(key, "error: %v", err)
		}
		if got != want {
			if f, ok := obj.Vals["Flags"].([]uint64); ok && !t.d.Full {
				shown := fmt.Sprintf("Flags=0x%06x", f[0]<<16|f[1]<<8|f[2])
				if got == strings.Replace(want, shown, "Flags=0x000000", 1) {
					x.Fail("render:item:flags-shown-as-zero", "rendered as %q, want %q", got, want)
				}
			}
			x.Fail(key, "rendered as %q, want %q", got, want)
		}
		// rendering must not change the value
		if d := diffBox(b, obj); d != "" {
			x.Fail(key, "rendering changed the value: %s", d)
		}
	}
}

// ---- C29

var wrongTypes = []string{"xxxx", "MOOV", "moo ", "\x00\x00\x00\x00", "\x00\x00\x00\x01", "\x00\x00\x00\x02", "\x00\x00\x00\x03",
	"\x00\x00\x00\x04", "\x00\x00\x01\x00", "\x01\x00\x00\x00", "\x80\x00\x00\x01", "\xff\xff\xff\xff", "uuid", "iods", "avc3", "ec-3", "dec3",
	"ab\x00\x01", "ab\x00\x02", "\x00\x01\x00\x01", "\x01\x00\x00\x01", "\x00\x00\x01\x01", "\x00a\x00\x02", "\x00\x00\x00\xff",
	"\x00\x00\xff\xff", "\x00\x01\x00\x00", "\x00\x00\x01\x2c", "\x00\x00\x01\x2d", "\xa9xyz", "meta\x00"[:4], "url_", "urn_", "Avc1", "mp4s", "sbgP", "cmov"}

func c29(tier string) []*mc.Unit {
	types := append([]string{}, ref.Std()...)
	for _, l := range [][]string{ref.UdtaTypes, ref.IlstTypes, {"mean", "name", "data"}, wrongTypes} {
		for _, n := range l {
			dup := false
			for _, e := range types {
				dup = dup || e == n
			}
			if !dup {
				types = append(types, n)
			}
		}
	}
	ctxOf := func(x *mc.X) ref.Ctx {
		m := x.Choose(64, "ctx")
		return ref.Ctx{QT: m&1 != 0, Wave: m&2 != 0, Ilst: m&4 != 0, IlstMeta: m&8 != 0, IlstFree: m&16 != 0, Udta: m&32 != 0,
			Keys: []int{0, 1, 3, -1, 1 << 30, 300, 65536}[x.Choose(7, "keys")]}
	}
	return []*mc.Unit{
		{Name: "queries", Bound: 0, Weight: 2, Body: func(x *mc.X) {
			ctx := ctxOf(x)
			typ := types[x.Choose(len(types), "type")]
			if x.Choose(3, "neighbour") == 1 { // a code that differs in the case of one letter
				i := x.Choose(4, "at")
				b := []byte(typ)
				b[i] ^= 0x20
				typ = string(b)
			}
			d := ref.Lookup(typ, ctx)
			mctx := toCtx(ctx)
			bt := btype(typ)
			key := "support:" + printable(typ)
			x.Describe("type %q context %+v defined=%v", printable(typ), ctx, d != nil)
			x.State(typ, fmt.Sprint(ctx))
			x.Outcome(typ, d != nil)
			if bt.IsSupported(mctx) != (d != nil) {
				x.Fail(key, "IsSupported = %v", d == nil)
			}
			bi := mp4.BoxInfo{Type: bt, Context: mctx}
			if bi.IsSupportedType() != (d != nil) {
				x.Fail(key, "IsSupportedType = %v", d == nil)
			}
			b, err := bt.New(mctx)
			vers, verr := bt.GetSupportedVersions(mctx)
			if d == nil {
				if !errors.Is(err, mp4.ErrBoxInfoNotFound) || !errors.Is(verr, mp4.ErrBoxInfoNotFound) {
					x.Fail(key, "New: %v, GetSupportedVersions: %v", err, verr)
				}
				r := pad(4, make([]byte, 64), nil)
				if _, _, err := mp4.UnmarshalAny(r, bt, 64, mctx); !errors.Is(err, mp4.ErrBoxInfoNotFound) {
					x.Fail(key, "UnmarshalAny: %v", err)
				}
				if p := pos(r); p != 4 {
					x.Fail(key, "stream left at %d, payload starts at 4", p)
				}
				if bt.IsSupportedVersion(0, mctx) {
					x.Fail(key, "IsSupportedVersion(0) for an undefined type")
				}
				return
			}
			if err != nil || verr != nil {
				x.Fail(key, "New: %v, GetSupportedVersions: %v", err, verr)
			}
			if b.GetType() != bt {
				x.Fail(key, "New gives type %v", b.GetType())
			}
			if len(vers) != len(d.Vers) {
				x.Fail(key, "GetSupportedVersions = %v, want %v", vers, d.Vers)
			}
			for v := 0; v < 256; v++ {
				want := d.Vers == nil
				for _, w := range d.Vers {
					want = want || w == uint64(v)
				}
				if bt.IsSupportedVersion(uint8(v), mctx) != want {
					x.Fail(key, "IsSupportedVersion(%d) = %v", v, !want)
				}
				in := len(vers) == 0
				for _, w := range vers {
					in = in || int(w) == v
				}
				if in != want {
					x.Fail(key, "GetSupportedVersions = %v, want %v", vers, d.Vers)
				}
			}
		}},
		{Name: "versions", Bound: 0, Weight: 2, Body: func(x *mc.X) {
			ts := targets(func(d *ref.Def) bool { return d.Full && d.Name != "meta" })
			t := pick(x, ts)
			_, p := ref.Generate(t.d, t.ctx, fixedChooser(x.Choose(3, "shape")), false)
			v := x.Choose(256, "version")
			p[0] = byte(v)
			p[3] |= byte(x.Choose(2, "flag"))
			post := [][]byte{nil, make([]byte, 64)}[x.Choose(2, "post")]
			exp := ref.Decode(t.d, t.ctx, append(append([]byte{}, p...), post...))
			p = append(append([]byte{}, p...), post...)
			describe(x, t, p)
			x.State(t.d.Name, p)
			r := pad(7, p, nil)
			ok := t.d.Vers == nil
			for _, w := range t.d.Vers {
				ok = ok || w == uint64(v)
			}
			_, n, err := mp4.UnmarshalAny(r, btype(t.d.Name), uint64(len(p)), toCtx(t.ctx))
			x.Outcome(ok, err == nil)
			key := "version:" + printable(t.d.Name)
			if !ok {
				if !errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
					x.Fail(key, "version %d: error %v", v, err)
				}
				if q := pos(r); q != 7 {
					x.Fail(key, "version %d: stream left at %d, payload starts at 7", v, q)
				}
				return
			}
			if errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
				x.Fail(key, "version %d refused", v)
			}
			if exp.Unspecified == "" && (err == nil) != (exp.Err == nil) {
				x.Fail(key, "version %d: error %v, want %v", v, err, exp.Err)
			}
			if err == nil && exp.Err == nil && n != uint64(exp.N) {
				x.Fail(key, "version %d: n=%d want %d", v, n, exp.N)
			}
		}},
		{Name: "declared", Serial: true, Body: func(x *mc.X) { // types registered with every short list of versions, in every order
			pool := []uint8{0, 1, 2, 7, 128, 254}
			var vs []uint8
			in := map[uint8]bool{}
			for i := x.Choose(depth(tier, 5, 6), "versions"); i > 0; i-- {
				v := pool[x.Choose(len(pool), "version")]
				if in[v] {
					x.Skip()
				}
				in[v] = true
				vs = append(vs, v)
			}
			x.Describe("registered with versions %v", vs)
			x.State(vs)
			regCode++
			code := mp4.BoxType{'R', byte(regCode >> 16), byte(regCode >> 8), byte(regCode)}
			mp4.AddAnyTypeBoxDef(&regA{}, code, vs...)
			got, err := code.GetSupportedVersions(mp4.Context{})
			if err != nil || len(got) != len(vs) {
				x.Fail("declared:list", "GetSupportedVersions: %v, %v", got, err)
			}
			listed := map[uint8]bool{}
			for _, v := range got {
				listed[v] = true
			}
			for i := 0; i < 256; i++ {
				v := uint8(i)
				want := len(vs) == 0 || in[v]
				if len(vs) > 0 && listed[v] != want {
					x.Fail("declared:list", "GetSupportedVersions: %v", got)
				}
				if code.IsSupportedVersion(v, mp4.Context{}) != want {
					x.Fail("declared:query", "IsSupportedVersion(%d) = %v", v, !want)
				}
				r := pad(3, []byte{v, 0, 0, 0, 1, 2}, []byte{9})
				box, n, err := mp4.UnmarshalAny(r, code, 6, mp4.Context{})
				if !want {
					if !errors.Is(err, mp4.ErrUnsupportedBoxVersion) || pos(r) != 3 {
						x.Fail("declared:decode", "version %d: error %v, stream at %d (3 before)", v, err, pos(r))
					}
					continue
				}
				if a, _ := box.(*regA); err != nil || n != 6 || a == nil || a.GetVersion() != v || a.A != 0x102 || pos(r) != 9 {
					x.Fail("declared:decode", "version %d: %+v, %d bytes, error %v, stream at %d", v, box, n, err, pos(r))
				}
			}
			x.Outcome(len(vs))
		}},
		{Name: "write-and-render", Bound: 0, Body: func(x *mc.X) { // the not-found error of the other operations
			t := pick(x, targets(nil))
			other := []ref.Ctx{{}, {Udta: true}, {Ilst: true}, {Ilst: true, IlstMeta: true}, {Ilst: true, IlstMeta: true, IlstFree: true}, {Ilst: true, Keys: 1}, {Ilst: true, Keys: 2}, {QT: true}, {Wave: true, QT: true}}
			ctx := other[x.Choose(len(other), "ctx")]
			obj, _ := ref.Generate(t.d, t.ctx, devOnly{}, false)
			b, err := build(t.d.Name, t.ctx, obj)
			if err != nil {
				x.Fail("new", "%v", err)
			}
			d := ref.Lookup(t.d.Name, ctx)
			x.State(t.d.Name, fmt.Sprint(ctx))
			x.Describe("type %q built in %+v used in %+v", printable(t.d.Name), t.ctx, ctx)
			if d != nil {
				return
			}
			key := "notfound:" + printable(t.d.Name)
			var w bytes.Buffer
			n, e1 := mp4.Marshal(&w, b, toCtx(ctx))
			_, e2 := mp4.Stringify(b, toCtx(ctx))
			r := pad(3, make([]byte, 40), nil)
			_, e3 := mp4.Unmarshal(r, 40, b, toCtx(ctx))
			if !errors.Is(e1, mp4.ErrBoxInfoNotFound) || !errors.Is(e2, mp4.ErrBoxInfoNotFound) || !errors.Is(e3, mp4.ErrBoxInfoNotFound) {
				x.Fail(key, "Marshal: %v, Stringify: %v, Unmarshal: %v", e1, e2, e3)
			}
			if w.Len() != 0 || n != 0 {
				x.Fail(key, "Marshal wrote %d bytes", w.Len())
			}
			if p := pos(r); p != 3 {
				x.Fail(key, "Unmarshal moved the stream to %d", p)
			}
			x.Outcome(t.d.Name)
		}},
	}
}

var _ = io.EOF
