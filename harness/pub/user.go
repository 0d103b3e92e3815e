//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"

	"github.com/abema/go-mp4"
	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

// ---- enumerated declarations (userdecl.go)

// uCtl answers the questions the library asks about dynamic fields.
type uCtl struct {
	typ   mp4.BoxType
	slot  string
	size  [3]uint
	lens  [3]uint
	opt   [3]bool
	pad   int
	lead  uint
	width uint
	n     uint
}

func (c *uCtl) GetType() mp4.BoxType { return c.typ }

func (c *uCtl) GetFieldSize(name string, ctx mp4.Context) uint {
	switch {
	case name == "Pad":
		return uint(c.pad)
	case name == "Lead":
		return c.lead
	case len(name) == 1:
		return c.size[name[0]-'A']
	}
	return c.width
}

func (c *uCtl) GetFieldLength(name string, ctx mp4.Context) uint {
	if len(name) == 1 {
		return c.lens[name[0]-'A']
	}
	return c.n
}

func (c *uCtl) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	switch {
	case name == "Pad":
		return c.pad != 0
	case name == "Lead":
		return c.lead != 0
	case len(name) == 1:
		return c.opt[name[0]-'A']
	}
	return name == c.slot
}

func (c *uCtl) ctl() *uCtl { return c }

type uBox interface {
	mp4.IBox
	ctl() *uCtl
}

type uSub struct {
	X uint8 `mp4:"0,size=4"`
	Y int16 `mp4:"1,size=12"`
}

func subLayout(l *ref.L) func() {
	return func() { l.U("X", 4); l.S("Y", 12) }
}

type uForm struct {
	lay func(l *ref.L, n string, c *uCtl, p int)
	// what has to be chosen
	flags bool
	ver   bool
	ask   func(x *mc.X, c *uCtl, p int)
}

func askLen(x *mc.X, c *uCtl, p int) { c.lens[p] = uint(x.Choose(3, "length")) }

// uForms is the alphabet of fields (see tools/genuser.py).
var uForms = []uForm{
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.U(n, 8) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.U(n, 16) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.U(n, 32, ref.Hex) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.U(n, 64) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.U(n, 5) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.U(n, 13) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.U(n, 3, ref.Hex) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.U(n, 8, ref.Decm) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.S(n, 8) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.S(n, 16) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.S(n, 13) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.S(n, 4, ref.Hex) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.S(n, 64) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.B(n) }},
	{flags: true, lay: func(l *ref.L, n string, c *uCtl, p int) {
		if l.Flags&1 != 0 {
			l.U(n, 8)
		}
	}},
	{flags: true, lay: func(l *ref.L, n string, c *uCtl, p int) {
		if l.Flags&10 != 0 {
			l.U(n, 16)
		}
	}},
	{flags: true, lay: func(l *ref.L, n string, c *uCtl, p int) {
		if l.Flags&4 == 0 {
			l.U(n, 8)
		}
	}},
	{ver: true, lay: func(l *ref.L, n string, c *uCtl, p int) {
		if l.Version == 0 {
			l.U(n, 32)
		}
	}},
	{ver: true, lay: func(l *ref.L, n string, c *uCtl, p int) {
		if l.Version != 0 {
			l.U(n, 64)
		}
	}},
	{ask: func(x *mc.X, c *uCtl, p int) { c.opt[p] = x.Choose(2, "enabled") == 1 },
		lay: func(l *ref.L, n string, c *uCtl, p int) {
			if c.opt[p] {
				l.U(n, 8)
			}
		}},
	{ask: func(x *mc.X, c *uCtl, p int) { c.size[p] = []uint{1, 7, 8, 12, 32}[x.Choose(5, "size")] },
		lay: func(l *ref.L, n string, c *uCtl, p int) { l.U(n, int(c.size[p]), ref.Wide) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.CStr(n) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.Bytes(n, 2) }},
	{ask: askLen, lay: func(l *ref.L, n string, c *uCtl, p int) { l.UList(n, int(c.lens[p]), 16) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.UA(n, 3, 5, ref.Iso) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.UA(n, 4, 8, ref.Text) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.UA(n, 16, 8, ref.Uuid) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.BA(n, 4) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.Sub(n, subLayout(l)) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.Sub(n, subLayout(l)) }},
	{ask: askLen, lay: func(l *ref.L, n string, c *uCtl, p int) { l.List(n, int64(c.lens[p]), 16, subLayout(l)) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.Varint(n, ref.DevVals(127, 128, 1<<14, 1<<21-1)) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.U(n, 16, ref.Hid) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.SA(n, 2, 12) }},
	// last field only
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.Rest(n) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.UList(n, -1, 24) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.List(n, -1, 16, subLayout(l)) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.BoxStr(n) }},
	{lay: func(l *ref.L, n string, c *uCtl, p int) { l.List(n, -1, 16, subLayout(l)) }},
}

const uLast = 34 // the first form that has to be the last field

var uVers = []uint64{0, 1, 2}

// padding is a field that completes the last byte.
func padding(l *ref.L, c *uCtl) {
	if l.Mode != ref.Str {
		c.pad = (8 - l.BitPos()%8) % 8
	}
	if c.pad != 0 {
		l.U("Pad", c.pad)
	}
}

// uShort is the number of declarations of fewer than three fields.
var uShort = func() int {
	i := 0
	for uDecls[3*i+2] == 0xff {
		i++
	}
	return i
}()

// declared picks a declaration (of three fields or of fewer) and makes its layout.
func declared(x *mc.X, long bool) (*ref.Def, int, *uCtl, string) {
	i := 0
	if long {
		i = uShort + x.Choose(len(uDecls)/3-uShort, "declaration")
	} else {
		i = x.Choose(uShort, "declaration")
	}
	fs := uDecls[3*i : 3*i+3]
	c := &uCtl{slot: fmt.Sprintf("S%d", i%uSlots), typ: declType(i / uSlots)}
	flags, ver, last := false, false, false
	desc := ""
	for p, f := range fs {
		if f == 0xff {
			continue
		}
		fm := uForms[f]
		flags, ver, last = flags || fm.flags, ver || fm.ver, f >= uLast
		if fm.ask != nil {
			fm.ask(x, c, p)
		}
		desc += fmt.Sprintf(" %d", f)
	}
	lay := func(l *ref.L) {
		l.Full(gen(l, ver), flagsFor(flags)...)
		l.Opt1(c.slot, func() {
			for p, f := range fs {
				if f != 0xff {
					uForms[f].lay(l, "ABC"[p:p+1], c, p)
				}
			}
		})
		if !last {
			padding(l, c)
		} else {
			c.pad = 0
		}
	}
	t := c.typ
	d := &ref.Def{Name: string(t[:]), Layout: lay, Vers: uVers, Full: true}
	return d, i / uSlots, c, desc
}

func gen(l *ref.L, ver bool) []uint64 {
	if l.Mode == ref.Gen && !ver {
		return []uint64{1}
	}
	return uVers
}

func flagsFor(used bool) []uint64 {
	if used {
		return []uint64{0, 1, 2, 8, 4, 15}
	}
	return []uint64{0}
}

func declType(i int) mp4.BoxType { return mp4.BoxType{'U', 'd', '0' + byte(i/10), '0' + byte(i%10)} }

// declBody drives one declaration through all the operations.
func declBody(tier string, long bool) func(x *mc.X) {
	ops := 4
	if long && tier != "thorough" {
		ops = 2
	}
	return func(x *mc.X) {
		d, bi, c, desc := declared(x, long)
		key := "declared"
		op := x.Choose(ops, "op") // 0 exact, 1 followed by more, 2 cut, 3 bytes changed
		var ch ref.Chooser = x
		if op != 0 && tier != "thorough" {
			ch = devBudget{x, 0}
		}
		obj, payload := ref.Generate(d, ref.Ctx{}, ch, false)
		mk := func() uBox {
			b := newUBox(bi)
			*b.ctl() = *c
			return b
		}
		x.Describe("fields%s slot %s control %+v", desc, c.slot, *c)
		x.State(d.Name, c.slot, fmt.Sprintf("%+v", *c), payload)
		want, werr := ref.Encode(d, ref.Ctx{}, obj)
		if op == 0 {
			b := mk()
			fill(reflect.ValueOf(b).Elem(), obj)
			var buf bytes.Buffer
			n, err := mp4.Marshal(&buf, b, mp4.Context{})
			if werr != nil {
				if err == nil {
					x.Fail(key+":encode-accepted", "a structure that does not end at a byte was encoded: %x", buf.Bytes())
				}
				return
			}
			if err != nil || n != uint64(buf.Len()) || !bytes.Equal(buf.Bytes(), want) {
				x.Fail(key+":encode", "wrote %x (n=%d, %v), the layout is %x", buf.Bytes(), n, err, want)
			}
			for _, ind := range []string{"", "  "} {
				s, err := mp4.StringifyWithIndent(b, ind, mp4.Context{})
				if w := ref.Render(d, ref.Ctx{}, obj, ind); err != nil || s != w {
					x.Fail(key+":render", "rendered as %q (%v), want %q", s, err, w)
				}
			}
		}
		var post []byte
		switch op {
		case 1:
			in := [][]byte{{0xff, 0xff, 0xff}, {0, 0}, nil}[x.Choose(depth(tier, 2, 3), "in")]
			payload = append(append([]byte{}, payload...), in...)
			post = postJunk
		case 2:
			n := len(payload)
			if n > 60 {
				n = 60
			}
			payload = payload[:len(payload)-x.Dev(1+n, "cut")]
			post = [][]byte{postJunk, nil}[x.Choose(depth(tier, 1, 2), "post")]
		case 3:
			payload = mutate(x, payload, 1)
		}
		exp := ref.Decode(d, ref.Ctx{}, payload)
		if exp.Unspecified != "" {
			x.Skip()
		}
		x.Describe("payload %x", payload)
		b := mk()
		r := pad(3, payload, post)
		n, err := mp4.Unmarshal(r, uint64(len(payload)), b, mp4.Context{})
		x.Outcome(exp.Err, exp.N)
		if exp.Err != nil {
			if err == nil {
				x.Fail(key+":accepted", "decoding succeeded (n=%d) although the payload does not fit the declaration (%v)", n, exp.Err)
			}
			if exp.Err == ref.ErrVersion && !errors.Is(err, mp4.ErrUnsupportedBoxVersion) {
				x.Fail(key+":version", "error %v", err)
			}
			return
		}
		if err != nil || n != uint64(exp.N) {
			x.Fail(key+":decode", "n=%d (%v), the fields take %d", n, err, exp.N)
		}
		if s := diffBox(b, exp.Val); s != "" {
			x.Fail(key+":value", "wrong value: %s", s)
		}
		if p := pos(r); p != int64(3+exp.N) {
			x.Fail(key+":position", "stream left at %d, fields end at %d", p-3, exp.N)
		}
	}
}

// ---- widths

// uWidth has one field of each kind, of any width at any distance from a byte boundary.
type uWidth struct {
	mp4.Box
	uCtl
	Lead  uint8     `mp4:"0,size=dynamic,opt=dynamic"`
	FU8   uint8     `mp4:"1,size=dynamic,opt=dynamic"`
	FU16  uint16    `mp4:"2,size=dynamic,opt=dynamic"`
	FU32  uint32    `mp4:"3,size=dynamic,opt=dynamic"`
	FU64  uint64    `mp4:"4,size=dynamic,opt=dynamic"`
	FU    uint      `mp4:"5,size=dynamic,opt=dynamic"`
	FI8   int8      `mp4:"6,size=dynamic,opt=dynamic"`
	FI16  int16     `mp4:"7,size=dynamic,opt=dynamic"`
	FI32  int32     `mp4:"8,size=dynamic,opt=dynamic"`
	FI64  int64     `mp4:"9,size=dynamic,opt=dynamic"`
	FI    int       `mp4:"10,size=dynamic,opt=dynamic"`
	FH64  int64     `mp4:"21,size=dynamic,opt=dynamic,hex"`
	FH8   int8      `mp4:"22,size=dynamic,opt=dynamic,hex"`
	FBool bool      `mp4:"11,size=dynamic,opt=dynamic"`
	AU8   [3]uint8  `mp4:"12,size=dynamic,opt=dynamic"`
	AI16  [3]int16  `mp4:"13,size=dynamic,opt=dynamic"`
	AU64  [2]uint64 `mp4:"14,size=dynamic,opt=dynamic,hex"`
	LU8   []uint8   `mp4:"15,size=dynamic,len=dynamic,opt=dynamic"`
	LU32  []uint32  `mp4:"16,size=dynamic,len=dynamic,opt=dynamic"`
	LI64  []int64   `mp4:"17,size=dynamic,len=dynamic,opt=dynamic"`
	RU8   []uint8   `mp4:"18,size=dynamic,opt=dynamic"`
	RU16  []uint16  `mp4:"19,size=dynamic,opt=dynamic"`
	RI32  []int32   `mp4:"20,size=dynamic,opt=dynamic,hex"`
	Pad   uint8     `mp4:"99,size=dynamic,opt=dynamic"`
}

type widthKind struct {
	name string
	max  int
	how  byte // u s: integers; a b: arrays; l m: counted lists; r t: lists to the end (unsigned, signed)
	n    int
	opts []ref.Opt
}

var widthKinds = []widthKind{{"FU8", 8, 'u', 0, nil}, {"FU16", 16, 'u', 0, w1}, {"FU32", 32, 'u', 0, w1}, {"FU64", 64, 'u', 0, w1}, {"FU", 64, 'u', 0, w1},
	{"FI8", 8, 's', 0, nil}, {"FI16", 16, 's', 0, nil}, {"FI32", 32, 's', 0, nil}, {"FI64", 64, 's', 0, nil}, {"FI", 64, 's', 0, nil},
	{"FH64", 64, 's', 0, []ref.Opt{ref.Hex}}, {"FH8", 8, 's', 0, []ref.Opt{ref.Hex}},
	{"AU8", 8, 'a', 3, nil}, {"AI16", 16, 'b', 3, nil}, {"AU64", 64, 'a', 2, []ref.Opt{ref.Hex}},
	{"LU8", 8, 'l', 0, nil}, {"LU32", 32, 'l', 0, w1}, {"LI64", 64, 'm', 0, nil},
	{"RU8", 8, 'r', 0, nil}, {"RU16", 16, 'r', 0, w1}, {"RI32", 32, 't', 0, []ref.Opt{ref.Hex}}}

var w1 = []ref.Opt{ref.Wide}

var widthType = mp4.BoxType{'U', 'w', 'i', 'd'}

func widthBody(x *mc.X) {
	k := widthKinds[x.Choose(len(widthKinds), "kind")]
	c := &uCtl{typ: widthType, slot: k.name}
	c.width = uint(1 + x.Choose(k.max, "width"))
	c.lead = uint(x.Choose(8, "lead"))
	rest := k.how == 'r' || k.how == 't'
	count := 0
	if k.how == 'l' || k.how == 'm' {
		count = []int{0, 1, 2, 3, 9}[x.Choose(5, "count")]
		c.n = uint(count)
	}
	want := -1
	if rest {
		want = x.Choose(10, "count")
	}
	w := int(c.width)
	lay := func(l *ref.L) {
		if c.lead > 0 {
			l.U("Lead", int(c.lead))
		}
		n := -1
		if l.Mode == ref.Gen {
			n = want // lists to the end: any length is tried, also ones that do not end at a byte
		}
		switch k.how {
		case 'u':
			l.U(k.name, w, k.opts...)
		case 's':
			l.S(k.name, w, k.opts...)
		case 'a':
			l.UA(k.name, k.n, w, k.opts...)
		case 'b':
			l.SA(k.name, k.n, w, k.opts...)
		case 'l':
			l.UList(k.name, count, w, k.opts...)
		case 'm':
			l.SList(k.name, count, w, k.opts...)
		case 'r':
			l.UList(k.name, n, w, k.opts...)
		case 't':
			l.SList(k.name, n, w, k.opts...)
		}
		if !rest {
			padding(l, c)
		}
	}
	d := &ref.Def{Name: string(widthType[:]), Layout: lay}
	obj, payload := ref.Generate(d, ref.Ctx{}, x, false)
	x.Describe("field %s width %d lead %d count %d payload %x", k.name, w, c.lead, count, payload)
	x.State(k.name, w, c.lead, payload)
	b := &uWidth{uCtl: *c}
	fill(reflect.ValueOf(b).Elem(), obj)
	key := "width:" + k.name
	wantB, werr := ref.Encode(d, ref.Ctx{}, obj)
	var buf bytes.Buffer
	n, err := mp4.Marshal(&buf, b, mp4.Context{})
	x.Outcome(werr != nil)
	if werr != nil {
		if err == nil {
			x.Fail(key+":accepted", "a structure that does not end at a byte was encoded: %x", buf.Bytes())
		}
		b2 := &uWidth{uCtl: *c}
		exp := ref.Decode(d, ref.Ctx{}, payload)
		_, err = mp4.Unmarshal(bytes.NewReader(payload), uint64(len(payload)), b2, mp4.Context{})
		if exp.Err != nil && err == nil {
			x.Fail(key+":accepted", "decoded although the elements do not fill the box")
		}
		return
	}
	if err != nil || n != uint64(buf.Len()) || !bytes.Equal(buf.Bytes(), wantB) {
		x.Fail(key+":encode", "wrote %x (n=%d, %v), the layout is %x", buf.Bytes(), n, err, wantB)
	}
	s, err := mp4.Stringify(b, mp4.Context{})
	if ws := ref.Render(d, ref.Ctx{}, obj, ""); err != nil || s != ws {
		x.Fail(key+":render", "rendered as %q (%v), want %q", s, err, ws)
	}
	b2 := &uWidth{uCtl: *c}
	r := pad(0, payload, postJunk)
	n, err = mp4.Unmarshal(r, uint64(len(payload)), b2, mp4.Context{})
	if err != nil || n != uint64(len(payload)) || pos(r) != int64(len(payload)) {
		x.Fail(key+":decode", "decode: n=%d (%v) position %d of %d", n, err, pos(r), len(payload))
	}
	if ds := diffBox(b2, obj); ds != "" {
		x.Fail(key+":value", "wrong value: %s", ds)
	}
}

// boolBody: a boolean of several bits is false only when all of them are zero, and is written as all ones.
func boolBody(x *mc.X) {
	const max = 48
	w := 1 + x.Choose(max, "width")
	lead := x.Choose(8, "lead")
	all := uint64(1)<<uint(w) - 1
	var v uint64
	if w <= 8 {
		v = uint64(x.Choose(1<<uint(w), "value"))
	} else if i := x.Choose(2*w+2, "value"); i < w {
		v = 1 << uint(i)
	} else if i < 2*w {
		v = all &^ (1 << uint(i-w))
	} else if i == 2*w {
		v = all
	}
	lv := x.Choose(2, "leadvalue") * (1<<uint(lead) - 1)
	total := lead + w
	padn := (8 - total%8) % 8
	c := uCtl{typ: widthType, slot: "FBool", width: uint(w), lead: uint(lead), pad: padn}
	word := uint64(lv)<<uint(w+padn) | v<<uint(padn)
	nb := (total + padn) / 8
	var p []byte
	for i := nb - 1; i >= 0; i-- {
		p = append(p, byte(word>>uint(8*i)))
	}
	x.Describe("boolean of %d bits after %d bits: %x", w, lead, p)
	x.State(w, lead, p)
	x.Outcome(v != 0)
	b := &uWidth{uCtl: c}
	n, err := mp4.Unmarshal(bytes.NewReader(p), uint64(nb), b, mp4.Context{})
	if err != nil || n != uint64(nb) || b.FBool != (v != 0) || int(b.Lead) != lv {
		x.Fail("boolean:decode", "decoded as %v, lead %d (n=%d, %v)", b.FBool, b.Lead, n, err)
	}
	var buf bytes.Buffer
	ones := uint64(0)
	if v != 0 {
		ones = all
	}
	word = uint64(lv)<<uint(w+padn) | ones<<uint(padn)
	if _, err := mp4.Marshal(&buf, b, mp4.Context{}); err != nil || buf.Len() != nb {
		x.Fail("boolean:encode", "wrote %x (%v)", buf.Bytes(), err)
	}
	for i, g := range buf.Bytes() {
		if g != byte(word>>uint(8*(nb-1-i))) {
			x.Fail("boolean:encode", "wrote %x, want bits %x", buf.Bytes(), word)
		}
	}
}

// ---- hand-written declarations

// UOrder: the order of fields is given by the numbers, not by the declaration.
type UOrder struct {
	mp4.Box
	E uint8  `mp4:" 100 , size=8 "`
	C uint16 `mp4:"20,size=16"`
	A uint8  `mp4:"size=8"`
	D uint32 `mp4:"size=32, 21 ,hex"`
	B uint8  `mp4:"3,dec,size=8"`
	F int8   `mp4:"1000,size = 8"`
}

func (*UOrder) GetType() mp4.BoxType { return mp4.StrToBoxType("Uord") }

func orderLayout(l *ref.L) {
	l.U("A", 8)
	l.U("B", 8, ref.Decm)
	l.U("C", 16)
	l.U("D", 32, ref.Hex)
	l.U("E", 8)
	l.S("F", 8)
}

// UBase and UMid are extended by UExt.
type UBase struct {
	mp4.FullBox `mp4:"0,extend"`
	P           uint16 `mp4:"1,size=16"`
	PV1         uint8  `mp4:"2,size=8,ver=1"`
}

type UMid struct {
	UBase `mp4:"0,extend"`
	Q     []uint8 `mp4:"1,size=8,len=2"`
	QF    uint16  `mp4:"2,size=16,opt=0x000100"`
}

type UExt struct {
	UMid `mp4:"0,extend"`
	R    int32  `mp4:"1,size=32"`
	RN   uint32 `mp4:"2,size=32,nopt=0x000100,nver=1"`
	S    string `mp4:"3,string"`
}

func (*UExt) GetType() mp4.BoxType { return mp4.StrToBoxType("Uext") }

func extLayout(l *ref.L) {
	l.Full([]uint64{0, 1, 2}, 0, 0x100, 0x010000, 1)
	l.U("P", 16)
	if l.Version == 1 {
		l.U("PV1", 8)
	}
	l.Bytes("Q", 2)
	if l.Flags&0x100 != 0 {
		l.U("QF", 16)
	}
	l.S("R", 32)
	if l.Flags&0x100 == 0 && l.Version != 1 {
		l.U("RN", 32)
	}
	l.CStr("S")
}

// UEntry answers for its own dynamic fields.
type UEntry struct {
	mp4.BaseCustomFieldObject
	N    uint8   `mp4:"0,size=8"`
	Data []uint8 `mp4:"1,size=8,len=dynamic"`
	W    uint32  `mp4:"2,size=dynamic"`
	Opt  uint16  `mp4:"3,size=16,opt=dynamic,hex"`
}

func (e *UEntry) GetFieldLength(name string, ctx mp4.Context) uint {
	if name != "Data" {
		panic("length of " + name)
	}
	return uint(e.N)
}

func (e *UEntry) GetFieldSize(name string, ctx mp4.Context) uint {
	if name != "W" {
		panic("size of " + name)
	}
	return 8 * (1 + uint(e.N)%4)
}

func (e *UEntry) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return name == "Opt" && e.N != 1 && !ctx.IsQuickTimeCompatible
}

func (e *UEntry) StringifyField(name string, indent string, depth int, ctx mp4.Context) (string, bool) {
	if name == "W" && e.N == 2 {
		return fmt.Sprintf("<%d|%d|%s>", e.W, depth, indent), true
	}
	return "", false
}

// UList has counted entries of varying size, on both levels answered dynamically.
type UList struct {
	mp4.FullBox `mp4:"0,extend"`
	Count       uint16    `mp4:"1,size=16"`
	Entries     []UEntry  `mp4:"2,len=dynamic"`
	Ptrs        []*UEntry `mp4:"3,len=dynamic"`
	One         *UEntry   `mp4:"4,opt=0x000001"`
	Tail        uint8     `mp4:"5,size=8"`
}

func (*UList) GetType() mp4.BoxType { return mp4.StrToBoxType("Ulst") }

func (u *UList) GetFieldLength(name string, ctx mp4.Context) uint {
	switch name {
	case "Entries":
		return uint(u.Count)
	case "Ptrs":
		return uint(u.Count) / 2
	}
	panic("length of " + name)
}

func listLayout(l *ref.L) {
	l.Full([]uint64{0}, 0, 1)
	n := l.U("Count", 16, ref.Vals(0, 1, 2), ref.DevVals(3, 5))
	entry := func() {
		k := l.U("N", 8, ref.Vals(0, 1, 2), ref.DevVals(3, 255))
		l.Bytes("Data", int(k))
		bits := 8 * (1 + int(k)%4)
		opts := []ref.Opt{ref.Wide}
		if k == 2 {
			opts = append(opts, ref.FmtU(func(l *ref.L, v uint64) (string, bool) {
				return fmt.Sprintf("<%d|%d|%s>", v, l.Depth(), l.Indent()), true
			}))
		}
		l.U("W", bits, opts...)
		if k != 1 && !l.Ctx.QT {
			l.U("Opt", 16, ref.Hex)
		}
	}
	l.List("Entries", int64(n), 0, entry)
	l.List("Ptrs", int64(n)/2, 0, entry)
	if l.Flags&1 != 0 {
		l.Sub("One", entry)
	}
	l.U("Tail", 8)
}

// UText: terminated texts in the middle and at the end.
type UText struct {
	mp4.Box
	A string   `mp4:"0,string"`
	N uint16   `mp4:"1,size=16"`
	B string   `mp4:"2,string"`
	C [2]uint8 `mp4:"3,size=8,string"`
	D string   `mp4:"4,string"`
}

func (*UText) GetType() mp4.BoxType { return mp4.StrToBoxType("Utxt") }

func textLayout(l *ref.L) {
	l.CStr("A")
	l.U("N", 16)
	l.CStr("B")
	l.UA("C", 2, 8, ref.Text)
	l.CStr("D")
}

// UTail: a text that takes the rest of the box.
type UTail struct {
	mp4.FullBox `mp4:"0,extend"`
	Kind        uint8  `mp4:"1,size=8"`
	Text        string `mp4:"2,boxstring"`
}

func (*UTail) GetType() mp4.BoxType { return mp4.StrToBoxType("Utal") }

func tailLayout(l *ref.L) {
	l.Full(nil)
	l.U("Kind", 8)
	l.BoxStr("Text")
}

// UPascal: a text that may be counted; the box decides.
type UPascal struct {
	mp4.Box
	Mode uint8  `mp4:"0,size=8"`
	Text string `mp4:"1,string=c_p"`
	Tail uint8  `mp4:"2,size=8,opt=dynamic"`
}

func (*UPascal) GetType() mp4.BoxType { return mp4.StrToBoxType("Upas") }

func (u *UPascal) IsPString(name string, b []byte, remaining uint64, ctx mp4.Context) bool {
	switch u.Mode {
	case 1:
		return true
	case 2:
		return remaining == 1
	case 3:
		return bytes.HasPrefix(b, []byte("p"))
	}
	return false
}

func (u *UPascal) IsOptFieldEnabled(name string, ctx mp4.Context) bool { return u.Mode >= 2 }

func pascalLayout(l *ref.L) {
	m := l.U("Mode", 8, ref.Vals(0, 1, 2, 3))
	if l.Mode == ref.Dec {
		left := l.Left() / 8
		start := l.BitPos()
		if left >= 2 {
			n := int(l.Take(8))
			if n <= left-1 {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(l.Take(8))
				}
				rem := left - 1 - n
				if m == 1 || m == 2 && rem == 1 || m == 3 && n > 0 && b[0] == 'p' {
					l.Cur.Set("Text", string(b))
					l.NonCanonical = "counted text"
					if m >= 2 {
						l.U("Tail", 8)
					}
					return
				}
			}
			l.Rewind(start)
		}
	}
	l.CStr("Text")
	if m >= 2 {
		l.U("Tail", 8)
	}
}

// UHook looks at the payload before the fields are decoded.
type UHook struct {
	mp4.Box
	seen  []byte
	Value uint16 `mp4:"0,size=16"`
	Rest  []byte `mp4:"1,size=8"`
}

func (*UHook) GetType() mp4.BoxType { return mp4.StrToBoxType("Uhok") }

var errHook = errors.New("refused by the hook")

func (u *UHook) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	if size == 0 {
		return 0, false, nil
	}
	b := make([]byte, 1)
	if _, err := io.ReadFull(r, b); err != nil {
		return 0, false, err
	}
	switch b[0] & 3 {
	case 0: // consumed nothing
		_, err := r.Seek(-1, io.SeekCurrent)
		return 0, false, err
	case 1: // consumed the first byte
		u.seen = b
		return 1, false, nil
	case 2: // takes over
		u.seen = b
		u.Value = uint16(size)
		return 1, true, nil
	}
	return 0, false, errHook
}

// UAny is registered under several codes.
type UAny struct {
	mp4.AnyTypeBox
	K uint8  `mp4:"0,size=8,const=7"`
	H uint16 `mp4:"1,size=16,hidden"`
	V uint16 `mp4:"2,size=16"`
}

func anyLayout(l *ref.L) {
	l.U("K", 8, ref.Hid)
	l.U("H", 16, ref.Hid)
	l.U("V", 16)
}

// USized has structures of a declared size.
type USized struct {
	mp4.Box
	A struct {
		N uint8   `mp4:"0,size=8"`
		R []uint8 `mp4:"1,size=8"`
	} `mp4:"0,size=32"`
	L []struct {
		T string  `mp4:"0,string"`
		R []uint8 `mp4:"1,size=8"`
	} `mp4:"1,size=24,len=2"`
	E []struct {
		A uint8    `mp4:"0,size=4"`
		B []uint16 `mp4:"1,size=10"`
	} `mp4:"2,size=24"`
}

func (*USized) GetType() mp4.BoxType { return mp4.StrToBoxType("Usiz") }

func sizedLayout(l *ref.L) {
	// only decoding knows the declared sizes; encoding lays out what is there
	genN := func(n int) int {
		if l.Mode == ref.Gen {
			return n
		}
		return -1
	}
	l.Sub("A", func() {
		l.Within(4, func() { l.U("N", 8); l.UList("R", genN(3), 8) })
	})
	l.List("L", 2, 24, func() {
		l.Within(3, func() {
			if l.Mode == ref.Gen {
				k := l.Ch.Choose(3, "text")
				l.Cur.Set("T", "xy"[:k])
				for i := 0; i < k; i++ {
					l.Put(uint64("xy"[i]), 8)
				}
				l.Put(0, 8)
				l.UList("R", 2-k, 8)
				return
			}
			l.CStr("T")
			l.UList("R", -1, 8)
		})
	})
	l.List("E", -1, 24, func() {
		l.Within(3, func() { l.U("A", 4); l.UList("B", genN(2), 10, ref.Wide) })
	})
}

// UNest has embedded and nested structures with and without extend.
type UNest struct {
	mp4.Box
	UPart  `mp4:"0"`
	Inline UPart     `mp4:"1,extend"`
	Deep   UDeep     `mp4:"2"`
	Free   uint32    // not declared, not part of the box
	Bits   [9]bool   `mp4:"3,size=1"`
	Gap    uint8     `mp4:"4,size=7,hidden"`
	Matrix [3]uint32 `mp4:"5,size=32,hex"`
}

type UPart struct {
	X uint8 `mp4:"0,size=8"`
	Y int8  `mp4:"1,size=8"`
}

type UDeep struct {
	Z  uint16  `mp4:"1,size=16"`
	P  *UPart  `mp4:"0"`
	Ls []UPart `mp4:"2,len=1"`
}

func (*UNest) GetType() mp4.BoxType { return mp4.StrToBoxType("Unst") }

func nestLayout(l *ref.L) {
	part := func() { l.U("X", 8); l.S("Y", 8) }
	l.Sub("UPart", part)
	l.Opt1("Inline", part)
	l.Sub("Deep", func() {
		l.Sub("P", part)
		l.U("Z", 16)
		l.List("Ls", 1, 16, part)
	})
	l.BA("Bits", 9)
	l.U("Gap", 7, ref.Hid)
	l.UA("Matrix", 3, 32, ref.Hex)
}

// UVar: expandable integers among others.
type UVar struct {
	mp4.Box
	Lead  uint8    `mp4:"0,size=8"`
	A     uint32   `mp4:"1,varint"`
	B     uint64   `mp4:"2,varint"`
	Items []uint32 `mp4:"3,varint,len=2"`
	Tail  []uint8  `mp4:"4,size=8"`
}

func (*UVar) GetType() mp4.BoxType { return mp4.StrToBoxType("Uvar") }

func varLayout(l *ref.L) {
	big := ref.DevVals(127, 128, 1<<14-1, 1<<14, 1<<21-1, 1<<21, 1<<28-1)
	l.U("Lead", 8)
	l.Varint("A", big)
	l.Varint("B", big)
	l.VarintList("Items", 2)
	l.Rest("Tail")
}

// Three declarations whose types have the same names and different fields.
func sameOne() (mp4.IAnyType, func(*ref.L)) {
	type entry struct {
		A uint8 `mp4:"0,size=8"`
	}
	type same struct {
		mp4.AnyTypeBox
		N  uint8   `mp4:"0,size=8"`
		E  entry   `mp4:"1"`
		Es []entry `mp4:"2,len=2"`
	}
	return &same{}, func(l *ref.L) {
		f := func() { l.U("A", 8) }
		l.U("N", 8)
		l.Sub("E", f)
		l.List("Es", 2, 8, f)
	}
}

func sameTwo() (mp4.IAnyType, func(*ref.L)) {
	type entry struct {
		A uint16 `mp4:"0,size=16,hex"`
		B int8   `mp4:"1,size=8"`
	}
	type same struct {
		mp4.AnyTypeBox
		N  uint8   `mp4:"0,size=8"`
		E  entry   `mp4:"1"`
		Es []entry `mp4:"2,len=2"`
	}
	return &same{}, func(l *ref.L) {
		f := func() { l.U("A", 16, ref.Hex); l.S("B", 8) }
		l.U("N", 8)
		l.Sub("E", f)
		l.List("Es", 2, 24, f)
	}
}

func sameThree() (mp4.IAnyType, func(*ref.L)) {
	type entry struct {
		A uint8 `mp4:"0,size=4"`
		B uint8 `mp4:"1,size=4"`
	}
	type same struct {
		mp4.AnyTypeBox
		Es []entry `mp4:"3,len=2"`
		N  int16   `mp4:"0,size=16"`
		E  entry   `mp4:"2"`
	}
	return &same{}, func(l *ref.L) {
		f := func() { l.U("A", 4); l.U("B", 4) }
		l.S("N", 16)
		l.Sub("E", f)
		l.List("Es", 2, 8, f)
	}
}

var handDefs []*ref.Def

// registerUser makes all the types known to the library, once.
var registerUser = sync.OnceFunc(func() {
	for i := 0; i*uSlots*3 < len(uDecls); i++ {
		b := newUBox(i)
		b.ctl().typ = declType(i)
		mp4.AddBoxDef(b, 0, 1, 2)
	}
	mp4.AddBoxDef(&uWidth{uCtl: uCtl{typ: widthType}})
	def := func(b mp4.IBox, lay func(*ref.L), full bool, vers []uint64, ctxs ...ref.Ctx) {
		var vs []uint8
		for _, v := range vers {
			vs = append(vs, uint8(v))
		}
		mp4.AddBoxDef(b, vs...)
		t := b.GetType()
		if ctxs == nil {
			ctxs = []ref.Ctx{{}}
		}
		handDefs = append(handDefs, &ref.Def{Name: string(t[:]), Layout: lay, Full: full, Vers: vers, Ctxs: ctxs})
	}
	def(&UOrder{}, orderLayout, false, nil)
	def(&UExt{}, extLayout, true, []uint64{0, 1, 2})
	def(&UList{}, listLayout, true, []uint64{0}, ref.Ctx{}, ref.Ctx{QT: true})
	def(&UText{}, textLayout, false, nil)
	def(&UTail{}, tailLayout, true, nil)
	mp4.AddBoxDef(&UPascal{})
	def(&USized{}, sizedLayout, false, nil)
	def(&UNest{}, nestLayout, false, nil)
	def(&UVar{}, varLayout, false, nil)
	for _, n := range []string{"Uan1", "Uan2", "\xa9Uan"} {
		mp4.AddAnyTypeBoxDef(&UAny{}, btype(n))
		handDefs = append(handDefs, &ref.Def{Name: n, Layout: anyLayout, Ctxs: []ref.Ctx{{}, {QT: true, Wave: true}}})
	}
	mp4.AddBoxDef(&UHook{})
	for i, f := range []func() (mp4.IAnyType, func(*ref.L)){sameOne, sameTwo, sameThree} {
		b, lay := f()
		n := "Usm" + string(rune('1'+i))
		mp4.AddAnyTypeBoxDef(b, btype(n))
		handDefs = append(handDefs, &ref.Def{Name: n, Layout: lay, Ctxs: []ref.Ctx{{}}})
	}

	// boxes of trees
	mp4.AddBoxDef(&UCon{}, 0, 1)
	extra := func(t string, d *ref.Def, f func(ref.Ctx) bool) {
		old := ref.Extra[t]
		d.Name = t
		ref.Extra[t] = func(c ref.Ctx) *ref.Def {
			if f == nil || f(c) {
				return d
			}
			if old != nil {
				return old(c)
			}
			return nil
		}
	}
	extra("Ucon", &ref.Def{Full: true, Layout: func(l *ref.L) { l.Full([]uint64{0, 1}); l.U("N", 16) }}, nil)
	underUdta := func(c ref.Ctx) bool { return c.Udta }
	underWave := func(c ref.Ctx) bool { return c.Wave }
	uctx := mp4.StrToBoxType("Uctx")
	mp4.AddAnyTypeBoxDefEx(&regA{}, uctx, func(c mp4.Context) bool { return c.UnderUdta }, 0, 1)
	extra("Uctx", &ref.Def{Full: true, Layout: func(l *ref.L) { l.Full([]uint64{0, 1}); l.U("A", 16) }}, underUdta)
	mp4.AddAnyTypeBoxDefEx(&regC{}, uctx, func(c mp4.Context) bool { return c.UnderWave })
	extra("Uctx", &ref.Def{Layout: func(l *ref.L) { l.U("Version", 8); l.S("C", 24) }}, underWave)
	mp4.AddAnyTypeBoxDefEx(&regB{}, mp4.StrToBoxType("free"), func(c mp4.Context) bool { return c.UnderUdta }, 0)
	extra("free", &ref.Def{Full: true, Layout: func(l *ref.L) { l.Full([]uint64{0}); l.Rest("B") }}, underUdta)
})

// UCon is a container with fields of its own.
type UCon struct {
	mp4.FullBox `mp4:"0,extend"`
	N           uint16 `mp4:"1,size=16"`
}

func (*UCon) GetType() mp4.BoxType { return mp4.StrToBoxType("Ucon") }

var userKinds = []kind{container("udta"), container("wave"), {"Ucon", "Ucon", true, fixed(1, 0, 0, 0, 0x12, 0x34)},
	{"Uctx", "Uctx", true, func(_ *mc.X, c ref.Ctx) []byte {
		if c.Wave {
			return []byte{9, 0xff, 0, 1}
		}
		return []byte{1, 0, 0, 0, 0xff, 0}
	}},
	{"Uctx-0", "Uctx", false, fixed(0, 0, 0, 0)}, raw("free", 0, 0, 0, 1, 2), raw("free", 3, 0, 0, 0, 2), {"Ucon-2", "Ucon", false, fixed(2, 0, 0, 0, 0x12, 0x34)}, {"Unew", "Unew", true, fixed()}}

func userTrees(nodes int, extract bool) func(x *mc.X) {
	return func(x *mc.X) {
		g := &growth{x: x, kinds: userKinds, left: nodes, known: extract}
		bs := g.level(ref.Ctx{}, true)
		data := ref.Cat(bs...)
		x.Describe("file %s", shape(bs))
		if extract {
			f := ref.Parse(data)
			extractRequest(x, f)
			return
		}
		x.State(data)
		w := newWalker(x, data, supported("PE"))
		w.key = "user-tree"
		w.run()
		x.Outcome(shape(bs), w.f.Err != nil)
	}
}

var pascalDef = &ref.Def{Name: "Upas", Layout: pascalLayout, Ctxs: []ref.Ctx{{}}}

// pascalBody: counted and terminated texts, told apart by the box.
func pascalBody(max int) func(x *mc.X) {
	return func(x *mc.X) {
		p := []byte{byte(x.Choose(5, "mode"))}
		n := x.Choose(max+1, "len")
		for i := 0; i < n; i++ {
			p = append(p, []byte{0, 1, 2, 3, 4, 'p', 0xff}[x.Choose(7, "b")])
		}
		post := [][]byte{nil, {'x', 0, 'y', 'z', 'z'}}[x.Choose(2, "post")]
		t := target{pascalDef, ref.Ctx{}}
		exp := ref.Decode(t.d, t.ctx, p)
		describe(x, t, p)
		x.State(p)
		x.Outcome(exp.Err, exp.N)
		checkDecode(x, t, p, post, exp, 2)
		if exp.Err == nil {
			b, err := build("Upas", t.ctx, exp.Val)
			if err != nil {
				x.Fail("pascal", "New: %v", err)
			}
			want, _ := ref.Encode(t.d, t.ctx, exp.Val)
			var buf bytes.Buffer
			if m, err := mp4.Marshal(&buf, b, mp4.Context{}); err != nil || m != uint64(buf.Len()) || !bytes.Equal(buf.Bytes(), want) {
				x.Fail("pascal:encode", "wrote %x (n=%d, %v), want %x", buf.Bytes(), m, err, want)
			}
		}
	}
}

func handTargets() (ts []target) {
	for _, d := range handDefs {
		for _, c := range d.Ctxs {
			ts = append(ts, target{d, c})
		}
	}
	return ts
}

// hookBody: what the hook consumed counts, and a hook that takes over ends the decoding.
func hookBody(x *mc.X) {
	n := x.Choose(6, "len")
	p := make([]byte, n)
	for i := range p {
		p[i] = []byte{0, 1, 2, 3, 0xfd}[x.Choose(5, "b")]
	}
	x.Describe("payload %x", p)
	x.State(p)
	r := pad(2, p, postJunk)
	b := &UHook{}
	got, err := mp4.Unmarshal(r, uint64(n), b, mp4.Context{})
	at := pos(r) - 2
	skip, over := 0, false
	if n > 0 {
		switch p[0] & 3 {
		case 1:
			skip = 1
		case 2:
			over = true
		case 3:
			x.Outcome("refused")
			if !errors.Is(err, errHook) {
				x.Fail("hook:error", "the error of the hook was not passed on: %v", err)
			}
			return
		}
	}
	x.Outcome(skip, over, n-skip >= 2)
	if over {
		if err != nil || got != 1 || at != 1 || b.Value != uint16(n) || b.Rest != nil {
			x.Fail("hook:override", "n=%d (%v) at %d value %+v", got, err, at, b)
		}
		return
	}
	if n-skip < 2 {
		if err == nil {
			x.Fail("hook:short", "decoded %d of %d bytes", got, n)
		}
		return
	}
	q := p[skip:]
	if err != nil || got != uint64(n) || at != int64(n) || b.Value != uint16(q[0])<<8|uint16(q[1]) || !bytes.Equal(b.Rest, q[2:]) || len(b.seen) != skip {
		x.Fail("hook:fields", "n=%d (%v) at %d value %+v", got, err, at, b)
	}
}

// ---- registrations

type regA struct {
	mp4.FullBox `mp4:"0,extend"`
	uTyped
	A uint16 `mp4:"1,size=16"`
}

type regB struct {
	mp4.FullBox `mp4:"0,extend"`
	uTyped
	B []uint8 `mp4:"1,size=8"`
}

type regC struct {
	mp4.AnyTypeBox
	Version uint8 `mp4:"0,size=8"`
	C       int32 `mp4:"1,size=24"`
}

type uTyped struct{ code mp4.BoxType }

func (u *uTyped) GetType() mp4.BoxType { return u.code }

// SetType makes regA and regB usable under any code.
func (u *uTyped) SetType(t mp4.BoxType) { u.code = t }

var regCode uint32

type registration struct {
	payload int // A B C
	pred    int
	vers    []uint8
}

var preds = []struct {
	name string
	f    func(mp4.Context) bool
}{{"", nil}, {"quicktime", func(c mp4.Context) bool { return c.IsQuickTimeCompatible }}, {"wave", func(c mp4.Context) bool { return c.UnderWave }},
	{"udta or ilst", func(c mp4.Context) bool { return c.UnderUdta || c.UnderIlst }}, {"never", func(mp4.Context) bool { return false }},
	{"not quicktime", func(c mp4.Context) bool { return !c.IsQuickTimeCompatible }}}

var regVers = [][]uint8{nil, {0}, {1, 2}}

var regCtxs = []ref.Ctx{{}, {QT: true}, {Wave: true}, {Udta: true}, {Ilst: true}, {QT: true, Wave: true, Udta: true}}

func registryBody(max int) func(x *mc.X) {
	return func(x *mc.X) {
		regCode++
		code := mp4.BoxType{'R', byte(regCode >> 16), byte(regCode >> 8), byte(regCode)}
		var regs []registration
		n := x.Choose(max+1, "registrations")
		check := func() {
			for _, rc := range regCtxs {
				checkRegistry(x, code, regs, rc)
			}
		}
		for i := 0; i < n; i++ {
			r := registration{x.Choose(3, "payload"), x.Choose(len(preds), "predicate"), regVers[x.Choose(len(regVers), "versions")]}
			any := r.payload == 2 || x.Choose(2, "any") == 1
			x.Describe("register payload %c, any type %v, applicable %q, versions %v", 'A'+rune(r.payload), any, preds[r.pred].name, r.vers)
			var p mp4.IBox
			switch r.payload {
			case 0:
				p = &regA{uTyped: uTyped{code}}
			case 1:
				p = &regB{uTyped: uTyped{code}}
			case 2:
				p = &regC{}
			}
			f := preds[r.pred].f
			switch {
			case any && f == nil:
				mp4.AddAnyTypeBoxDef(p.(mp4.IAnyType), code, r.vers...)
			case any:
				mp4.AddAnyTypeBoxDefEx(p.(mp4.IAnyType), code, f, r.vers...)
			case f == nil:
				mp4.AddBoxDef(p, r.vers...)
			default:
				mp4.AddBoxDefEx(p, f, r.vers...)
			}
			regs = append(regs, r)
			if i == 0 && n > 1 && x.Choose(2, "early") == 1 {
				check() // in use before the next registration
			}
		}
		s := ""
		for _, r := range regs {
			s += fmt.Sprint(r.payload, r.pred, r.vers)
		}
		x.State(s)
		check()
		// neighbouring codes are not affected
		other := code
		other[3] ^= 0x80
		other[0] = 'Q'
		if other.IsSupported(mp4.Context{}) {
			x.Fail("registry:neighbour", "type %v is reported as known", other)
		}
	}
}

func checkRegistry(x *mc.X, code mp4.BoxType, regs []registration, rc ref.Ctx) {
	ctx := toCtx(rc)
	var d *registration
	for i := range regs {
		if f := preds[regs[i].pred].f; f == nil || f(ctx) {
			d = &regs[i]
		}
	}
	key := "registry"
	x.Outcome(fmt.Sprint(d))
	x.Describe("context %+v", rc)
	if code.IsSupported(ctx) != (d != nil) {
		x.Fail(key+":supported", "IsSupported = %v", d == nil)
	}
	b, err := code.New(ctx)
	vs, verr := code.GetSupportedVersions(ctx)
	// version 1, no flags, 2 bytes
	p := []byte{1, 0, 0, 0, 0x12, 0x34}
	r := pad(1, p, nil)
	u, n, uerr := mp4.UnmarshalAny(r, code, uint64(len(p)), ctx)
	if d == nil {
		if !errors.Is(err, mp4.ErrBoxInfoNotFound) || !errors.Is(verr, mp4.ErrBoxInfoNotFound) || !errors.Is(uerr, mp4.ErrBoxInfoNotFound) {
			x.Fail(key+":unknown", "New: %v, GetSupportedVersions: %v, UnmarshalAny: %v", err, verr, uerr)
		}
		if code.IsSupportedVersion(0, ctx) || pos(r) != 1 {
			x.Fail(key+":unknown", "a version is supported or the stream was moved")
		}
		return
	}
	if err != nil || verr != nil {
		x.Fail(key+":known", "New: %v, GetSupportedVersions: %v", err, verr)
	}
	if b.GetType() != code && d.payload == 2 {
		x.Fail(key+":type", "New gives type %v", b.GetType())
	}
	if b.GetType() != code {
		x.Fail(key+":type", "New gives type %v", b.GetType())
	}
	okType := false
	switch d.payload {
	case 0:
		_, okType = b.(*regA)
	case 1:
		_, okType = b.(*regB)
	case 2:
		_, okType = b.(*regC)
	}
	if !okType {
		x.Fail(key+":latest", "New gives a %T, want payload %c", b, 'A'+rune(d.payload))
	}
	if len(vs) != len(d.vers) {
		x.Fail(key+":versions", "GetSupportedVersions = %v, want %v", vs, d.vers)
	}
	for _, v := range []uint8{0, 1, 2, 3, 255} {
		want := len(d.vers) == 0 || strings.IndexByte(string(d.vers), v) >= 0
		if code.IsSupportedVersion(v, ctx) != want {
			x.Fail(key+":versions", "IsSupportedVersion(%d) = %v", v, !want)
		}
	}
	bi := mp4.BoxInfo{Type: code, Context: ctx}
	if !bi.IsSupportedType() {
		x.Fail(key+":supported", "IsSupportedType = false")
	}
	ver1 := len(d.vers) == 0 || d.vers[0] == 1
	if d.payload != 2 && !ver1 {
		if !errors.Is(uerr, mp4.ErrUnsupportedBoxVersion) || pos(r) != 1 {
			x.Fail(key+":version", "version 1 of %v: %v, stream at %d", d.vers, uerr, pos(r))
		}
		return
	}
	want := uint64(6)
	ok := false
	switch d.payload {
	case 0:
		v, is := u.(*regA)
		ok = is && v.A == 0x1234 && v.GetVersion() == 1
	case 1:
		v, is := u.(*regB)
		ok = is && bytes.Equal(v.B, []byte{0x12, 0x34})
	case 2:
		v, is := u.(*regC)
		ok, want = is && v.Version == 1 && v.C == 0, 4
	}
	if uerr != nil || n != want || !ok || u.GetType() != code {
		x.Fail(key+":decode", "decoded as %+v (n=%d, %v)", u, n, uerr)
	}
	// the same definition serves encoding and rendering
	var buf bytes.Buffer
	m, err := mp4.Marshal(&buf, u, ctx)
	if err != nil || m != want || !bytes.Equal(buf.Bytes(), p[:want]) {
		x.Fail(key+":encode", "re-encoded as %x (%v)", buf.Bytes(), err)
	}
	s, err := mp4.Stringify(u, ctx)
	ws := []string{"Version=1 Flags=0x000000 A=4660", "Version=1 Flags=0x000000 B=[0x12, 0x34]", "Version=1 C=0"}[d.payload]
	if err != nil || s != ws {
		x.Fail(key+":render", "rendered as %q (%v), want %q", s, err, ws)
	}
}

func c22(tier string) []*mc.Unit {
	registerUser()
	ts := handTargets()
	units := []*mc.Unit{
		{Name: "declarations", Bound: depth(tier, 1, 2), Weight: 6, Body: declBody(tier, false)},
		{Name: "declarations-3", Bound: depth(tier, 0, 1), Weight: 3, Body: declBody(tier, true)},
		{Name: "widths", Bound: depth(tier, 1, 2), Weight: 3, Body: widthBody},
		{Name: "booleans", Bound: 0, Body: boolBody},
		{Name: "hand-decode", Bound: depth(tier, 1, 2), Weight: 2, Body: decodeBody(ts, tier, "")},
		{Name: "hand-encode", Bound: depth(tier, 1, 2), Weight: 2, Body: encodeBody(ts, tier, "")},
		{Name: "hand-render", Bound: depth(tier, 1, 2), Body: renderBody(ts, tier, "")},
		{Name: "pascal", Bound: 0, Body: pascalBody(depth(tier, 4, 6))},
		{Name: "hooks", Bound: 0, Body: hookBody},
		{Name: "trees", Bound: 0, Weight: 2, Body: userTrees(depth(tier, 4, 5), false)},
		{Name: "extraction", Bound: 0, Weight: 2, Body: userTrees(depth(tier, 3, 4), true)},
		{Name: "registrations", Bound: 0, Serial: true, Weight: 3, Body: registryBody(depth(tier, 2, 3))},
	}
	for _, u := range roundUnits(ts, tier) {
		u.Name = "hand-" + u.Name
		units = append(units, u)
	}
	for _, u := range malformedUnits(ts, tier) {
		u.Name = "hand-malformed-" + u.Name
		units = append(units, u)
	}
	return units
}
