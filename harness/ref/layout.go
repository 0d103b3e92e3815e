//go:build go1.22

// Package ref is the reference model: box layouts, contexts, box trees and
// their expected interpretation, written from the published box layouts and
// independent of the implementation (it imports nothing from it).
package ref

import (
	"errors"
	"fmt"
	"hash/fnv"
	"strconv"
	"unicode"
)

// Chooser supplies the choices of generation (implemented by mc.X).
type Chooser interface {
	Choose(n int, label string) int
	Dev(n int, label string) int
}

// Obj is a decoded structure: ordered named values.
// Value kinds: uint64, int64, bool, string, []uint64, []int64, []bool, *Obj, []*Obj.
type Obj struct {
	Keys []string
	Vals map[string]interface{}
}

// NewObj returns an empty object.
func NewObj() *Obj { return &Obj{Vals: map[string]interface{}{}} }

// Set stores a value.
func (o *Obj) Set(k string, v interface{}) {
	if _, ok := o.Vals[k]; !ok {
		o.Keys = append(o.Keys, k)
	}
	o.Vals[k] = v
}

// U returns an unsigned value.
func (o *Obj) U(k string) uint64 { v, _ := o.Vals[k].(uint64); return v }

// S returns a signed value.
func (o *Obj) S(k string) int64 { v, _ := o.Vals[k].(int64); return v }

// Has reports whether the field is present.
func (o *Obj) Has(k string) bool { _, ok := o.Vals[k]; return ok }

// Mode of a layout walk.
type Mode int

// Modes.
const (
	Dec Mode = iota // bits -> Obj
	Enc             // Obj -> bits
	Gen             // choices -> Obj (and bits)
	Str             // Obj -> text
)

// Errors a decode can end with.
var (
	ErrShort   = errors.New("payload too short")
	ErrVersion = errors.New("unsupported version")
	ErrShape   = errors.New("inconsistent payload")
)

type layoutErr struct{ err error }

// Ctx is the interpretation context of a box.
type Ctx struct {
	QT       bool
	Keys     int
	Wave     bool
	Ilst     bool
	IlstMeta bool
	IlstFree bool
	Udta     bool
}

// L walks a layout.
type L struct {
	Mode Mode
	Ctx  Ctx
	Cur  *Obj

	// Dec
	In  []byte
	pos int // bits
	lim int // bits
	// Enc/Gen
	out  []byte
	nbit int
	// Gen
	Ch      Chooser
	Pattern int
	path    string
	Large   bool // offer large lengths
	// NonCanonical is set when re-encoding is not expected to be identical.
	NonCanonical string
	// Unspecified is set when the outcome is outside the property.
	Unspecified string
	Version     uint8
	HasVersion  bool
	Flags       uint32
	mustTerm    bool   // texts need their terminator
	genOpts     uint64 // length chosen for the last list of an entry

	// Str
	buf    []byte
	indent string
	depth  int
}

func (l *L) fail(err error) { panic(layoutErr{err}) }

// ---- options

type opt struct {
	hex, dec, hid, iso, uuid, str bool
	wide                          bool // the field's type is wider than 8 bits although it is stored in 8 bits or less
	vals                          []uint64
	svals                         []int64
	dev                           []uint64
	fmtU                          func(l *L, v uint64) (string, bool)
	fmtS                          func(l *L, v int64) (string, bool)
	fmtB                          func(l *L, v []uint64) (string, bool)
	maxLen                        int
	count                         bool  // the number of elements that follow
	from                          int64 // plus this
}

// Opt is a field option.
type Opt func(*opt)

// Count marks a field that tells a number of elements.
func Count(o *opt) { o.count = true }

// CountFrom marks a field that tells a number of bytes, its own size included.
func CountFrom(n int64) Opt { return func(o *opt) { o.count, o.from = true, n } }

// Longer is a Chooser that decides lengths.
type Longer interface {
	// Long is asked for the number of elements of a size in bits, at most max.
	Long(label string, max uint64, unit int) uint64
}

// Options.
func Hex(o *opt)  { o.hex = true }
func Decm(o *opt) { o.dec = true }
func Hid(o *opt)  { o.hid = true }
func Iso(o *opt)  { o.iso = true }
func Uuid(o *opt) { o.uuid = true }
func Text(o *opt) { o.str = true }
func Wide(o *opt) { o.wide = true }

// Vals makes the field a control field: all values are explored.
func Vals(v ...uint64) Opt { return func(o *opt) { o.vals = v } }

// SVals is Vals for signed fields.
func SVals(v ...int64) Opt { return func(o *opt) { o.svals = v } }

// DevVals adds values explored as deviations.
func DevVals(v ...uint64) Opt { return func(o *opt) { o.dev = v } }

// FmtU gives a custom notation.
func FmtU(f func(l *L, v uint64) (string, bool)) Opt { return func(o *opt) { o.fmtU = f } }

// FmtS gives a custom notation.
func FmtS(f func(l *L, v int64) (string, bool)) Opt { return func(o *opt) { o.fmtS = f } }

// FmtB gives a custom notation for byte lists.
func FmtB(f func(l *L, v []uint64) (string, bool)) Opt { return func(o *opt) { o.fmtB = f } }

func mk(opts []Opt) *opt {
	o := &opt{}
	for _, f := range opts {
		f(o)
	}
	return o
}

// ---- bit access

func (l *L) left() int { return l.lim - l.pos }

// BitPos is the number of bits laid out so far.
func (l *L) BitPos() int {
	if l.Mode == Dec {
		return l.pos
	}
	return l.nbit
}

// Left gives the bits left of the payload (decoding only).
func (l *L) Left() int { return l.lim - l.pos }

// Take reads n bits (decoding only).
func (l *L) Take(n int) uint64 { return l.get(n) }

// Put writes n bits (encoding only).
func (l *L) Put(v uint64, n int) { l.put(v, n) }

// Rewind goes back to a position (decoding only).
func (l *L) Rewind(p int) { l.pos = p }

// Depth is the depth handed to custom notations.
func (l *L) Depth() int { return l.depth + 1 }

// Indent is the indentation in use.
func (l *L) Indent() string { return l.indent }

// VarintList is a fixed number of expandable integers.
func (l *L) VarintList(name string, n int) {
	save := l.Cur
	var v []uint64
	if l.Mode == Enc || l.Mode == Str {
		v, _ = save.Vals[name].([]uint64)
		if len(v) < n {
			l.fail(ErrShape)
		}
	}
	if l.Mode == Str {
		l.field(name, &opt{}, func() {
			l.w("[")
			for i, e := range v[:n] {
				if i > 0 {
					l.w(", ")
				}
				l.w(strconv.FormatUint(e, 10))
			}
			l.w("]")
		})
		return
	}
	for i := 0; i < n; i++ {
		l.Cur = NewObj()
		if l.Mode == Enc {
			l.Cur.Set(name, v[i])
			l.Varint(name)
			continue
		}
		v = append(v, l.Varint(name))
	}
	l.Cur = save
	if l.Mode != Enc {
		l.Cur.Set(name, v)
	}
}

// Refuse ends the walk: the payload cannot be laid out.
func (l *L) Refuse() { l.fail(ErrShape) }

func (l *L) get(n int) uint64 {
	if l.left() < n {
		l.fail(ErrShort)
	}
	var v uint64
	for ; n >= 8 && l.pos&7 == 0; n -= 8 {
		v = v<<8 | uint64(l.In[l.pos>>3])
		l.pos += 8
	}
	for i := 0; i < n; i++ {
		b := l.In[l.pos>>3] >> (7 - uint(l.pos&7)) & 1
		v = v<<1 | uint64(b)
		l.pos++
	}
	return v
}

func (l *L) put(v uint64, n int) {
	for ; n >= 8 && n <= 64 && l.nbit&7 == 0; n -= 8 {
		l.out = append(l.out, byte(v>>uint(n-8)))
		l.nbit += 8
	}
	for i := n - 1; i >= 0; i-- {
		if l.nbit&7 == 0 {
			l.out = append(l.out, 0)
		}
		if i < 64 && v>>uint(i)&1 == 1 {
			l.out[l.nbit>>3] |= 0x80 >> uint(l.nbit&7)
		}
		l.nbit++
	}
}

func mask(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(n) - 1
}

func (l *L) patt(name string, i, n int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", l.path, name, i)
	v := h.Sum64()
	v ^= v >> 29
	v *= 0xbf58476d1ce4e5b9
	v ^= v >> 32
	if l.Pattern&1 == 1 {
		v = ^v
	}
	return v & mask(n)
}

func (l *L) genU(name string, bits int, o *opt) uint64 {
	if g, ok := l.Ch.(Longer); ok && o.count {
		return g.Long(l.path+name, mask(bits), 16)
	}
	if o.vals != nil {
		n := len(o.vals)
		if len(o.dev) > 0 {
			if d := l.Ch.Dev(1+len(o.dev), l.path+name+"'"); d > 0 {
				return o.dev[d-1] & mask(bits)
			}
		}
		return o.vals[l.Ch.Choose(n, l.path+name)] & mask(bits)
	}
	def := l.patt(name, 0, bits)
	alts := []uint64{0, mask(bits)}
	if bits > 1 {
		alts = append(alts, 1<<uint(bits-1), mask(bits)>>1, 1)
	}
	alts = append(alts, o.dev...)
	if d := l.Ch.Dev(1+len(alts), l.path+name); d > 0 {
		return alts[d-1] & mask(bits)
	}
	return def
}

func sext(v uint64, bits int) int64 {
	if bits < 64 && v>>uint(bits-1)&1 == 1 {
		v |= ^mask(bits)
	}
	return int64(v)
}

// ---- scalar fields

// U is an unsigned integer field.
func (l *L) U(name string, bits int, opts ...Opt) uint64 {
	o := mk(opts)
	var v uint64
	switch l.Mode {
	case Dec:
		v = l.get(bits)
		l.Cur.Set(name, v)
	case Enc:
		v = l.Cur.U(name)
		l.put(v, bits)
	case Gen:
		v = l.genU(name, bits, o)
		l.Cur.Set(name, v)
		l.put(v, bits)
	case Str:
		v = l.Cur.U(name)
		l.field(name, o, func() {
			if o.fmtU != nil {
				if s, ok := o.fmtU(l, v); ok {
					l.w(s)
					return
				}
			}
			l.w(fmtUint(v, bits, o))
		})
	}
	return v
}

func fmtUint(v uint64, bits int, o *opt) string {
	if o.hex || (!o.dec && bits <= 8 && !o.wide) {
		return "0x" + strconv.FormatUint(v, 16)
	}
	return strconv.FormatUint(v, 10)
}

// S is a two's complement signed integer field.
func (l *L) S(name string, bits int, opts ...Opt) int64 {
	o := mk(opts)
	var v int64
	switch l.Mode {
	case Dec:
		v = sext(l.get(bits), bits)
		l.Cur.Set(name, v)
	case Enc:
		v = l.Cur.S(name)
		l.put(uint64(v)&mask(bits), bits)
	case Gen:
		if g, ok := l.Ch.(Longer); ok && o.count {
			v = o.from + int64(g.Long(l.path+name, mask(bits-1)-uint64(o.from), 16))
		} else if o.svals != nil {
			v = o.svals[l.Ch.Choose(len(o.svals), l.path+name)]
		} else {
			v = sext(l.genU(name, bits, o), bits)
		}
		l.Cur.Set(name, v)
		l.put(uint64(v)&mask(bits), bits)
	case Str:
		v = l.Cur.S(name)
		l.field(name, o, func() {
			if o.fmtS != nil {
				if s, ok := o.fmtS(l, v); ok {
					l.w(s)
					return
				}
			}
			l.w(fmtInt(v, o))
		})
	}
	return v
}

func fmtInt(v int64, o *opt) string {
	if !o.hex {
		return strconv.FormatInt(v, 10)
	}
	if v < 0 {
		return "-0x" + strconv.FormatUint(uint64(-v), 16)
	}
	return "0x" + strconv.FormatUint(uint64(v), 16)
}

// B is a one-bit boolean.
func (l *L) B(name string, opts ...Opt) bool {
	o := mk(opts)
	var v bool
	switch l.Mode {
	case Dec:
		v = l.get(1) == 1
		l.Cur.Set(name, v)
	case Enc:
		v, _ = l.Cur.Vals[name].(bool)
		l.put(b2u(v), 1)
	case Gen:
		if o.vals != nil {
			v = o.vals[l.Ch.Choose(len(o.vals), l.path+name)] != 0
		} else {
			v = l.patt(name, 0, 1) == 1
			if l.Ch.Dev(2, l.path+name) == 1 {
				v = !v
			}
		}
		l.Cur.Set(name, v)
		l.put(b2u(v), 1)
	case Str:
		v, _ = l.Cur.Vals[name].(bool)
		l.field(name, o, func() { l.w(strconv.FormatBool(v)) })
	}
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// BA is a fixed-length array of one-bit booleans.
func (l *L) BA(name string, n int, opts ...Opt) {
	o := mk(opts)
	switch l.Mode {
	case Dec:
		v := make([]bool, n)
		for i := range v {
			v[i] = l.get(1) == 1
		}
		l.Cur.Set(name, v)
	case Enc:
		for _, b := range l.Cur.Vals[name].([]bool) {
			l.put(b2u(b), 1)
		}
	case Gen:
		v := make([]bool, n)
		d := l.Ch.Dev(1+n, l.path+name)
		for i := range v {
			v[i] = l.patt(name, i, 1) == 1
			if d == i+1 {
				v[i] = !v[i]
			}
			l.put(b2u(v[i]), 1)
		}
		l.Cur.Set(name, v)
	case Str:
		l.field(name, o, func() {
			l.w("[")
			for i, b := range l.Cur.Vals[name].([]bool) {
				if i > 0 {
					l.w(", ")
				}
				l.w(strconv.FormatBool(b))
			}
			l.w("]")
		})
	}
}

// ---- arrays and lists of integers

// UA is a fixed-length array of unsigned integers.
func (l *L) UA(name string, n, bits int, opts ...Opt) []uint64 {
	return l.ulist(name, n, bits, true, opts)
}

// UList is a list of n unsigned integers; n < 0 means up to the end.
func (l *L) UList(name string, n, bits int, opts ...Opt) []uint64 {
	return l.ulist(name, n, bits, false, opts)
}

// Bytes is a list of n bytes.
func (l *L) Bytes(name string, n int, opts ...Opt) []uint64 { return l.ulist(name, n, 8, false, opts) }

// Rest is the bytes up to the end of the payload.
func (l *L) Rest(name string, opts ...Opt) []uint64 { return l.ulist(name, -1, 8, false, opts) }

// lengths for unlimited byte lists in generation
var restLens = []int{0, 1, 3}
var restLensDev = []int{2, 5, 16, 17, 255, 256, 257}
var restLensLarge = []int{1000, 4095, 4096, 4097, 65535, 65536}

func (l *L) genLen(name string, unit int) int {
	if g, ok := l.Ch.(Longer); ok {
		return int(g.Long(l.path+name+".len", 1<<32-1, unit))
	}
	devs := restLensDev
	if l.Large {
		devs = append(append([]int{}, devs...), restLensLarge...)
	}
	if unit > 8 { // lists of larger elements
		devs = []int{3, 17, 64}
		if l.Large {
			devs = append(devs, 300)
		}
		lens := []int{0, 1, 2}
		if d := l.Ch.Dev(1+len(devs), l.path+name+".len'"); d > 0 {
			return devs[d-1]
		}
		return lens[l.Ch.Choose(len(lens), l.path+name+".len")]
	}
	if d := l.Ch.Dev(1+len(devs), l.path+name+".len'"); d > 0 {
		return devs[d-1]
	}
	return restLens[l.Ch.Choose(len(restLens), l.path+name+".len")]
}

func (l *L) ulist(name string, n, bits int, fixed bool, opts []Opt) []uint64 {
	o := mk(opts)
	var v []uint64
	switch l.Mode {
	case Dec:
		if n < 0 {
			if l.left()%bits != 0 {
				l.fail(ErrShape)
			}
			n = l.left() / bits
		}
		if n > l.left()/bits {
			l.fail(ErrShort)
		}
		v = make([]uint64, n)
		for i := range v {
			v[i] = l.get(bits)
		}
		l.Cur.Set(name, v)
	case Enc:
		v, _ = l.Cur.Vals[name].([]uint64)
		if n < 0 {
			n = len(v)
		}
		if n > len(v) {
			l.fail(ErrShape)
		}
		for _, e := range v[:n] {
			l.put(e, bits)
		}
	case Gen:
		if n < 0 {
			n = l.genLen(name, bits)
		}
		v = make([]uint64, n)
		for i := range v {
			v[i] = l.patt(name, i, bits)
			if o.str {
				v[i] = 0x20 + v[i]%0x5f
			}
		}
		if n > 0 {
			alts := []uint64{0, mask(bits)}
			if bits > 8 {
				alts = append(alts, 1<<uint(bits-1), 1)
			}
			if o.str {
				alts = append(alts, 0x7f, 0x0a, 0xc3, '"', '\\')
			}
			k := n
			if k > 4 {
				k = 4
			}
			if d := l.Ch.Dev(1+len(alts)*k, l.path+name); d > 0 {
				i := (d - 1) / len(alts)
				if i == k-1 {
					i = n - 1
				}
				v[i] = alts[(d-1)%len(alts)]
			}
		}
		for _, e := range v {
			l.put(e, bits)
		}
		l.Cur.Set(name, v)
	case Str:
		v, _ = l.Cur.Vals[name].([]uint64)
		if n >= 0 && len(v) > n {
			v = v[:n]
		}
		l.field(name, o, func() {
			if o.fmtB != nil {
				if s, ok := o.fmtB(l, v); ok {
					l.w(s)
					return
				}
			}
			switch {
			case o.str:
				l.w("\"" + Mask(bytesOf(v)) + "\"")
			case o.iso:
				l.w("\"")
				for _, e := range v {
					l.buf = append(l.buf, byte(e+0x60))
				}
				l.w("\"")
			case o.uuid:
				l.w(fmtUUID(v))
			default:
				l.w("[")
				for i, e := range v {
					if i > 0 {
						l.w(", ")
					}
					l.w(fmtUint(e, bits, o))
				}
				l.w("]")
			}
		})
	}
	return v
}

func bytesOf(v []uint64) string {
	b := make([]byte, len(v))
	for i, e := range v {
		b[i] = byte(e)
	}
	return string(b)
}

func fmtUUID(v []uint64) string {
	s := ""
	for i, e := range v {
		s += fmt.Sprintf("%02x", e)
		if i == 3 || i == 5 || i == 7 || i == 9 {
			s += "-"
		}
	}
	return s
}

// Mask replaces characters that are not graphic by a dot.
func Mask(s string) string {
	out := []rune{}
	for _, r := range s {
		if !unicode.IsGraphic(r) {
			r = '.'
		}
		out = append(out, r)
	}
	return string(out)
}

// SA is a fixed array of signed integers; SList a list (n<0: to the end).
func (l *L) SA(name string, n, bits int, opts ...Opt) { l.slist(name, n, bits, opts) }

// SList is a list of signed integers.
func (l *L) SList(name string, n, bits int, opts ...Opt) { l.slist(name, n, bits, opts) }

func (l *L) slist(name string, n, bits int, opts []Opt) {
	o := mk(opts)
	switch l.Mode {
	case Dec:
		if n < 0 {
			if l.left()%bits != 0 {
				l.fail(ErrShape)
			}
			n = l.left() / bits
		}
		if n > l.left()/bits {
			l.fail(ErrShort)
		}
		v := make([]int64, n)
		for i := range v {
			v[i] = sext(l.get(bits), bits)
		}
		l.Cur.Set(name, v)
	case Enc:
		v, _ := l.Cur.Vals[name].([]int64)
		if n < 0 {
			n = len(v)
		}
		if n > len(v) {
			l.fail(ErrShape)
		}
		for _, e := range v[:n] {
			l.put(uint64(e)&mask(bits), bits)
		}
	case Gen:
		if n < 0 {
			n = l.genLen(name, bits)
		}
		v := make([]int64, n)
		for i := range v {
			v[i] = sext(l.patt(name, i, bits), bits)
		}
		if n > 0 {
			alts := []int64{0, -1, sext(1<<uint(bits-1), bits), int64(mask(bits - 1))}
			k := n
			if k > 9 {
				k = 9
			}
			if d := l.Ch.Dev(1+len(alts)*k, l.path+name); d > 0 {
				v[(d-1)/len(alts)] = alts[(d-1)%len(alts)]
			}
		}
		for _, e := range v {
			l.put(uint64(e)&mask(bits), bits)
		}
		l.Cur.Set(name, v)
	case Str:
		v, _ := l.Cur.Vals[name].([]int64)
		if n >= 0 && len(v) > n {
			v = v[:n]
		}
		l.field(name, o, func() {
			l.w("[")
			for i, e := range v {
				if i > 0 {
					l.w(", ")
				}
				l.w(fmtInt(e, o))
			}
			l.w("]")
		})
	}
}

// ---- structures

// Emb lays out an embedded structure: its fields belong to the enclosing one.
func (l *L) Emb(f func()) { f() }

// Sub is a nested structure.
func (l *L) Sub(name string, f func()) {
	switch l.Mode {
	case Str:
		l.field(name, &opt{}, func() {
			save := l.Cur
			l.Cur = save.Vals[name].(*Obj)
			l.group(0, f)
			l.Cur = save
		})
	default:
		l.nested(name, f)
	}
}

// Opt1 is a nested structure whose fields are rendered as part of the enclosing one.
func (l *L) Opt1(name string, f func()) {
	if l.Mode == Str {
		save := l.Cur
		l.Cur = save.Vals[name].(*Obj)
		f()
		l.Cur = save
		return
	}
	l.nested(name, f)
}

func (l *L) nested(name string, f func()) {
	save, sp := l.Cur, l.path
	switch l.Mode {
	case Enc:
		o, ok := save.Vals[name].(*Obj)
		if !ok {
			l.fail(ErrShape)
		}
		l.Cur = o
	default:
		l.Cur = NewObj()
		save.Set(name, l.Cur)
	}
	l.path = sp + name + "."
	f()
	l.Cur, l.path = save, sp
}

// List is a list of n structures; n < 0 means up to the end of the payload, where
// elemBits (if not 0) must divide what is left.
func (l *L) List(name string, n int64, elemBits int, f func()) {
	save, sp := l.Cur, l.path
	switch l.Mode {
	case Dec:
		var v []*Obj
		if n < 0 && elemBits != 0 && l.left()%elemBits != 0 {
			l.fail(ErrShape)
		}
		for i := int64(0); n < 0 && l.left() > 0 || n >= 0 && i < n; i++ {
			l.Cur = NewObj()
			p := l.pos
			f()
			if l.pos == p {
				if n < 0 || n > 1<<16 {
					l.fail(ErrShape)
				}
			}
			v = append(v, l.Cur)
		}
		l.Cur = save
		save.Set(name, v)
	case Enc:
		v, _ := save.Vals[name].([]*Obj)
		if n < 0 {
			n = int64(len(v))
		}
		if n > int64(len(v)) {
			l.fail(ErrShape)
		}
		for _, o := range v[:n] {
			l.Cur = o
			f()
		}
		l.Cur = save
	case Gen:
		if n < 0 {
			if elemBits != 0 && elemBits <= 8 {
				elemBits = 16
			}
			n = int64(l.genLen(name, 16))
		}
		v := make([]*Obj, 0, n)
		for i := int64(0); i < n; i++ {
			l.Cur = NewObj()
			l.path = fmt.Sprintf("%s%s[%d].", sp, name, i)
			if i >= 3 {
				// only the first elements vary; the rest follow the pattern
				ch := l.Ch
				l.Ch = zeroChooser{}
				f()
				l.Ch = ch
			} else {
				f()
			}
			v = append(v, l.Cur)
		}
		l.Cur, l.path = save, sp
		save.Set(name, v)
	case Str:
		l.field(name, &opt{}, func() {
			v, _ := save.Vals[name].([]*Obj)
			if n >= 0 && int64(len(v)) > n {
				v = v[:n]
			}
			l.w("[")
			for i, o := range v {
				if i > 0 {
					l.w(", ")
				}
				l.Cur = o
				l.group(1, f)
			}
			l.Cur = save
			l.w("]")
		})
	}
}

type zeroChooser struct{}

func (zeroChooser) Choose(int, string) int { return 0 }
func (zeroChooser) Dev(int, string) int    { return 0 }

// ZeroChooser always takes the first alternative.
func ZeroChooser() Chooser { return zeroChooser{} }

// Within restricts the fields laid out by f to exactly n bytes (0: no restriction).
func (l *L) Within(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	switch l.Mode {
	case Dec:
		if l.left() < n*8 {
			l.fail(ErrShort)
		}
		save := l.lim
		end := l.pos + n*8
		l.lim = end
		f()
		if l.pos != end {
			l.fail(ErrShape)
		}
		l.lim = save
	default:
		f()
	}
}

// Varint is an expandable length integer (7 bits per byte).
func (l *L) Varint(name string, opts ...Opt) uint64 {
	o := mk(opts)
	var v uint64
	switch l.Mode {
	case Dec:
		n := 0
		for {
			b := l.get(8)
			n++
			v = v<<7 | b&0x7f
			if b&0x80 == 0 {
				break
			}
		}
		if n != 4 {
			l.NonCanonical = "length integer not in four-byte form"
		}
		if v > 0xffffffff {
			l.Unspecified = "length integer beyond 32 bits"
		}
		l.Cur.Set(name, v)
	case Enc, Gen:
		if l.Mode == Gen {
			v = l.genU(name, 28, o)
			l.Cur.Set(name, v)
		} else {
			v = l.Cur.U(name)
		}
		if v >= 1<<28 {
			l.fail(ErrShape)
		}
		for i := 3; i >= 0; i-- {
			b := v >> uint(7*i) & 0x7f
			if i > 0 {
				b |= 0x80
			}
			l.put(b, 8)
		}
	case Str:
		v = l.Cur.U(name)
		l.field(name, o, func() { l.w(strconv.FormatUint(v, 10)) })
	}
	return v
}

// ---- text

var strDefault = []string{"", "a", "txt"}
var strDev = []string{"caf\xc3\xa9", "a\x01b", "\xff\xfe", "quote\" back\\ [x]{y}", "0123456789abcdef", "0123456789abcdefg", "%d%s\ttab"}

func (l *L) genStr(name string) string {
	if g, ok := l.Ch.(Longer); ok {
		b := make([]byte, g.Long(l.path+name+".len", 1<<32-1, 8))
		for i := range b {
			b[i] = '0' + byte(l.patt(name, i, 8)%0x40)
		}
		return string(b)
	}
	n := len(strDev) + 2
	if d := l.Ch.Dev(1+n, l.path+name+"'"); d > 0 {
		if d <= len(strDev) {
			return strDev[d-1]
		}
		b := make([]byte, []int{255, 256}[d-1-len(strDev)])
		for i := range b {
			b[i] = 'A' + byte(i%26)
		}
		return string(b)
	}
	return strDefault[l.Ch.Choose(len(strDefault), l.path+name)]
}

// CStr is a NUL-terminated text; at the end of the payload the terminator may be missing.
func (l *L) CStr(name string, opts ...Opt) string { return l.str(name, false, opts) }

// BoxStr is a text that extends to the end of the box and has no terminator.
func (l *L) BoxStr(name string, opts ...Opt) string { return l.str(name, true, opts) }

func (l *L) str(name string, box bool, opts []Opt) string {
	o := mk(opts)
	var v string
	switch l.Mode {
	case Dec:
		var b []byte
		term := false
		for l.left() > 0 {
			c := byte(l.get(8))
			if c == 0 {
				term = true
				break
			}
			b = append(b, c)
		}
		if !term && l.mustTerm {
			l.fail(ErrShort)
		}
		if !term && !box {
			l.NonCanonical = "text without terminator"
		}
		if box && term {
			l.NonCanonical = "terminator in unterminated text"
		}
		v = string(b)
		l.Cur.Set(name, v)
	case Enc, Gen:
		if l.Mode == Gen {
			v = l.genStr(name)
			l.Cur.Set(name, v)
		} else {
			v, _ = l.Cur.Vals[name].(string)
		}
		for i := 0; i < len(v); i++ {
			l.put(uint64(v[i]), 8)
		}
		if !box {
			l.put(0, 8)
		}
	case Str:
		v, _ = l.Cur.Vals[name].(string)
		l.field(name, o, func() { l.w("\"" + Mask(v) + "\"") })
	}
	return v
}

// ---- text rendering

func (l *L) w(s string) { l.buf = append(l.buf, s...) }

func (l *L) ind(n int) {
	for i := 0; i < n; i++ {
		l.w(l.indent)
	}
}

func (l *L) field(name string, o *opt, val func()) {
	if o.hid {
		return
	}
	if l.indent != "" {
		l.ind(l.depth + 1)
	} else if n := len(l.buf); n != 0 && l.buf[n-1] != '{' {
		l.w(" ")
	}
	l.w(name)
	l.w("=")
	val()
	if l.indent != "" {
		l.w("\n")
	}
}

func (l *L) group(extra int, f func()) {
	save := l.depth
	l.depth += extra
	l.w("{")
	if l.indent != "" {
		l.w("\n")
	}
	l.depth++
	f()
	if l.indent != "" {
		l.ind(l.depth)
	}
	l.w("}")
	l.depth = save
}

// Full lays out version and flags; vers restricts the accepted versions.
func (l *L) Full(vers []uint64, flags ...uint64) {
	opts := []Opt{Decm}
	if vers != nil {
		opts = append(opts, Vals(vers...))
	} else {
		opts = append(opts, Vals(0, 1))
	}
	switch l.Mode {
	case Str:
		l.field("Version", &opt{}, func() { l.w(strconv.FormatUint(l.Cur.U("Version"), 10)) })
		f := l.Cur.Vals["Flags"].([]uint64)
		l.Version = uint8(l.Cur.U("Version"))
		l.Flags = uint32(f[0]<<16 | f[1]<<8 | f[2])
		l.field("Flags", &opt{}, func() { l.w(fmt.Sprintf("0x%06x", l.Flags)) })
		return
	case Gen:
		l.Version = uint8(l.U("Version", 8, opts...))
		var fl uint64
		if len(flags) == 0 {
			flags = []uint64{0}
		}
		fl = flags[l.Ch.Choose(len(flags), "flags")]
		if d := l.Ch.Dev(4, "flags'"); d > 0 {
			// bits without a meaning for any box
			fl ^= []uint64{0x800000, 0x400000, 0x008000}[d-1]
		}
		v := []uint64{fl >> 16 & 0xff, fl >> 8 & 0xff, fl & 0xff}
		l.Cur.Set("Flags", v)
		for _, b := range v {
			l.put(b, 8)
		}
		l.Flags = uint32(fl)
	case Dec:
		l.Version = uint8(l.get(8))
		l.Cur.Set("Version", uint64(l.Version))
		v := []uint64{l.get(8), l.get(8), l.get(8)}
		l.Cur.Set("Flags", v)
		l.Flags = uint32(v[0]<<16 | v[1]<<8 | v[2])
		if vers != nil {
			ok := false
			for _, a := range vers {
				ok = ok || a == uint64(l.Version)
			}
			if !ok {
				l.fail(ErrVersion)
			}
		}
	case Enc:
		l.Version = uint8(l.Cur.U("Version"))
		l.put(uint64(l.Version), 8)
		f := l.Cur.Vals["Flags"].([]uint64)
		for _, b := range f {
			l.put(b, 8)
		}
		l.Flags = uint32(f[0]<<16 | f[1]<<8 | f[2])
	}
	l.HasVersion = true
}

// ---- entry points

func protect(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if le, ok := r.(layoutErr); ok {
				err = le.err
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// Decoded is what decoding a payload must give.
type Decoded struct {
	Val          *Obj
	N            int
	Err          error
	NonCanonical string
	Unspecified  string
	Version      uint8
}

// Decode interprets a payload.
func Decode(d *Def, ctx Ctx, payload []byte) Decoded {
	l := &L{Mode: Dec, Ctx: ctx, In: payload, lim: len(payload) * 8, Cur: NewObj()}
	root := l.Cur
	err := protect(func() { d.Layout(l) })
	if err == nil && l.pos%8 != 0 {
		err = ErrShape
	}
	r := Decoded{Val: root, N: l.pos / 8, Err: err, NonCanonical: l.NonCanonical, Unspecified: l.Unspecified, Version: l.Version}
	if err == nil && r.N != len(payload) && r.NonCanonical == "" {
		r.NonCanonical = "data after the last field"
	}
	return r
}

// Encode lays out a value.
func Encode(d *Def, ctx Ctx, v *Obj) ([]byte, error) {
	l := &L{Mode: Enc, Ctx: ctx, Cur: v}
	err := protect(func() { d.Layout(l) })
	if err == nil && l.nbit%8 != 0 {
		err = ErrShape
	}
	return l.out, err
}

// Generate builds a value and its payload from choices.
func Generate(d *Def, ctx Ctx, ch Chooser, large bool) (*Obj, []byte) {
	l := &L{Mode: Gen, Ctx: ctx, Cur: NewObj(), Ch: ch, Large: large}
	l.Pattern = ch.Choose(2, "pattern")
	root := l.Cur
	if err := protect(func() { d.Layout(l) }); err != nil {
		panic("ref: generation failed for " + d.Name + ": " + err.Error())
	}
	return root, l.out
}

// Render gives the text form.
func Render(d *Def, ctx Ctx, v *Obj, indent string) string {
	l := &L{Mode: Str, Ctx: ctx, Cur: v, indent: indent}
	if err := protect(func() { d.Layout(l) }); err != nil {
		return "<" + err.Error() + ">"
	}
	return string(l.buf)
}
