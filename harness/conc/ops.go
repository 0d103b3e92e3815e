//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/abema/go-mp4"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

// op is one operation on streams and values of its own. It performs the operation and returns a
// function that describes the outcome (called when all goroutines have ended, since describing uses
// shared facilities of the standard library).
type op struct {
	name string
	run  func() func() string
	core bool
}

// ---- streams that yield

// rs is a read stream: the others may run after each operation.
type rs struct {
	r *bytes.Reader
	// coarse streams stop yielding after the second of several small reads in a row
	coarse bool
	small  int
}

func newRS(b []byte) *rs { return &rs{r: bytes.NewReader(b)} }

func newCoarse(b []byte) *rs { return &rs{r: bytes.NewReader(b), coarse: true} }

func (s *rs) Read(p []byte) (int, error) {
	n, err := s.r.Read(p)
	if s.small++; len(p) > 2 {
		s.small = 0
	}
	if !s.coarse || s.small <= 2 {
		yield()
	}
	return n, err
}

func (s *rs) Seek(o int64, w int) (int64, error) {
	n, err := s.r.Seek(o, w)
	s.small = 0
	yield()
	return n, err
}

// ws is a read/write stream: the others may run before a write takes the bytes.
type ws struct {
	buf []byte
	pos int64
}

func (s *ws) Write(p []byte) (int, error) {
	yield()
	end := s.pos + int64(len(p))
	for int64(len(s.buf)) < end {
		s.buf = append(s.buf, 0)
	}
	copy(s.buf[s.pos:end], p)
	s.pos = end
	return len(p), nil
}

func (s *ws) Seek(o int64, w int) (int64, error) {
	yield()
	switch w {
	case io.SeekCurrent:
		o += s.pos
	case io.SeekEnd:
		o += int64(len(s.buf))
	}
	s.pos = o
	return o, nil
}

func (s *ws) Read(p []byte) (int, error) {
	if s.pos >= int64(len(s.buf)) {
		return 0, io.EOF
	}
	n := copy(p, s.buf[s.pos:])
	s.pos += int64(n)
	yield()
	return n, nil
}

// ---- describing outcomes

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

func bad(err error) string {
	if err == nil {
		return "ok"
	}
	return "error"
}

// ---- single types

type target struct {
	d   *ref.Def
	ctx ref.Ctx
}

func targets() (out []target) {
	item := false
	for _, d := range ref.AllDefs() {
		for _, n := range ref.IlstTypes {
			if d.Name == n && ref.Lookup(n, ref.Ctx{}) != d && ref.Lookup(n, ref.Ctx{Udta: true}) != d {
				if item && n != "----" {
					d = nil
				}
				item = true
				break
			}
		}
		if d == nil {
			continue
		}
		for _, c := range d.Ctxs {
			out = append(out, target{d, c})
		}
	}
	return out
}

type pickN int

func (f pickN) Choose(n int, _ string) int {
	if int(f) < n {
		return int(f)
	}
	return n - 1
}
func (pickN) Dev(int, string) int { return 0 }

// richest is the variant of the value with the longest payload among those that fit.
func richest(t target, max int) (*ref.Obj, []byte) {
	var bo *ref.Obj
	var bp []byte
	for _, c := range []pickN{1, 2, 3, 5, 0} {
		o, p := ref.Generate(t.d, t.ctx, c, false)
		if bo == nil || len(p) > len(bp) && len(p) <= max {
			bo, bp = o, p
		}
	}
	return bo, bp
}

func variant(t target, v int) (*ref.Obj, []byte) {
	if v == 0 {
		return richest(t, 96)
	}
	return ref.Generate(t.d, t.ctx, pickN(1), false)
}

var kinds = []string{"decode", "encode", "render"}

func typeOp(t target, kind string, v int) *op {
	obj, payload := variant(t, v)
	ctx := toCtx(t.ctx)
	typ := btype(t.d.Name)
	name := fmt.Sprintf("%s %s #%d", kind, printable(t.d.Name), v)
	switch kind {
	case "decode":
		return &op{name: name, run: func() func() string {
			b, n, err := mp4.UnmarshalAny(newRS(payload), typ, uint64(len(payload)), ctx)
			return func() string {
				d := ""
				if err == nil {
					d = diffBox(b, obj)
				}
				return fmt.Sprint(bad(err), n, js(b), d)
			}
		}}
	case "encode":
		return &op{name: name, run: func() func() string {
			b, err := build(t.d.Name, t.ctx, obj)
			if err != nil {
				return func() string { return "no box" }
			}
			w := &ws{}
			n, err := mp4.Marshal(w, b, ctx)
			return func() string { return fmt.Sprint(bad(err), n, fmt.Sprintf("%x", w.buf)) }
		}}
	default:
		return &op{name: name, run: func() func() string {
			b, err := build(t.d.Name, t.ctx, obj)
			if err != nil {
				return func() string { return "no box" }
			}
			yield()
			s, err := mp4.StringifyWithIndent(b, " ", ctx)
			yield()
			return func() string { return bad(err) + s }
		}}
	}
}

// ---- files

func full(f uint32) ref.W { return ref.Full(0, f) }

func item(typ string, n byte) *ref.Box {
	return ref.B(typ, nil, ref.B("data", full(1).U32(0).S("v").U8('0'+n)))
}

// tagged is a file with item lists of both kinds, whose meaning depends on what came before.
func tagged(qt bool, keys int) []byte {
	brand := "isom"
	if qt {
		brand = "qt  "
	}
	meta := ref.B("meta", full(0), ref.B("hdlr", full(0).U32(0).S("mdta").Zero(12).U8(0)))
	if keys > 0 {
		k := full(0).U32(uint32(keys))
		for i := 0; i < keys; i++ {
			k = k.U32(9).S("mdtak")
		}
		meta.Kids = append(meta.Kids, ref.B("keys", k))
	}
	meta.Kids = append(meta.Kids, ref.B("ilst", nil, item("\x00\x00\x00\x01", 1), item("\x00\x00\x00\x02", 2)))
	return ref.Cat(ref.B("ftyp", ref.W{}.S(brand).U32(0).S(brand)), ref.B("moov", nil, ref.B("udta", nil, meta)))
}

func stds(qt bool) []byte {
	brand := "isom"
	if qt {
		brand = "qt  "
	}
	snd := ref.W{}.Zero(6).U16(1)
	if qt {
		snd = snd.U16(1)
	} else {
		snd = snd.U16(0)
	}
	snd = snd.Zero(6).U16(2).U16(16).U16(0).U16(0).U32(44100 << 16)
	if qt {
		snd = snd.U32(1024).U32(1).U32(2).U32(2)
	}
	return ref.Cat(ref.B("ftyp", ref.W{}.S(brand).U32(0).S(brand)),
		ref.B("stsd", full(0).U32(1), ref.B("mp4a", snd, ref.B("free", []byte{1, 2}))))
}

// walkResult collects what the handler saw.
type visit struct {
	Path   string
	Typ    string
	Off    uint64
	Size   uint64
	Ctx    mp4.Context
	Box    mp4.IBox
	N      uint64
	Err    bool
	Sup    bool
	Data   []byte
	Kids   int
	Params []interface{}
}

func pathOf(p mp4.BoxPath) string {
	var b strings.Builder
	for _, t := range p {
		b.Write(t[:])
		b.WriteByte('/')
	}
	return b.String()
}

func walkOp(name string, data []byte) *op {
	return &op{name: "walk " + name, run: func() func() string {
		var vs []*visit
		res, err := mp4.ReadBoxStructure(newCoarse(data), func(h *mp4.ReadHandle) (interface{}, error) {
			yield()
			v := &visit{Path: pathOf(h.Path), Typ: string(h.BoxInfo.Type[:]), Off: h.BoxInfo.Offset, Size: h.BoxInfo.Size, Ctx: h.BoxInfo.Context}
			v.Sup = h.BoxInfo.IsSupportedType()
			vs = append(vs, v)
			if !v.Sup {
				var w bytes.Buffer
				n, err := h.ReadData(&w)
				v.Data, v.N, v.Err = w.Bytes(), n, err != nil
				return "raw", nil
			}
			b, n, err := h.ReadPayload()
			v.Box, v.N, v.Err = b, n, err != nil
			if err != nil {
				return nil, err
			}
			ks, err := h.Expand(len(vs))
			v.Kids = len(ks)
			v.Params = h.Params
			return len(ks), err
		})
		return func() string { return bad(err) + js(res) + js(vs) }
	}}
}

func toPath(p string) (out mp4.BoxPath) {
	for _, e := range strings.Split(p, "/") {
		if e == "*" {
			out = append(out, mp4.BoxTypeAny())
			continue
		}
		out = append(out, btype(e))
	}
	return
}

func extractOp(name string, data []byte, paths ...string) *op {
	return &op{name: "extract " + name, run: func() func() string {
		var ps []mp4.BoxPath
		for _, p := range paths {
			ps = append(ps, toPath(p))
		}
		bs, err := mp4.ExtractBoxesWithPayload(newCoarse(data), nil, ps)
		return func() string {
			s := bad(err)
			for _, b := range bs {
				s += fmt.Sprintf("%+v %s\n", b.Info, js(b.Payload))
			}
			return s
		}
	}}
}

func probeOp(name string, data []byte) *op {
	return &op{name: "probe " + name, run: func() func() string {
		p, err := mp4.Probe(newCoarse(data))
		return func() string { return bad(err) + js(p) }
	}}
}

func track(id uint32) *ref.Track {
	return &ref.Track{ID: id, Timescale: 1000 * id, Duration: 70 + uint64(id), Codec: ref.AVC1,
		Video:  ref.Video{W: 320, H: 180, Conf: 1, Profile: 77, Compat: 0x40, Level: 30, LengthSize: 4},
		Audio:  ref.Audio{Channels: 2, OTI: 0x40, ASC: []byte{0x12, 0x10}},
		Chunks: []uint64{8, 17}, Stts: []ref.Run{{N: 2, Delta: 10 * id}}, Stsc: []ref.SC{{First: 1, Per: 1}},
		Stsz: []uint32{9, 11}}
}

func movie() *ref.Movie {
	return &ref.Movie{Brands: []string{"isom", "isom"}, Minor: 1, Timescale: 1000, Duration: 50, MdatLen: 24}
}

func small(codec int, id uint32) []byte {
	m := movie()
	t := track(id)
	t.Codec = codec
	m.Tracks = []*ref.Track{t}
	return ref.Cat(m.Layout()...)
}

func frags(id uint32, n int) []byte {
	m := movie()
	for i := 0; i < n; i++ {
		m.Frags = append(m.Frags, &ref.Frag{TrackID: id, HasDur: true, DefDur: 100 * id, HasSize: true, DefSize: 5, Tfdt: 2,
			Base: uint64(1000*i) + uint64(id), HasTrun: true, TrunFlags: 0x301, N: 2, Dur: []uint32{id, 20}, Size: []uint32{3, id},
			Cts: []int64{0, 0}, Mdat: []byte{1, 2, 3}})
	}
	m.Order = 2
	return ref.Cat(m.Layout()...)
}

// stream is a file whose media data are two AVC samples; units lists their NAL unit types.
func idrOp(name string, units []byte) *op {
	t := track(1)
	t.Stsz, t.Stts = nil, []ref.Run{{N: uint32(len(units)), Delta: 1}}
	var media ref.W
	for i, u := range units {
		media = media.U32(uint32(2+i)).U8(u).Fill(1+i, 0xcc)
		t.Stsz = append(t.Stsz, uint32(6+i))
	}
	t.Chunks = []uint64{0}
	t.Stsc = []ref.SC{{First: 1, Per: uint32(len(units))}}
	tr := &mp4.Track{Codec: mp4.CodecAVC1, AVC: &mp4.AVCDecConfigInfo{LengthSize: 4}}
	c := &mp4.Chunk{SamplesPerChunk: uint32(len(units))}
	tr.Chunks = append(tr.Chunks, c)
	for _, s := range t.Stsz {
		tr.Samples = append(tr.Samples, &mp4.Sample{Size: s})
	}
	return &op{name: "idr " + name, run: func() func() string {
		idx, err := mp4.FindIDRFrames(newRS(media), tr)
		return func() string { return bad(err) + js(idx) }
	}}
}

func writeOp(v byte) *op {
	return &op{name: fmt.Sprintf("write #%d", v), run: func() func() string {
		f := &ws{}
		w := mp4.NewWriter(f)
		var infos []*mp4.BoxInfo
		var errs []bool
		var lens []uint64
		start := func(t string, hdr uint64) {
			bi, err := w.StartBox(&mp4.BoxInfo{Type: btype(t), HeaderSize: hdr})
			infos, errs = append(infos, bi), append(errs, err != nil)
		}
		end := func() {
			bi, err := w.EndBox()
			infos, errs = append(infos, bi), append(errs, err != nil)
		}
		val := func(b mp4.IImmutableBox) {
			n, err := mp4.Marshal(w, b, mp4.Context{})
			lens, errs = append(lens, n), append(errs, err != nil)
		}
		start("moov", 8+8*uint64(v))
		start("mfhd", 8)
		val(&mp4.Mfhd{SequenceNumber: uint32(v) + 7})
		end()
		start("free", 16)
		w.Write(bytes.Repeat([]byte{v}, 1+int(v)))
		end()
		end()
		err := w.CopyBox(newRS([]byte{0, 0, 0, 10, 'f', 'r', 'e', 'e', v, 7, 1}), &mp4.BoxInfo{Size: 10, HeaderSize: 8, Type: btype("free")})
		errs = append(errs, err != nil)
		return func() string { return js(infos) + js(errs) + js(lens) + fmt.Sprintf("%x", f.buf) }
	}}
}

func headerOp(v byte) *op {
	return &op{name: fmt.Sprintf("header #%d", v), run: func() func() string {
		f := &ws{}
		var infos []*mp4.BoxInfo
		var errs []bool
		for _, bi := range []*mp4.BoxInfo{{Type: btype("aaaa"), Size: 8 + uint64(v), HeaderSize: 8}, {Type: btype("bbbb"), Size: 16, HeaderSize: 16}, {Type: btype("cccc"), ExtendToEOF: v == 1, Size: 8, HeaderSize: 8}} {
			r, err := mp4.WriteBoxInfo(f, bi)
			infos, errs = append(infos, r), append(errs, err != nil)
		}
		r := newRS(f.buf)
		for i := 0; i < 3; i++ {
			bi, err := mp4.ReadBoxInfo(r)
			infos, errs = append(infos, bi), append(errs, err != nil)
			if err == nil && i == 0 {
				r.Seek(8, io.SeekStart)
			}
		}
		return func() string { return js(infos) + js(errs) + fmt.Sprintf("%x", f.buf) }
	}}
}

// registryOp asks about types in a context; between the questions the others may run.
func registryOp(name string, ctx mp4.Context, types ...string) *op {
	return &op{name: "registry " + name, run: func() func() string {
		var out []interface{}
		for _, t := range types {
			bt := btype(t)
			sup := bt.IsSupported(ctx)
			yield()
			vs, err := bt.GetSupportedVersions(ctx)
			vs = append([]uint8{}, vs...)
			yield()
			b, err2 := bt.New(ctx)
			yield()
			name := bt.String()
			var bn []byte
			if err2 == nil {
				tt := b.GetType()
				bn = append(bn, tt[:]...)
			}
			yield()
			out = append(out, sup, vs, err != nil, err2 != nil, bn, name, bt.IsSupportedVersion(0, ctx), bt.IsSupportedVersion(1, ctx), bt.IsSupportedVersion(9, ctx), b)
		}
		return func() string { return js(out) }
	}}
}

// ---- a type of the user's with callbacks

type ConcEntry struct {
	mp4.BaseCustomFieldObject
	Len  uint8  `mp4:"0,size=8"`
	Data []byte `mp4:"1,size=8,len=dynamic"`
}

func (e *ConcEntry) GetFieldLength(name string, ctx mp4.Context) uint {
	yield()
	return uint(e.Len)
}

func (e *ConcEntry) StringifyField(name string, indent string, depth int, ctx mp4.Context) (string, bool) {
	yield()
	if name == "Len" {
		return "<len>", true
	}
	return "", false
}

type ConcBox struct {
	mp4.FullBox `mp4:"0,extend"`
	Width       uint8       `mp4:"1,size=8"`
	Count       uint32      `mp4:"2,size=dynamic"`
	Opt         uint16      `mp4:"3,size=16,opt=dynamic"`
	V1          uint8       `mp4:"4,size=8,ver=1"`
	Entries     []ConcEntry `mp4:"5,len=dynamic"`
}

func (*ConcBox) GetType() mp4.BoxType { return mp4.BoxType{'c', 'o', 'n', 'c'} }
func (b *ConcBox) GetFieldSize(name string, ctx mp4.Context) uint {
	yield()
	return uint(b.Width)
}
func (b *ConcBox) GetFieldLength(name string, ctx mp4.Context) uint {
	yield()
	return uint(b.Count)
}
func (b *ConcBox) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	yield()
	return b.Width == 16
}
func (b *ConcBox) StringifyField(name string, indent string, depth int, ctx mp4.Context) (string, bool) {
	yield()
	return "", false
}

func init() {
	mp4.AddBoxDefEx(&ConcBox{}, func(mp4.Context) bool { yield(); return true }, 0, 1)
}

func userOp(kind string, v byte) *op {
	mkBox := func() *ConcBox {
		b := &ConcBox{Width: 8 + 8*v, Count: 1 + uint32(v), Opt: 0x1234 * uint16(v), Entries: []ConcEntry{{Len: v, Data: bytes.Repeat([]byte{0x40 + v}, int(v))}}}
		for i := uint32(1); i < b.Count; i++ {
			b.Entries = append(b.Entries, ConcEntry{Len: 1, Data: []byte{v}})
		}
		b.Version = 1 - v
		if b.Version == 1 {
			b.V1 = 9
		}
		return b
	}
	p := full(0)
	b := mkBox()
	p[0] = b.Version
	p = p.U8(b.Width)
	if v == 0 {
		p = p.U8(byte(b.Count), b.V1)
	} else {
		p = p.U16(uint16(b.Count)).U16(b.Opt)
	}
	for _, e := range b.Entries {
		p = append(p.U8(e.Len), e.Data...)
	}
	return &op{name: fmt.Sprintf("user %s #%d", kind, v), run: func() func() string {
		switch kind {
		case "decode":
			b := &ConcBox{}
			n, err := mp4.Unmarshal(newRS(p), uint64(len(p)), b, mp4.Context{})
			return func() string { return fmt.Sprint(bad(err), n, js(b), js(mkBox()) == js(b)) }
		case "encode":
			w := &ws{}
			n, err := mp4.Marshal(w, mkBox(), mp4.Context{})
			return func() string { return fmt.Sprint(bad(err), n, fmt.Sprintf("%x", w.buf), bytes.Equal(w.buf, p)) }
		default:
			s, err := mp4.Stringify(mkBox(), mp4.Context{})
			return func() string { return bad(err) + s }
		}
	}}
}

// ---- the alphabet

func find(ts []target, name string) target {
	for _, t := range ts {
		if t.d.Name == name {
			return t
		}
	}
	panic("no type " + name)
}

// alphabet is the list of operations whose combinations are scheduled.
func alphabet() (out []*op) {
	ts := targets()
	add := func(o ...*op) { out = append(out, o...) }
	short := func(o ...*op) {
		for _, e := range o {
			e.core = true
		}
		out = append(out, o...)
	}
	short(typeOp(find(ts, "trun"), "decode", 0), typeOp(find(ts, "trun"), "encode", 0), typeOp(find(ts, "trun"), "render", 0))
	short(typeOp(find(ts, "esds"), "decode", 0), typeOp(find(ts, "esds"), "encode", 1))
	short(typeOp(find(ts, "avcC"), "decode", 1), typeOp(find(ts, "avcC"), "render", 0))
	add(typeOp(find(ts, "hdlr"), "decode", 1), typeOp(find(ts, "emsg"), "encode", 0))
	add(typeOp(find(ts, "data"), "render", 0), typeOp(find(ts, "mdhd"), "encode", 1))
	short(userOp("decode", 0), userOp("encode", 1), userOp("render", 1))
	add(userOp("decode", 1), writeOp(1))
	short(headerOp(0), headerOp(1), writeOp(0))
	short(walkOp("one", stds(false)[20:]), walkOp("other", ref.Cat(ref.B("moov", nil, ref.B("free", []byte{1})))))
	add(walkOp("tagged qt", tagged(true, 2)), walkOp("tagged", tagged(false, 0)), walkOp("tagged 1", tagged(false, 1)))
	add(walkOp("sound qt", stds(true)), walkOp("sound", stds(false)))
	add(extractOp("tagged", tagged(true, 2), "moov/udta/meta/ilst/\x00\x00\x00\x01", "ftyp"), extractOp("sound", stds(false), "stsd/*"))
	add(probeOp("movie", small(ref.AVC1, 1)), probeOp("audio", small(ref.MP4A, 2)), probeOp("fragments", frags(1, 1)))
	short(idrOp("1", []byte{5, 1}), idrOp("2", []byte{1, 5, 7}))
	short(registryOp("plain", mp4.Context{}, "moov", "xxxx", "\x00\x00\x00\x01"))
	short(registryOp("items", mp4.Context{UnderIlst: true, QuickTimeKeysMetaEntryCount: 2}, "\x00\x00\x00\x02", "\x00\x00\x00\x03", "\xa9nam"))
	return out
}

// ---- operations on more data than fits into common buffers

func noise(n int, v byte) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(i*7+i>>8) ^ v*0x55
	}
	return out
}

// sum describes long data.
func sum(b []byte) string { return fmt.Sprintf("%d bytes, %x", len(b), hash(string(b))) }

func largeOps() (out []*op) {
	for v := byte(0); v < 2; v++ {
		v := v
		data := noise(70000+int(v), v+1)
		file := ref.Cat(ref.B("free", []byte{v}), ref.B("mdat", data), ref.B("free", nil))
		w := ref.Full(0, 0).U32(3000)
		for i := 0; i < 3000; i++ {
			w = w.U32(uint32(i) + uint32(v)<<16).U32(uint32(i * 3))
		}
		table := []byte(w)
		var wide []byte
		for i := 0; i < 60; i++ {
			wide = append(wide, ref.Cat(ref.B("free", noise(i%5, v)))...)
		}
		wide = ref.Cat(ref.B("moov", wide))
		deep := ref.B("free", []byte{v})
		for i := 0; i < 40; i++ {
			deep = ref.B([]string{"moov", "trak", "udta"}[(i+int(v))%3], nil, deep)
		}
		deepFile := ref.Cat(deep)
		var many []mp4.BoxPath
		for i := 0; i < 40; i++ {
			many = append(many, mp4.BoxPath{btype("moov"), mp4.BoxType{'a' + v, 'b', 'c', byte('0' + i)}})
		}
		many = append(many, mp4.BoxPath{btype("moov"), btype("free")})
		name := func(s string) string { return fmt.Sprintf("large %s #%d", s, v) }
		out = append(out,
			&op{name: name("data"), run: func() func() string {
				d := &ws{}
				_, err := mp4.ReadBoxStructure(newRS(file), func(h *mp4.ReadHandle) (interface{}, error) {
					return h.ReadData(d)
				})
				return func() string { return bad(err) + sum(d.buf) }
			}},
			&op{name: name("copy"), run: func() func() string {
				d := &ws{}
				err := mp4.NewWriter(d).CopyBox(newRS(file), &mp4.BoxInfo{Offset: 9, Size: uint64(8 + len(data)), HeaderSize: 8, Type: btype("mdat")})
				return func() string { return bad(err) + sum(d.buf) }
			}},
			&op{name: name("decode"), run: func() func() string {
				b := &mp4.Mdat{}
				n, err := mp4.Unmarshal(newCoarse(data), uint64(len(data)), b, mp4.Context{})
				return func() string { return bad(err) + fmt.Sprint(n) + sum(b.Data) }
			}},
			&op{name: name("encode"), run: func() func() string {
				d := &quiet{}
				n, err := mp4.Marshal(d, &mp4.Mdat{Data: data}, mp4.Context{})
				return func() string { return bad(err) + fmt.Sprint(n) + sum(d.buf) }
			}},
			&op{name: name("decode table"), run: func() func() string {
				b := &mp4.Stts{}
				n, err := mp4.Unmarshal(newCoarse(table), uint64(len(table)), b, mp4.Context{})
				return func() string { return bad(err) + fmt.Sprint(n) + sum([]byte(js(b))) }
			}},
			&op{name: name("render table"), run: func() func() string {
				b := &mp4.Stts{}
				mp4.Unmarshal(bytes.NewReader(table), uint64(len(table)), b, mp4.Context{})
				yield()
				s, err := mp4.Stringify(b, mp4.Context{})
				yield()
				d := &quiet{}
				mp4.Marshal(d, b, mp4.Context{})
				return func() string { return bad(err) + sum([]byte(s)) + sum(d.buf) }
			}},
			walkOp(fmt.Sprintf("deep #%d", v), deepFile),
			&op{name: name("extract"), run: func() func() string {
				bs, err := mp4.ExtractBoxes(newCoarse(wide), nil, many)
				return func() string { return bad(err) + sum([]byte(js(bs))) }
			}},
			&op{name: name("nest"), run: func() func() string {
				d := &ws{}
				w := mp4.NewWriter(d)
				bad := false
				for i := 0; i < 24; i++ {
					_, err := w.StartBox(&mp4.BoxInfo{Type: mp4.BoxType{'a', 'b', v + '0', byte('a' + i)}, HeaderSize: 8 + 8*uint64(v)})
					bad = bad || err != nil
				}
				for i := 0; i < 24; i++ {
					_, err := w.EndBox()
					bad = bad || err != nil
				}
				return func() string { return fmt.Sprint(bad) + sum(d.buf) }
			}},
		)
	}
	return out
}

// quiet is a destination that yields only every 4096 writes.
type quiet struct {
	buf []byte
	n   int
}

func (q *quiet) Write(p []byte) (int, error) {
	if q.n%4096 == 0 {
		yield()
	}
	q.n++
	q.buf = append(q.buf, p...)
	return len(p), nil
}
