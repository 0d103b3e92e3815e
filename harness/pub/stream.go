//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"

	"github.com/abema/go-mp4"
	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

// ---- streams

// vfile is a sparse file in memory.
type vfile struct {
	pages map[int64]*[512]byte
	size  int64
	pos   int64
}

func newVfile(data []byte) *vfile {
	f := &vfile{pages: map[int64]*[512]byte{}}
	f.Write(data)
	f.pos = 0
	return f
}

var errSeek = errors.New("seek out of range")

func (f *vfile) Seek(o int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		o += f.pos
	case io.SeekEnd:
		o += f.size
	}
	if o < 0 {
		return 0, errSeek
	}
	f.pos = o
	return o, nil
}

func (f *vfile) Read(p []byte) (int, error) {
	if f.pos >= f.size {
		return 0, io.EOF
	}
	if int64(len(p)) > f.size-f.pos {
		p = p[:f.size-f.pos]
	}
	for i := 0; i < len(p); {
		at := f.pos + int64(i)
		pg, off := at/512, int(at%512)
		n := 512 - off
		if n > len(p)-i {
			n = len(p) - i
		}
		if b := f.pages[pg]; b != nil {
			copy(p[i:i+n], b[off:])
		} else {
			for j := i; j < i+n; j++ {
				p[j] = 0
			}
		}
		i += n
	}
	f.pos += int64(len(p))
	return len(p), nil
}

func (f *vfile) Write(p []byte) (int, error) {
	for i, c := range p {
		at := f.pos + int64(i)
		b := f.pages[at/512]
		if b == nil {
			b = new([512]byte)
			f.pages[at/512] = b
		}
		b[at%512] = c
	}
	f.pos += int64(len(p))
	if f.pos > f.size {
		f.size = f.pos
	}
	return len(p), nil
}

func (f *vfile) at(off int64, n int) []byte {
	g := &vfile{pages: f.pages, size: f.size, pos: off}
	p := make([]byte, n)
	m, _ := io.ReadFull(g, p)
	return p[:m]
}

var errInjected = errors.New("injected failure")

// sourceErrors are failures a source may report: also ones that mention the end of the
// data, which they are not. An end is io.EOF itself and nothing else.
var sourceErrors = []error{errInjected, fmt.Errorf("connection lost: %w", io.EOF), fmt.Errorf("connection lost: %w", io.ErrUnexpectedEOF),
	fmt.Errorf("connection lost: %w", mp4.ErrUnsupportedBoxVersion), &os.PathError{Op: "read", Path: "x", Err: errInjected}}

// faulty fails its at-th operation.
type faulty struct {
	s    io.ReadWriteSeeker
	n    int
	at   int // 0 = never
	mode int // 0 nothing transferred, 1 a part; writes only: 2 a part and no error
	last bool
	hit  bool
	kind string
	// sticky makes all later operations fail too
	sticky bool
	err    error // nil = errInjected
}

func (f *faulty) failure() error {
	if f.err != nil {
		return f.err
	}
	return errInjected
}

func (f *faulty) step(kind string) bool {
	f.n++
	if f.at != 0 && (f.n == f.at || f.sticky && f.hit) {
		if !f.hit {
			f.kind = kind
		}
		f.hit = true
		return true
	}
	return false
}

func (f *faulty) Read(p []byte) (int, error) {
	if f.step("read") {
		if f.mode == 1 && len(p) > 1 {
			q := make([]byte, len(p)/2)
			n, _ := f.s.Read(q)
			if n > 0 && n == len(q) {
				copy(p, q)
				return n, f.failure()
			}
			return 0, f.failure()
		}
		return 0, f.failure()
	}
	return f.s.Read(p)
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.step("write") {
		n := 0
		switch f.mode {
		case 1, 2:
			n = len(p) / 2
		}
		f.s.Write(p[:n])
		if f.mode == 2 {
			f.hit = n != len(p) // nothing to write is no failure
			return n, nil
		}
		return n, errInjected
	}
	return f.s.Write(p)
}

func (f *faulty) Seek(o int64, w int) (int64, error) {
	if f.step("seek") {
		return 0, f.failure()
	}
	return f.s.Seek(o, w)
}

// rws makes a reader a faulty stream.
type readOnly struct{ io.ReadSeeker }

func (readOnly) Write(p []byte) (int, error) { return 0, errors.New("read only") }

// ---- C05

var c05types = []string{"free", "moov", "ftyp", "mdat", "uuid", "\x00\x00\x00\x00", "\xa9nam", "\xff\xfe\x80\x01"}

func c05(tier string) []*mc.Unit {
	sizes32 := []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 24, 100, 0x100, 0x10000, 0x1000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x01020304, 0x80ff7f01}
	offsets := []int64{0, 1, 7, 513, 1 << 31, 1<<32 - 8, 1 << 32, 1<<32 + 5, 1 << 40, 1 << 62, math.MaxInt64 - 40, math.MaxInt64 - 24, math.MaxInt64 - 16}
	sizes64 := func(off uint64) []uint64 {
		return []uint64{0, 1, 7, 8, 9, 15, 16, 17, 24, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 0x0102030405060708, 1 << 62, math.MaxInt64 - off - 1, math.MaxInt64 - off, math.MaxInt64 - off + 1,
			math.MaxInt64, 1 << 63, 1<<63 + 8, 1<<64 - 1, 1<<64 - 8, -off, 8 - off, 16 - off}
	}
	read := func(x *mc.X) {
		off := offsets[x.Choose(len(offsets), "offset")]
		typ := c05types[x.Choose(len(c05types), "type")]
		s32 := sizes32[x.Choose(len(sizes32), "size32")]
		var hdr []byte
		hdr = binary.BigEndian.AppendUint32(hdr, uint32(s32))
		hdr = append(hdr, typ...)
		want := mp4.BoxInfo{Offset: uint64(off), Size: s32, HeaderSize: 8, Type: btype(typ)}
		if s32 == 1 {
			l := sizes64(uint64(off))
			want.Size = l[x.Choose(len(l), "size64")]
			want.HeaderSize = 16
			hdr = binary.BigEndian.AppendUint64(hdr, want.Size)
		}
		// what follows, or how much of the header is there
		cut := x.Choose(len(hdr)+1, "cut")
		after := 0
		if cut == 0 {
			after = []int{0, 1, 9, 300}[x.Choose(4, "after")]
		} else {
			hdr = hdr[:len(hdr)-cut]
		}
		if off > math.MaxInt64-int64(len(hdr)+after) {
			x.Skip()
		}
		f := newVfile(nil)
		f.Seek(off, io.SeekStart)
		f.Write(hdr)
		f.Write(bytes.Repeat([]byte{0xee}, after))
		f.Seek(off, io.SeekStart)
		bad := cut > 0
		if s32 == 0 {
			want.Size = uint64(f.size - off)
			want.ExtendToEOF = true
		}
		if want.Size < want.HeaderSize || want.Size > math.MaxInt64-uint64(off) {
			bad = true
		}
		x.Describe("offset %d header %x followed by %d bytes", off, hdr, after)
		x.State(off, hdr, after)
		bi, err := mp4.ReadBoxInfo(f)
		x.Outcome(err != nil, s32, want.Size)
		if bad {
			if err == nil {
				x.Fail("header:read:accepted", "header %x at %d accepted as %+v", hdr, off, *bi)
			}
			if len(hdr) == 0 && err != io.EOF {
				x.Fail("header:read:eof", "at the end of the stream: %v", err)
			}
			return
		}
		if err != nil {
			x.Fail("header:read:refused", "header %x at %d refused: %v", hdr, off, err)
		}
		if *bi != want {
			x.Fail("header:read:value", "header %x at %d read as %+v, is %+v", hdr, off, *bi, want)
		}
		if f.pos != off+int64(want.HeaderSize) {
			x.Fail("header:read:position", "stream left at %d, payload at %d", f.pos, off+int64(want.HeaderSize))
		}
		seeks(x, f, bi)
	}
	write := func(x *mc.X) {
		off := offsets[x.Choose(len(offsets), "offset")]
		typ := c05types[x.Choose(len(c05types), "type")]
		hs := []uint64{8, 16, 0}[x.Choose(3, "header size")]
		eof := x.Choose(2, "to end") == 1
		sizes := []uint64{8, 9, 16, 17, 100, 0x7fffffff, 0x80000000, 0xfffffff7, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 0x100000007, 0x100000008, 0x100000010, 0x0102030405060708, 0x01020304, 1 << 62, math.MaxInt64 - 16, 0}
		size := sizes[x.Choose(len(sizes), "size")]
		if size < hs {
			x.Skip()
		}
		if off > math.MaxInt64-64 {
			x.Skip()
		}
		f := newVfile(nil)
		f.Seek(off, io.SeekStart)
		f.Write(bytes.Repeat([]byte{0xee}, 40)) // what is there already must not be touched beyond the header
		f.Seek(off, io.SeekStart)
		in := mp4.BoxInfo{Offset: []uint64{77, 0, 8, 1 << 33}[x.Choose(4, "its offset")], Size: size, HeaderSize: hs, Type: btype(typ), ExtendToEOF: eof}
		if x.Choose(2, "context") == 1 {
			in.Context = mp4.Context{IsQuickTimeCompatible: true, UnderIlst: true}
		}
		x.Describe("write %+v at %d", in, off)
		x.State(off, typ, hs, eof, size)
		arg := in
		bi, err := mp4.WriteBoxInfo(f, &arg)
		if err != nil {
			x.Fail("header:write:error", "writing %+v: %v", in, err)
		}
		if arg != in {
			x.Fail("header:write:argument", "the description passed in was changed to %+v", arg)
		}
		var hdr []byte
		switch {
		case eof:
			hdr = append(binary.BigEndian.AppendUint32(nil, 0), typ...)
		case size <= math.MaxUint32 && hs != 16:
			hdr = append(binary.BigEndian.AppendUint32(nil, uint32(size)), typ...)
		default:
			hdr = append(binary.BigEndian.AppendUint32(nil, 1), typ...)
			hdr = binary.BigEndian.AppendUint64(hdr, size)
		}
		want := append(append([]byte{}, hdr...), bytes.Repeat([]byte{0xee}, 40-len(hdr))...)
		if got := f.at(off, 48); !bytes.Equal(got, want) {
			x.Fail("header:write:bytes", "%+v written as %x, is %x", in, got, want)
		}
		if f.pos != off+int64(len(hdr)) {
			x.Fail("header:write:position", "stream left at %d, header ends at %d", f.pos, off+int64(len(hdr)))
		}
		bi.Context = mp4.Context{}
		res := mp4.BoxInfo{Offset: uint64(off), Size: size - hs + uint64(len(hdr)), HeaderSize: uint64(len(hdr)), Type: btype(typ), ExtendToEOF: eof}
		if *bi != res {
			x.Fail("header:write:info", "writing %+v reported %+v, is %+v", in, *bi, res)
		}
		x.Outcome(len(hdr), eof)
		// a header that was right before it was written reads back as it was described
		if hs == uint64(len(hdr)) && !eof && size <= math.MaxInt64-uint64(off) {
			f.Seek(off, io.SeekStart)
			back, err := mp4.ReadBoxInfo(f)
			if err != nil || *back != res {
				x.Fail("header:write:read-back", "%+v read back as %+v, %v", res, back, err)
			}
		}
		if bi.Size < 1<<62 {
			seeks(x, f, bi)
		}
	}
	all32 := func(x *mc.X) { // every value of each byte of the size, and of the type
		b := []byte{0, 0, 0, 20, 'f', 'r', 'e', 'e'}
		i := x.Choose(8, "byte")
		b[i] = byte(x.Choose(256, "value"))
		j := x.Choose(8, "byte2")
		b[j] = byte(x.Choose(256, "value2"))
		if j <= i {
			x.Skip()
		}
		size := binary.BigEndian.Uint32(b)
		if size == 1 {
			x.Skip()
		}
		x.State(b)
		f := newVfile(nil)
		f.Seek(3, io.SeekStart)
		f.Write(b)
		f.Write(make([]byte, 30))
		f.Seek(3, io.SeekStart)
		bi, err := mp4.ReadBoxInfo(f)
		x.Outcome(err != nil)
		x.Describe("header %x", b)
		if size != 0 && size < 8 {
			if err == nil {
				x.Fail("header:read:accepted", "header %x accepted as %+v", b, *bi)
			}
			return
		}
		want := mp4.BoxInfo{Offset: 3, Size: uint64(size), HeaderSize: 8, Type: mp4.BoxType{b[4], b[5], b[6], b[7]}}
		if size == 0 {
			want.Size, want.ExtendToEOF = 38, true
		}
		if err != nil || *bi != want {
			x.Fail("header:read:value", "header %x read as %+v (%v), is %+v", b, bi, err, want)
		}
		if size > 0 && size != 1 {
			g := newVfile(nil)
			if _, err := mp4.WriteBoxInfo(g, bi); err != nil || !bytes.Equal(g.at(0, 30), b) {
				x.Fail("header:write:bytes", "%+v written as %x (%v), is %x", *bi, g.at(0, 30), err, b)
			}
		}
	}
	// a description alone decides where its box begins and ends, whatever the stream
	positions := func(x *mc.X) {
		lens := []int{0, 1, 8, 40, 600}
		n := lens[x.Choose(len(lens), "stream")]
		offs := []uint64{0, 1, 8, 39, 599, 1 << 32, 1<<32 + 7, 1 << 40, 1 << 62}
		hs := []uint64{8, 16, 0}
		sz := []uint64{0, 8, 9, 16, 40, 41, 599, 600, 1 << 16, 1<<32 - 1, 1 << 32, 1<<32 + 9, 1 << 61}
		bi := &mp4.BoxInfo{Offset: offs[x.Choose(len(offs), "offset")], HeaderSize: hs[x.Choose(3, "header")], Size: sz[x.Choose(len(sz), "size")], Type: btype(c05types[x.Choose(2, "type")])}
		if bi.Size < bi.HeaderSize {
			x.Skip()
		}
		bi.ExtendToEOF = x.Choose(2, "to end") == 1
		if x.Choose(2, "context") == 1 {
			bi.Context = mp4.Context{IsQuickTimeCompatible: true, UnderWave: true, QuickTimeKeysMetaEntryCount: 3}
		}
		in := *bi
		var s io.ReadSeeker = bytes.NewReader(make([]byte, n))
		if x.Choose(2, "stream kind") == 1 {
			f := newVfile(make([]byte, n))
			s = f
		}
		s.Seek(int64(x.Choose(3, "from")*20), io.SeekStart)
		x.Describe("%+v on %d bytes", in, n)
		x.State(in, n)
		seeks(x, s, bi)
		if *bi != in {
			x.Fail("header:seek:argument", "the description was changed from %+v to %+v", in, *bi)
		}
		x.Outcome(bi.Size > uint64(n), bi.ExtendToEOF)
	}
	return []*mc.Unit{
		{Name: "read", Body: read},
		{Name: "write", Body: write},
		{Name: "positions", Body: positions},
		{Name: "byte-pairs", Body: all32},
	}
}

func seeks(x *mc.X, s io.Seeker, bi *mp4.BoxInfo) {
	for i, c := range []struct {
		name string
		f    func(io.Seeker) (int64, error)
		want uint64
	}{{"start", bi.SeekToStart, bi.Offset}, {"payload", bi.SeekToPayload, bi.Offset + bi.HeaderSize}, {"end", bi.SeekToEnd, bi.Offset + bi.Size}, {"start again", bi.SeekToStart, bi.Offset}} {
		if c.want > math.MaxInt64 {
			continue
		}
		p, err := c.f(s)
		if err != nil || uint64(p) != c.want || pos(s) != p {
			x.Fail("header:seek", "seeking to the %s (%d) of %+v: at %d, returned %d, %v", c.name, i, *bi, pos(s), p, err)
		}
	}
}

// ---- C11

type wbox struct {
	start, end int64
	hdr        int
	typ        string
	eof        bool
	info       *mp4.BoxInfo
}

// program drives a Writer and a model of the file it must produce.
type program struct {
	x     *mc.X
	w     *mp4.Writer
	f     *vfile
	model []byte // what precedes the position
	tail  []byte // what follows it
	base  int
	stack []*wbox
	done  []*wbox
	src   []byte
	srcAt []*ref.Node
	log   []string
}

func (p *program) put(b []byte) {
	p.model = append(p.model, b...)
	if len(b) > len(p.tail) {
		p.tail = nil
	} else {
		p.tail = p.tail[len(b):]
	}
}

// move seeks n bytes forward or back, to a place that the innermost open box can have.
func (p *program) move(n, whence int) {
	at := len(p.model) + n
	low := 0
	if k := len(p.stack); k > 0 {
		low = int(p.stack[k-1].start) + p.stack[k-1].hdr - p.base
	}
	if at < low || n > len(p.tail) {
		p.x.Skip()
	}
	want := int64(p.base + at)
	o := want
	switch whence {
	case io.SeekCurrent:
		o = int64(n)
	case io.SeekEnd:
		o = want - int64(p.base+len(p.model)+len(p.tail))
	}
	if q, err := p.w.Seek(o, whence); err != nil || q != want {
		p.x.Fail("writer:seek", "Seek(%d, %d): %d, %v", o, whence, q, err)
	}
	all := append(append([]byte{}, p.model...), p.tail...)
	p.model, p.tail = all[:at:at], all[at:]
}

func (p *program) start(typ string, form int, size uint64) {
	in := &mp4.BoxInfo{Type: btype(typ)}
	hdr := 8
	switch form {
	case 1:
		in.HeaderSize, in.Size = 16, 16
		hdr = 16
	case 2:
		in.ExtendToEOF, in.HeaderSize, in.Size = true, 8, 8
	case 3: // only a type
	default:
		in.HeaderSize, in.Size = 8, 8
	}
	if size != 0 {
		in.Size = size
		if size > math.MaxUint32 && !in.ExtendToEOF {
			hdr = 16
		}
	}
	off := int64(p.base + len(p.model))
	bi, err := p.w.StartBox(in)
	if err != nil {
		p.x.Fail("writer:start", "StartBox: %v", err)
	}
	if bi.Offset != uint64(off) || bi.HeaderSize != uint64(hdr) || bi.Type != in.Type || bi.ExtendToEOF != in.ExtendToEOF {
		p.x.Fail("writer:start:info", "StartBox at %d gave %+v, header has %d bytes", off, *bi, hdr)
	}
	h := make([]byte, hdr)
	copy(h[4:], typ)
	p.put(h)
	p.stack = append(p.stack, &wbox{start: off, hdr: hdr, typ: typ, eof: form == 2})
}

func (p *program) end() {
	b := p.stack[len(p.stack)-1]
	p.stack = p.stack[:len(p.stack)-1]
	size := uint64(int64(p.base+len(p.model)) - b.start)
	h := p.model[b.start-int64(p.base):]
	switch {
	case b.eof:
	case b.hdr == 8:
		binary.BigEndian.PutUint32(h, uint32(size))
	default:
		binary.BigEndian.PutUint32(h, 1)
		binary.BigEndian.PutUint64(h[8:], size)
	}
	bi, err := p.w.EndBox()
	if err != nil {
		p.x.Fail("writer:end", "EndBox of %s at %d: %v", printable(b.typ), b.start, err)
	}
	want := mp4.BoxInfo{Offset: uint64(b.start), Size: size, HeaderSize: uint64(b.hdr), Type: btype(b.typ), ExtendToEOF: b.eof}
	got := *bi
	got.Context = mp4.Context{}
	if got != want {
		p.x.Fail("writer:end:info", "EndBox gave %+v, is %+v", got, want)
	}
}

func (p *program) write(b []byte) {
	n, err := p.w.Write(b)
	if n != len(b) || err != nil {
		p.x.Fail("writer:write", "Write: %d, %v", n, err)
	}
	p.put(b)
}

func (p *program) copy(i int) {
	n := p.srcAt[i]
	r := bytes.NewReader(p.src)
	r.Seek(int64(len(p.src)/3), io.SeekStart)
	if err := p.w.CopyBox(r, infoOf(n)); err != nil {
		p.x.Fail("writer:copy", "CopyBox: %v", err)
	}
	p.put(p.src[n.Off : n.Off+n.Size])
}

// patch changes a byte written earlier and goes back to the end.
func (p *program) patch(back int) {
	at := len(p.model) - back
	if at < 0 {
		p.x.Skip()
	}
	cur := int64(p.base + len(p.model))
	if q, err := p.w.Seek(int64(-back), io.SeekCurrent); err != nil || q != cur-int64(back) {
		p.x.Fail("writer:seek", "Seek: %d, %v", q, err)
	}
	p.w.Write([]byte{0xcc})
	if q, err := p.w.Seek(cur, io.SeekStart); err != nil || q != cur {
		p.x.Fail("writer:seek", "Seek: %d, %v", q, err)
	}
	p.model[at] = 0xcc
}

func (p *program) check(pre []byte) {
	want := append(append(append([]byte{}, pre...), p.model...), p.tail...)
	if got := p.f.at(0, len(want)+8); !bytes.Equal(got, want) {
		p.x.Fail("writer:bytes", "the file is %s, requested %s", short(got), short(want))
	}
	if p.f.pos != int64(p.base+len(p.model)) {
		p.x.Fail("writer:position", "stream left at %d, file ends at %d", p.f.pos, p.base+len(p.model))
	}
}

func c11(tier string) []*mc.Unit {
	src := ref.Cat(ref.B("free", []byte{1, 2, 3}), &ref.Box{Type: "moov", Form: ref.Large, Kids: []*ref.Box{ref.B("trak", nil, ref.B("skip", bytes.Repeat([]byte{9}, 20)))}},
		&ref.Box{Type: "mdat", Form: ref.ToEOF, Fields: []byte{5, 6, 7}})
	sf := ref.Parse(src)
	at := allNodes(sf.Top)
	run := func(max int, ops func(p *program, x *mc.X, i int) bool, pres bool) func(x *mc.X) {
		return func(x *mc.X) {
			var pre, post []byte
			if pres {
				switch x.Choose(3, "existing") {
				case 1:
					pre = []byte{0xa0, 0xa1, 0xa2}
				case 2:
					pre = []byte{0xb0}
					post = bytes.Repeat([]byte{0xd7}, 120)
				}
			}
			f := newVfile(append(append([]byte{}, pre...), post...))
			f.Seek(int64(len(pre)), io.SeekStart)
			p := &program{x: x, w: mp4.NewWriter(f), f: f, base: len(pre), src: src, srcAt: at, tail: post}
			for i := 0; i < max; i++ {
				if !ops(p, x, i) {
					break
				}
			}
			for len(p.stack) > 0 {
				p.log = append(p.log, "end")
				p.end()
			}
			x.Describe("%v", p.log)
			x.State(fmt.Sprint(p.log), len(pre), len(post))
			p.check(pre)
			x.Outcome(p.model)
		}
	}
	op := func(forms bool) func(p *program, x *mc.X, i int) bool {
		return func(p *program, x *mc.X, i int) bool {
			n := 7
			c := x.Choose(n, "op")
			name := ""
			switch c {
			case 0:
				return false
			case 1:
				form, size := 0, uint64(0)
				if forms {
					form = x.Choose(4, "form")
					size = []uint64{0, 1000, 1 << 33}[x.Dev(3, "size")]
				}
				typ := []string{"moov", "\xa9nam"}[x.Choose(2, "type")]
				name = fmt.Sprintf("start %s form %d size %d", printable(typ), form, size)
				p.start(typ, form, size)
			case 2:
				if len(p.stack) == 0 {
					x.Skip()
				}
				name = "end"
				p.end()
			case 3:
				name = "write 1"
				p.write([]byte{0x11})
			case 4:
				name = "write 5"
				p.write([]byte{1, 2, 3, 4, 5})
			case 5:
				j := x.Choose(len(at), "source")
				name = fmt.Sprintf("copy %d", j)
				p.copy(j)
			case 6:
				// only bytes that are payload: the last one written directly
				if len(p.log) == 0 || p.log[len(p.log)-1][0] != 'w' {
					x.Skip()
				}
				name = "patch"
				p.patch(1)
			}
			p.log = append(p.log, name)
			return true
		}
	}
	moves := func(p *program, x *mc.X, i int) bool {
		name := ""
		switch x.Choose(10, "op") {
		case 0:
			return false
		case 1:
			form := x.Choose(3, "form")
			name = fmt.Sprintf("start %d", form)
			p.start("moov", form, 0)
		case 2:
			if len(p.stack) == 0 {
				x.Skip()
			}
			name = "end"
			p.end()
		case 3:
			name = "write 5"
			p.write([]byte{1, 2, 3, 4, 5})
		case 4:
			name = "write 1"
			p.write([]byte{0xee})
		case 5:
			name = "copy"
			p.copy(0)
		case 6:
			name = "back 1"
			p.move(-1, io.SeekCurrent)
		case 7:
			name = "back 4"
			p.move(-4, []int{io.SeekStart, io.SeekEnd}[x.Choose(2, "whence")])
		case 8:
			name = "forward 3"
			p.move(3, io.SeekCurrent)
		case 9:
			name = "to the end"
			if len(p.tail) == 0 {
				x.Skip()
			}
			p.move(len(p.tail), io.SeekEnd)
		}
		p.log = append(p.log, name)
		return true
	}
	huge := func(x *mc.X) { // finished boxes at the limit of the compact form
		form := x.Choose(4, "form")
		if form == 2 {
			x.Skip() // a box to the end of the file has no size
		}
		outer := x.Choose(3, "outer") // 0 none, 1 compact, 2 large
		sizes := []int64{1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 8, 1 << 33, 1 << 40, 1<<32 - 9, 1<<32 - 8, 1<<32 - 16, 1<<32 - 17}
		total := sizes[x.Choose(len(sizes), "total")]
		pre := []int64{0, 5, 1 << 31, 1 << 33}[x.Choose(4, "offset")]
		late := x.Choose(2, "late") == 1
		f := newVfile(nil)
		f.Seek(pre, io.SeekStart)
		w := mp4.NewWriter(f)
		mk := func(t string, form int) (*mp4.BoxInfo, int64) {
			bi := &mp4.BoxInfo{Type: btype(t), HeaderSize: 8, Size: 8}
			h := int64(8)
			if form == 1 {
				bi.HeaderSize, bi.Size = 16, 16
				h = 16
			}
			if form == 3 {
				bi.HeaderSize, bi.Size = 0, 0
			}
			r, err := w.StartBox(bi)
			if err != nil {
				x.Fail("writer:start", "StartBox: %v", err)
			}
			return r, h
		}
		var oh int64
		if outer > 0 {
			_, oh = mk("moov", outer-1)
		}
		_, h := mk("mdat", form)
		w.Seek(pre+oh+total-1, io.SeekStart)
		w.Write([]byte{0x77})
		x.Describe("box of %d bytes in form %d at %d, outer %d", total, form, pre+oh, outer)
		x.State(form, outer, total, pre, late)
		end := func(start, hdr, size int64, typ string) bool {
			bi, err := w.EndBox()
			if hdr == 8 && size > math.MaxUint32 {
				x.Outcome("overflow")
				if err == nil {
					x.Fail("writer:overflow", "a box of %d bytes was finished with a compact header: %x", size, f.at(start, 16))
				}
				return false
			}
			x.Outcome(size)
			if err != nil {
				x.Fail("writer:end", "EndBox of a box of %d bytes: %v", size, err)
			}
			want := mp4.BoxInfo{Offset: uint64(start), Size: uint64(size), HeaderSize: uint64(hdr), Type: btype(typ)}
			got := *bi
			got.Context = mp4.Context{}
			if got != want {
				x.Fail("writer:end:info", "EndBox gave %+v, is %+v", got, want)
			}
			var hb []byte
			if hdr == 8 {
				hb = append(binary.BigEndian.AppendUint32(nil, uint32(size)), typ...)
			} else {
				hb = append(binary.BigEndian.AppendUint32(nil, 1), typ...)
				hb = binary.BigEndian.AppendUint64(hb, uint64(size))
			}
			if g := f.at(start, int(hdr)); !bytes.Equal(g, hb) {
				x.Fail("writer:bytes", "header of a box of %d bytes is %x, should be %x", size, g, hb)
			}
			if f.pos != start+size {
				x.Fail("writer:position", "stream left at %d, box ends at %d", f.pos, start+size)
			}
			return true
		}
		if !end(pre+oh, h, total, "mdat") {
			return
		}
		size := total + oh
		if outer > 0 {
			if late {
				w.Write([]byte{1, 2, 3})
				size += 3
			}
			end(pre, oh, size, "moov")
		}
	}
	large := func(x *mc.X) { // copies that exceed common buffer sizes
		lens := []int{4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131073, 262145, 1<<20 - 8, 1 << 20, 1<<20 + 1, 3000000}
		n := lens[x.Choose(len(lens), "length")]
		data := ref.Cat(ref.B("free", nil), ref.B("mdat", bytes.Repeat([]byte{0x5a, 0xa5, 0x33}, n/3+1)[:n]), ref.B("free", []byte{1}))
		f := newVfile(nil)
		p := &program{x: x, w: mp4.NewWriter(f), f: f, src: data, srcAt: allNodes(ref.Parse(data).Top)}
		k := x.Choose(3, "nesting")
		for i := 0; i < k; i++ {
			p.start("moov", x.Choose(2, "form"), 0)
		}
		p.copy(1)
		if x.Choose(2, "again") == 1 {
			p.copy(2)
			p.copy(1)
		}
		for len(p.stack) > 0 {
			p.end()
		}
		p.check(nil)
		x.State(n, k)
		x.Outcome(n, k)
	}
	ext := extents(depth(tier, 1, 2))
	bulk := func(x *mc.X) { // many boxes open at a time, or one after the other
		f := newVfile([]byte{0xa0, 0xa1, 0xa2})
		pre := []byte{0xa0, 0xa1, 0xa2}
		f.Seek(3, io.SeekStart)
		p := &program{x: x, w: mp4.NewWriter(f), f: f, base: 3, src: src, srcAt: at}
		forms := x.Choose(5, "forms") // 4 = in turn
		form := func(i int) int {
			if forms == 4 {
				return i % 4
			}
			return forms
		}
		types := []string{"moov", "trak", "\xa9nam", "free"}
		n := 0
		switch x.Choose(3, "bulk") {
		case 0:
			n = ext.depths[x.Choose(len(ext.depths), "depth")]
			between := x.Choose(4, "between")
			for i := 0; i < n; i++ {
				p.start(types[i%4], form(i), 0)
				if between&1 != 0 {
					p.write([]byte{byte(i), 1, 2}[:i%4%3+1])
				}
			}
			for i := 0; i < n; i++ {
				if between&2 != 0 && i%5 == 1 {
					p.copy(i % 3)
				}
				p.end()
			}
		case 1:
			n = ext.widths[x.Choose(len(ext.widths), "width")]
			up := x.Choose(3, "levels")
			for i := 0; i < up; i++ {
				p.start("moov", form(i+1), 0)
			}
			for i := 0; i < n; i++ {
				if i%7 == 6 {
					p.copy(0)
					continue
				}
				p.start(types[i%4], form(i), 0)
				p.write([]byte{1, 2, 3, 4, 5}[:i%5])
				p.end()
			}
			for i := 0; i < up; i++ {
				p.write([]byte{9})
				p.end()
			}
		default:
			n = ext.lengths[x.Choose(len(ext.lengths), "length")]
			k := 1 + x.Choose(3, "levels")
			for i := 0; i < k; i++ {
				p.start("moov", form(i), 0)
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i*11 + i>>8)
			}
			p.write(b)
			if x.Choose(2, "in pieces") == 1 {
				for len(b) > 0 {
					m := 1000
					if m > len(b) {
						m = len(b)
					}
					p.write(b[:m])
					b = b[m:]
				}
			}
			for i := 0; i < k; i++ {
				p.end()
			}
		}
		p.start("free", 0, 0)
		p.end()
		x.Describe("%d boxes or bytes in form %d", n, forms)
		x.State(p.model)
		p.check(pre)
		x.Outcome(len(p.model))
	}
	return []*mc.Unit{
		{Name: "bulky", Body: bulk},
		{Name: "sequences", Weight: 4, Body: run(depth(tier, 5, 7), op(false), true)},
		{Name: "header-forms", Bound: depth(tier, 1, 2), Weight: 4, Body: run(depth(tier, 5, 6), op(true), false)},
		{Name: "seeks", Weight: 4, Body: run(depth(tier, 7, 8), moves, true)},
		{Name: "huge-boxes", Body: huge},
		{Name: "large-copies", Body: large},
	}
}

// ---- scenarios on a source

type scenario struct {
	name string
	run  func(r io.ReadSeeker) ([]interface{}, error)
}

// fullWalk visits everything and uses every operation; errors are passed on.
func fullWalk(r io.ReadSeeker, ops string) ([]interface{}, error) {
	var log []interface{}
	_, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
		log = append(log, h.BoxInfo, append(mp4.BoxPath{}, h.Path...))
		sup := h.BoxInfo.IsSupportedType()
		for _, o := range ops {
			switch {
			case o == 'P' && sup:
				b, n, err := h.ReadPayload()
				if err != nil {
					return nil, err
				}
				log = append(log, b, n)
			case o == 'D':
				var buf bytes.Buffer
				n, err := h.ReadData(&buf)
				if err != nil {
					return nil, err
				}
				log = append(log, append([]byte{}, buf.Bytes()...), n)
			case o == 'E' && sup:
				if _, err := h.Expand(); err != nil {
					return nil, err
				}
			}
		}
		return nil, nil
	})
	return log, err
}

// retryWalk visits everything; an operation that fails is tried once more. What happened
// in operations that failed is not part of the result.
func retryWalk(r io.ReadSeeker, ops string) ([]interface{}, error) {
	return mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
		log := []interface{}{h.BoxInfo, append(mp4.BoxPath{}, h.Path...)}
		if !h.BoxInfo.IsSupportedType() {
			return log, nil
		}
		for _, o := range ops {
			var err error
			for try := 0; try < 2; try++ {
				switch o {
				case 'P':
					var b mp4.IBox
					var n uint64
					if b, n, err = h.ReadPayload(); err == nil {
						log = append(log, b, n)
					}
				case 'D':
					var buf bytes.Buffer
					var n uint64
					if n, err = h.ReadData(&buf); err == nil {
						log = append(log, append([]byte{}, buf.Bytes()...), n)
					}
				case 'E':
					var v []interface{}
					if v, err = h.Expand(); err == nil {
						log = append(log, v)
					}
				}
				if err == nil {
					break
				}
			}
			if err != nil {
				return nil, err
			}
		}
		return log, nil
	})
}

func walkScenario(ops string) scenario {
	return scenario{"walk " + ops, func(r io.ReadSeeker) ([]interface{}, error) { return fullWalk(r, ops) }}
}

func extractScenarios(f *ref.File) (out []scenario) {
	ps := distinctPaths(f.Top, 0)
	if len(ps) == 0 {
		return nil
	}
	out = append(out, scenario{"extract", func(r io.ReadSeeker) ([]interface{}, error) {
		bis, err := mp4.ExtractBoxes(r, nil, pathLists(ps))
		var l []interface{}
		for _, b := range bis {
			l = append(l, *b)
		}
		return l, err
	}}, scenario{"extract with payload", func(r io.ReadSeeker) ([]interface{}, error) {
		var q [][]string
		for _, n := range allNodes(f.Top) {
			if n.Def != nil {
				q = append(q, n.Path)
			}
		}
		bis, err := mp4.ExtractBoxesWithPayload(r, nil, pathLists(q))
		var l []interface{}
		for _, b := range bis {
			l = append(l, *b)
		}
		return l, err
	}})
	return out
}

func copyScenario(f *ref.File) scenario {
	return scenario{"copy", func(r io.ReadSeeker) ([]interface{}, error) {
		var l []interface{}
		for _, n := range f.Top {
			g := newVfile(nil)
			if err := mp4.NewWriter(g).CopyBox(r, infoOf(n)); err != nil {
				return l, err
			}
			l = append(l, g.at(0, int(g.size)))
		}
		return l, nil
	}}
}

var probeScenario = scenario{"probe", func(r io.ReadSeeker) ([]interface{}, error) {
	p, err := mp4.Probe(r)
	return []interface{}{p}, err
}}

var headerScenario = scenario{"headers", func(r io.ReadSeeker) ([]interface{}, error) {
	var l []interface{}
	if _, err := r.Seek(0, io.SeekStart); err != nil {
		return nil, err
	}
	for i := 0; i < 3; i++ {
		bi, err := mp4.ReadBoxInfo(r)
		if err == io.EOF {
			break
		}
		if err != nil {
			return l, err
		}
		l = append(l, *bi)
		if _, err := bi.SeekToEnd(r); err != nil {
			return l, err
		}
	}
	return l, nil
}}

var idrScenario = scenario{"key frames", func(r io.ReadSeeker) ([]interface{}, error) {
	ti := &mp4.Track{AVC: &mp4.AVCDecConfigInfo{LengthSize: 4}, Chunks: mp4.Chunks{{DataOffset: 8, SamplesPerChunk: 2}, {DataOffset: 40, SamplesPerChunk: 1}},
		Samples: mp4.Samples{{Size: 14}, {Size: 10}, {Size: 12}}}
	ids, err := mp4.FindIDRFrames(r, ti)
	return []interface{}{ids}, err
}}

func idrData() []byte {
	return ref.Cat(ref.B("mdat", []byte{0, 0, 0, 1, 0x65, 0, 0, 0, 5, 0x61, 1, 2, 3, 4, 0, 0, 0, 2, 0x06, 9, 0, 0, 0, 0,
		1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 3, 0x41, 7, 7, 0, 0, 0, 1, 0x25}))
}

func decodeScenario(t target, payload []byte) scenario {
	return scenario{"decode " + printable(t.d.Name), func(r io.ReadSeeker) ([]interface{}, error) {
		if _, err := r.Seek(0, io.SeekStart); err != nil {
			return nil, err
		}
		b, n, err := mp4.UnmarshalAny(r, btype(t.d.Name), uint64(len(payload)), toCtx(t.ctx))
		return []interface{}{b, n}, err
	}}
}

// onlyFree forwards free choices and answers deviations with the default.
type onlyFree struct{ x *mc.X }

func (o onlyFree) Choose(n int, l string) int { return o.x.Choose(n, l) }
func (o onlyFree) Dev(int, string) int        { return 0 }

var sampleNames = []string{"sample.mp4", "sample_fragmented.mp4", "sample_init.enca.mp4", "sample_init.encv.mp4"}

var largeLengths = []int{4097, 5000, 32768, 40000, 65537, 300000, 1<<20 + 1}

// largeSource is a file with a box that does not fit into common buffers, and something to do with it.
func largeSource(x *mc.X, lens []int) ([]byte, scenario) {
	t := []string{"mdat", "free", "zzzz"}[x.Choose(3, "type")]
	n := lens[x.Choose(len(lens), "length")]
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i*13 + i>>8)
	}
	b := ref.B(t, p)
	b.Form = x.Choose(3, "form")
	bs := []*ref.Box{ref.B("free", []byte{1}), b}
	if b.Form != ref.ToEOF {
		bs = append(bs, ref.B("skip", []byte{2, 3}))
	}
	if x.Choose(2, "inside") == 1 {
		bs = []*ref.Box{ref.B("moov", nil, bs...)}
	}
	f := ref.Parse(ref.Cat(bs...))
	l := append([]scenario{headerScenario, walkScenario("DE"), walkScenario("PE"), walkScenario("ED"), copyScenario(f)}, extractScenarios(f)...)
	s := l[x.Choose(len(l), "scenario")]
	x.Describe("%s of %d bytes in form %d, %s", t, n, b.Form, s.name)
	return f.Data, s
}

// ---- C12

func c12(tier string) []*mc.Unit {
	ts := targets(interesting)
	marshal := func(x *mc.X) {
		t := pick(x, ts)
		var ch ref.Chooser = onlyFree{x}
		obj, payload := ref.Generate(t.d, t.ctx, ch, false)
		b, err := build(t.d.Name, t.ctx, obj)
		if err != nil {
			x.Fail("dest", "New: %v", err)
		}
		w := &faulty{s: newVfile(nil)}
		if _, err := mp4.Marshal(w, b, toCtx(t.ctx)); err != nil || w.n == 0 {
			x.Skip() // C02 judges this
		}
		k := 1 + x.Choose(w.n, "failing write")
		describe(x, t, payload)
		x.State(t.d.Name, payload, k)
		for mode := 0; mode < 3; mode++ {
			f := &faulty{s: newVfile(nil), at: k, mode: mode}
			n, err := mp4.Marshal(f, b, toCtx(t.ctx))
			if !f.hit {
				continue
			}
			x.Outcome(t.d.Name, k)
			if err == nil {
				x.Fail("dest:marshal:"+printable(t.d.Name), "write %d of %d failed (mode %d) but Marshal reported %d bytes and no error", k, w.n, mode, n)
			}
		}
	}
	src := ref.Cat(ref.B("free", []byte{1, 2, 3}), ref.B("moov", nil, ref.B("skip", bytes.Repeat([]byte{9}, 20))), ref.B("mdat", bytes.Repeat([]byte{4}, 40000)))
	at := allNodes(ref.Parse(src).Top)
	// every short program on the nested writer, every failing operation
	writer := func(x *mc.X) {
		max := depth(tier, 4, 5)
		var prog []int
		open := 0
		for i := 0; i < max; i++ {
			c := x.Choose(9, "op")
			if c == 0 {
				break
			}
			if c == 2 || c == 3 || c == 7 {
				open++
			}
			if c == 1 {
				if open == 0 {
					x.Skip()
				}
				open--
			}
			prog = append(prog, c)
		}
		if len(prog) == 0 {
			x.Skip()
		}
		run := func(f *faulty) (failedOp int, noError bool) {
			w := mp4.NewWriter(f)
			for i, c := range prog {
				var err error
				switch c {
				case 1:
					_, err = w.EndBox()
				case 2:
					_, err = w.StartBox(&mp4.BoxInfo{Type: btype("moov"), HeaderSize: 8, Size: 8})
				case 3:
					_, err = w.StartBox(&mp4.BoxInfo{Type: btype("moov"), HeaderSize: 16, Size: 16})
				case 4:
					var n int
					if n, err = w.Write([]byte{1, 2, 3}); err == nil && n != 3 {
						err = io.ErrShortWrite
					}
				case 5:
					err = w.CopyBox(bytes.NewReader(src), infoOf(at[1]))
				case 6:
					err = w.CopyBox(bytes.NewReader(src), infoOf(at[3]))
				case 7:
					_, err = w.StartBox(&mp4.BoxInfo{Type: btype("mdat"), ExtendToEOF: true})
				case 8:
					_, err = w.Seek(0, io.SeekCurrent)
				}
				if f.hit {
					return i, err == nil
				}
				if err != nil {
					x.Fail("dest:writer:spurious", "operation %d of %v: %v without a failure", i, prog, err)
				}
			}
			return -1, false
		}
		c := &faulty{s: newVfile(nil)}
		run(c)
		if c.n == 0 {
			x.Skip()
		}
		k := 1 + x.Choose(c.n, "failing operation")
		x.Describe("program %v, operation %d of the stream fails", prog, k)
		x.State(fmt.Sprint(prog), k)
		for mode := 0; mode < 3; mode++ {
			f := &faulty{s: newVfile(nil), at: k, mode: mode}
			i, silent := run(f)
			x.Outcome(i)
			if silent {
				x.Fail("dest:writer", "program %v: a %s of operation %d failed (mode %d) but it reported success", prog, f.kind, i, mode)
			}
		}
	}
	header := func(x *mc.X) {
		bi := &mp4.BoxInfo{Type: btype("free"), HeaderSize: 8, Size: 20}
		switch x.Choose(3, "form") {
		case 1:
			bi.HeaderSize = 16
		case 2:
			bi.ExtendToEOF = true
		}
		c := &faulty{s: newVfile(nil)}
		mp4.WriteBoxInfo(c, bi)
		k := 1 + x.Choose(c.n, "failing operation")
		x.State(bi.HeaderSize, bi.ExtendToEOF, k)
		for mode := 0; mode < 3; mode++ {
			f := &faulty{s: newVfile(nil), at: k, mode: mode}
			r, err := mp4.WriteBoxInfo(f, bi)
			x.Outcome(k)
			if f.hit && err == nil {
				x.Fail("dest:header", "a %s failed (mode %d) but the header was reported written: %+v", f.kind, mode, *r)
			}
		}
	}
	data := func(x *mc.X) {
		names := append([]string{}, sampleNames...)
		c := x.Choose(len(names)+1+len(largeLengths), "file")
		d := src
		if c > len(names) {
			d = ref.Cat(ref.B("free", nil), ref.B("mdat", bytes.Repeat([]byte{7, 5, 3}, largeLengths[c-len(names)-1]/3+1)), ref.B("free", []byte{1}))
		} else if c > 0 {
			d = samples[names[c-1]]
		}
		run := func(f *faulty) (silent bool, where string) {
			mp4.ReadBoxStructure(bytes.NewReader(d), func(h *mp4.ReadHandle) (interface{}, error) {
				before := f.hit
				_, err := h.ReadData(f)
				if f.hit && !before {
					silent = err == nil
					where = h.BoxInfo.Type.String()
					return nil, errHandler
				}
				if h.BoxInfo.IsSupportedType() {
					return h.Expand()
				}
				return nil, nil
			})
			return
		}
		cnt := &faulty{s: newVfile(nil)}
		run(cnt)
		if cnt.n == 0 {
			x.Skip()
		}
		k := 1 + x.Choose(cnt.n, "failing write")
		x.State(c, k)
		for mode := 0; mode < 3; mode++ {
			f := &faulty{s: newVfile(nil), at: k, mode: mode}
			silent, where := run(f)
			x.Outcome(where)
			if silent {
				x.Fail("dest:data", "write %d failed (mode %d) while the data of %s was copied but ReadData reported success", k, mode, where)
			}
		}
	}
	return []*mc.Unit{
		{Name: "marshal", Weight: 3, Body: marshal},
		{Name: "writer", Weight: 3, Body: writer},
		{Name: "headers", Body: header},
		{Name: "raw-data", Body: data},
	}
}

// ---- C13

// sources picks a file and something to do with it.
func sources(x *mc.X, nodes int) (data []byte, s scenario) {
	switch x.Choose(3, "source") {
	case 1:
		n := sampleNames[x.Choose(len(sampleNames), "file")]
		f := parsedSample(n)
		l := append([]scenario{walkScenario("E"), probeScenario, copyScenario(f)}, extractScenarios(f)...)
		s = l[x.Choose(len(l), "scenario")]
		x.Describe("file %s, %s", n, s.name)
		return f.Data, s
	case 2:
		x.Describe("key frame search")
		return idrData(), idrScenario
	}
	g := &growth{x: x, kinds: c13kinds, left: nodes, known: true}
	bs := g.level(ref.Ctx{}, true)
	if len(bs) == 0 {
		x.Skip()
	}
	if x.Choose(2, "to end") == 1 {
		bs[len(bs)-1].Form = ref.ToEOF
	} else if x.Choose(2, "large") == 1 {
		bs[len(bs)-1].Form = ref.Large
	}
	f := ref.Parse(ref.Cat(bs...))
	for _, n := range f.Top {
		if n.DeepErr() != nil || n.Unspecified() {
			x.Skip()
		}
	}
	l := append([]scenario{headerScenario, walkScenario("PDE"), walkScenario("E"), copyScenario(f)}, extractScenarios(f)...)
	s = l[x.Choose(len(l), "scenario")]
	x.Describe("file %s, %s", shape(bs), s.name)
	return f.Data, s
}

var c13kinds = []kind{ftypQT, container("moov"), raw("free", 1, 2, 3, 4, 5), leaf("mvhd"), keys1, metaQT, container("ilst"), mp4aV1, leaf("trun"), leaf("esds"), leaf("hdlr")}

func c13(tier string) []*mc.Unit {
	check := func(x *mc.X, data []byte, s scenario, fails bool) {
		c := &faulty{s: readOnly{bytes.NewReader(data)}}
		if _, err := s.run(c); (err != nil) != fails || c.n == 0 {
			x.Skip()
		}
		if c.n > 30000 {
			x.Skip()
		}
		k := 1 + x.Choose(c.n, "failing operation")
		x.State(data, s.name, k)
		for mode := 0; mode < 2; mode++ {
			for i := 0; i <= len(sourceErrors); i++ {
				if mode > 0 && i > 1 {
					break
				}
				var f *faulty
				if i == 0 {
					f = &faulty{s: readOnly{bytes.NewReader(data)}, at: k, mode: mode, sticky: true}
				} else {
					f = &faulty{s: readOnly{bytes.NewReader(data)}, at: k, mode: mode, err: sourceErrors[i-1]}
				}
				res, err := s.run(f)
				x.Outcome(s.name, f.kind)
				if !f.hit {
					x.Fail("source:nondeterministic", "%s: %d operations without, only %d with a failure", s.name, c.n, f.n)
				}
				if err == nil {
					x.Fail("source:silent:"+s.name, "%s: %s number %d failed (mode %d) but success was reported: %d results", s.name, f.kind, k, mode, len(res))
				}
				if !errors.Is(err, f.failure()) {
					x.Fail("source:hidden:"+s.name, "%s: %s number %d failed (mode %d) but the error is %v", s.name, f.kind, k, mode, err)
				}
			}
		}
	}
	ts := targets(interesting)
	decode := func(x *mc.X) {
		t := pick(x, ts)
		_, payload := ref.Generate(t.d, t.ctx, onlyFree{x}, false)
		describe(x, t, payload)
		if ref.Decode(t.d, t.ctx, payload).Unspecified != "" {
			x.Skip()
		}
		check(x, payload, decodeScenario(t, payload), false)
	}
	// what fails anyway must not hide that the source failed: the caller may tolerate the one and not the other
	refused := func(x *mc.X) {
		t := pick(x, ts)
		_, payload := ref.Generate(t.d, t.ctx, devOnly{}, false)
		if len(payload) == 0 {
			x.Skip()
		}
		p := payload
		if how := x.Choose(len(payload)+2, "how"); how < len(payload) {
			p = payload[:how]
		} else {
			p = append([]byte{byte(9 + 200*(how-len(payload)))}, payload[1:]...)
		}
		describe(x, t, p)
		data, s := p, decodeScenario(t, p)
		if x.Choose(2, "in a file") == 1 {
			if (t.ctx != ref.Ctx{}) {
				x.Skip()
			}
			data = ref.Cat(ref.B(t.d.Name, p), ref.B("free", []byte{1, 2}))
			f := ref.Parse(data)
			l := append([]scenario{walkScenario("P"), walkScenario("DPE")}, extractScenarios(f)...)
			s = l[x.Choose(len(l), "scenario")]
		}
		check(x, data, s, true)
	}
	// a failure that passes: an operation that is tried again gives what it gives without
	again := func(x *mc.X) {
		g := &growth{x: x, kinds: c13kinds, left: depth(tier, 2, 3), known: true}
		bs := g.level(ref.Ctx{}, true)
		if len(bs) == 0 {
			x.Skip()
		}
		data := ref.Cat(bs...)
		if f := ref.Parse(data); f.Err != nil || f.Top[0].DeepErr() != nil {
			x.Skip()
		}
		ops := []string{"PE", "E", "EP", "DE", "ED", "PPE", "EE"}[x.Choose(7, "operations")]
		c := &faulty{s: readOnly{bytes.NewReader(data)}}
		want, err := retryWalk(c, ops)
		if err != nil {
			x.Skip()
		}
		k := 1 + x.Choose(c.n, "failing operation")
		x.Describe("file %s, %s, operation %d fails", shape(bs), ops, k)
		x.State(data, ops, k)
		for mode := 0; mode < 2; mode++ {
			f := &faulty{s: readOnly{bytes.NewReader(data)}, at: k, mode: mode}
			got, err := retryWalk(f, ops)
			x.Outcome(f.kind, err != nil)
			if err != nil {
				if !errors.Is(err, errInjected) {
					x.Fail("source:retry", "%s number %d failed (mode %d), everything was tried again, and the error is %v", f.kind, k, mode, err)
				}
				continue
			}
			if !reflect.DeepEqual(got, want) {
				x.Fail("source:retry", "%s number %d failed once (mode %d) and was tried again, but the result differs: %v, without a failure %v", f.kind, k, mode, got, want)
			}
		}
	}
	// streams that end early
	truncated := func(x *mc.X) {
		data, s := sources(x, depth(tier, 2, 3))
		t := x.Choose(len(data), "length")
		cut := data[:t]
		f := ref.Parse(data)
		if s.name == "copy" { // of boxes that are known already
			x.Describe("cut after %d of %d bytes", t, len(data))
			x.State(data, s.name, t)
			if _, err := s.run(bytes.NewReader(cut)); err == nil {
				x.Fail("source:truncated:copy", "the source ends after %d of %d bytes but all boxes were copied without an error", t, len(data))
			}
			return
		}
		boundary := t < 8
		eof := false
		var last *ref.Node
		for _, n := range f.Top {
			if uint64(t) >= n.Off && uint64(t) < n.Off+8 {
				boundary = true
			}
			if uint64(t) > n.Off {
				last = n
			}
			eof = eof || n.EOF
		}
		if boundary {
			x.Skip() // the shorter file is a file of its own
		}
		if eof && last != nil && last.EOF {
			x.Skip() // and so is one whose last box extends to the end
		}
		x.Describe("cut after %d of %d bytes", t, len(data))
		x.State(data, s.name, t)
		got, err := s.run(bytes.NewReader(cut))
		x.Outcome(s.name, err != nil)
		if err != nil {
			return
		}
		if s.name == "walk PDE" {
			x.Fail("source:truncated:"+s.name, "%s: the file ends after %d bytes, inside of %s at %d, but everything was read without an error", s.name, t, printable(last.Type), last.Off)
		}
		// a box that need not be read may be cut off; nothing else may be missing or made up
		whole, err := s.run(bytes.NewReader(data[:last.Off+last.Size]))
		if err != nil {
			x.Skip()
		}
		if !sameResults(got, whole) {
			x.Fail("source:truncated:"+s.name, "%s: the file ends after %d of %d bytes and there is no error, but the result differs from that with the whole %s box: %s", s.name, t, len(data), printable(last.Type), firstDiff(got, whole))
		}
	}
	return []*mc.Unit{
		{Name: "decode", Weight: 2, Body: decode},
		{Name: "files", Weight: 4, Body: func(x *mc.X) {
			data, s := sources(x, depth(tier, 2, 3))
			check(x, data, s, false)
		}},
		{Name: "refused", Weight: 2, Body: refused},
		{Name: "truncated", Weight: 2, Body: truncated},
		{Name: "again", Weight: 2, Body: again},
		{Name: "large", Body: func(x *mc.X) {
			lens := []int{5000, 40000, 262145}
			if tier == "thorough" {
				lens = largeLengths
			}
			data, s := largeSource(x, lens)
			check(x, data, s, false)
		}},
	}
}

func sameResults(a, b []interface{}) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

// ---- C14

// chunked delivers its data in pieces.
type chunked struct {
	x     *mc.X
	data  []byte
	pos   int64
	chunk int  // 0 = as much as asked for
	eager bool // the end of the stream comes along with the last byte
	devs  bool
	none  int // 1 = a read that gives nothing before every other one, 2 = before the first one
	gave  bool
	zeros int
	reads int
	limit int
}

func (c *chunked) Seek(o int64, w int) (int64, error) {
	switch w {
	case io.SeekCurrent:
		o += c.pos
	case io.SeekEnd:
		o += int64(len(c.data))
	}
	if o < 0 {
		return 0, errSeek
	}
	c.pos = o
	return o, nil
}

func (c *chunked) Read(p []byte) (int, error) {
	c.reads++
	if c.limit > 0 && c.reads > c.limit {
		c.x.Fail("delivery:loop", "more than %d reads", c.limit)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.pos >= int64(len(c.data)) {
		return 0, io.EOF
	}
	n := len(p)
	if n > len(c.data)-int(c.pos) {
		n = len(c.data) - int(c.pos)
	}
	if c.chunk > 0 && n > c.chunk {
		n = c.chunk
	}
	if c.none == 1 && !c.gave || c.none == 2 && c.reads == 1 {
		c.gave = true
		c.zeros++
		return 0, nil
	}
	c.gave = false
	if c.devs && n == 1 && c.x.Dev(2, "read") == 1 {
		c.zeros++
		return 0, nil
	}
	if c.devs && n > 1 {
		switch c.x.Dev(5, "read") {
		case 4:
			c.zeros++
			return 0, nil
		case 1:
			n = 1
		case 2:
			n = n - 1
		case 3:
			n = (n + 1) / 2
		}
	}
	copy(p, c.data[c.pos:int(c.pos)+n])
	c.pos += int64(n)
	if c.eager && c.pos == int64(len(c.data)) {
		return n, io.EOF
	}
	return n, nil
}

func c14(tier string) []*mc.Unit {
	check := func(x *mc.X, data []byte, s scenario, devs bool) {
		want, werr := s.run(bytes.NewReader(data))
		c := &chunked{x: x, data: data, devs: devs, limit: 2000000 + 20*len(data)}
		c.eager = x.Choose(2, "eager end") == 1
		if !devs {
			c.chunk = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 31, 255, 511, 512, 513, 4095}[x.Choose(18, "chunk")]
			if c.chunk == 0 || c.chunk == 3 {
				c.none = x.Choose(3, "empty reads")
			}
		}
		x.State(data, s.name, c.chunk, c.eager, c.none)
		x.Describe("%s, chunks of %d, eager %v, empty reads %d", s.name, c.chunk, c.eager, c.none)
		got, err := s.run(c)
		x.Outcome(s.name, err != nil, c.zeros > 0)
		if err != nil && c.zeros > 0 && s.name != "headers" && s.name != "copy" {
			return // field-by-field decoding may refuse such a reader, but may not misread it
		}
		if (err == nil) != (werr == nil) {
			x.Fail("delivery:error:"+s.name, "%s: error %v, with a plain reader %v", s.name, err, werr)
		}
		if err == nil && !sameResults(got, want) {
			x.Fail("delivery:result:"+s.name, "%s: the result differs from that with a plain reader: %s", s.name, firstDiff(got, want))
		}
	}
	ts := targets(interesting)
	decode := func(devs bool) func(x *mc.X) {
		return func(x *mc.X) {
			t := pick(x, ts)
			_, payload := ref.Generate(t.d, t.ctx, onlyFree{x}, false)
			describe(x, t, payload)
			if ref.Decode(t.d, t.ctx, payload).Unspecified != "" {
				x.Skip()
			}
			data := payload
			if x.Choose(2, "followed") == 1 {
				data = append(append([]byte{}, payload...), postJunk...)
			}
			check(x, data, decodeScenario(t, payload), devs)
		}
	}
	cut := func(x *mc.X) { // malformed payloads fail alike
		t := pick(x, ts)
		_, payload := ref.Generate(t.d, t.ctx, devOnly{}, false)
		if len(payload) == 0 {
			x.Skip()
		}
		p := payload[:x.Choose(len(payload), "length")]
		describe(x, t, p)
		if ref.Decode(t.d, t.ctx, p).Unspecified != "" {
			x.Skip()
		}
		check(x, p, decodeScenario(t, p), false)
	}
	return []*mc.Unit{
		{Name: "decode-chunks", Weight: 2, Body: decode(false)},
		{Name: "decode-reads", Bound: depth(tier, 1, 2), Weight: 2, Body: decode(true)},
		{Name: "malformed", Body: cut},
		{Name: "large-chunks", Weight: 3, Body: func(x *mc.X) {
			data, s := largeSource(x, largeLengths)
			check(x, data, s, false)
		}},
		{Name: "large-reads", Bound: 1, Weight: 3, Body: func(x *mc.X) {
			data, s := largeSource(x, largeLengths[:depth(tier, 6, 7)])
			check(x, data, s, true)
		}},
		{Name: "files-chunks", Weight: 2, Body: func(x *mc.X) {
			data, s := sources(x, depth(tier, 2, 3))
			check(x, data, s, false)
		}},
		{Name: "files-reads", Bound: depth(tier, 1, 2), Weight: 3, Body: func(x *mc.X) {
			data, s := sources(x, depth(tier, 2, 3))
			check(x, data, s, true)
		}},
	}
}

func firstDiff(a, b []interface{}) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("%d instead of %d results", len(a), len(b))
		}
		if !reflect.DeepEqual(a[i], b[i]) {
			return fmt.Sprintf("result %d is %s instead of %s", i, clip(a[i]), clip(b[i]))
		}
	}
	return fmt.Sprintf("%d instead of %d results", len(a), len(b))
}

func clip(v interface{}) string {
	if b, ok := v.([]byte); ok {
		return short(b)
	}
	s := fmt.Sprintf("%+v", v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}
