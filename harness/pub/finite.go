//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"runtime"
	"syscall"

	mp4 "github.com/abema/go-mp4"
	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

// ---- C30

// meter counts the operations on a source and the bytes it delivers.
type meter struct {
	*bytes.Reader
	x     *mc.X
	what  string
	ops   int
	bytes int
	limit int
	most  int
}

func newMeter(x *mc.X, what string, data []byte, ops int) *meter {
	return &meter{Reader: bytes.NewReader(data), x: x, what: what, limit: ops, most: 40*len(data) + 4096}
}

func (m *meter) count() {
	m.ops++
	if m.ops > m.limit {
		m.x.Fail("endless:"+m.what, "%s: more than %d operations on a source of %d bytes", m.what, m.limit, m.Reader.Size())
	}
}
func (m *meter) Read(p []byte) (int, error) {
	m.count()
	n, err := m.Reader.Read(p)
	m.bytes += n
	if m.most > 0 && m.bytes > m.most {
		m.x.Fail("endless:"+m.what, "%s: more than %d bytes read from a source of %d bytes", m.what, m.most, m.Reader.Size())
	}
	return n, err
}
func (m *meter) Seek(o int64, w int) (int64, error) { m.count(); return m.Reader.Seek(o, w) }

// Size of stts run lengths and of lists of empty elements: what a few bytes claim.
func claims(data []byte) (n uint64) {
	for i := 4; i+12 <= len(data); i++ {
		switch string(data[i : i+4]) {
		case "stts":
			c := binary.BigEndian.Uint32(data[i+8:])
			for j := uint32(0); j < c && i+12+8*int(j)+4 <= len(data); j++ {
				n += uint64(binary.BigEndian.Uint32(data[i+12+8*int(j):]))
			}
		case "trun":
			if data[i+6]&0x0f == 0 {
				n += uint64(binary.BigEndian.Uint32(data[i+8:]))
			}
		}
	}
	return n
}

// useAll runs every operation of the library on data; each must end within bounds and without a panic.
// growing makes n of something.
var growing = []struct {
	name string
	make func(n int) []byte
}{
	{"boxes side by side", func(n int) []byte { return ref.Cat(boxRow("free", n)...) }},
	{"empty containers side by side", func(n int) []byte { return ref.Cat(boxRow("trak", n)...) }},
	{"boxes in a box", func(n int) []byte { return ref.Cat(ref.B("moov", nil, boxRow("free", n)...)) }},
	{"containers in boxes", func(n int) []byte {
		return ref.Cat(ref.B("moov", nil, ref.B("trak", nil, boxRow("udta", n)...)))
	}},
	{"unknown boxes", func(n int) []byte { return ref.Cat(ref.B("moov", nil, boxRow("zzzz", n)...)) }},
	{"fragments", func(n int) []byte {
		var l []*ref.Box
		for i := 0; i < n; i++ {
			l = append(l, ref.B("moof", nil, ref.B("traf", nil, ref.B("tfhd", ref.Full(0, 0).U32(1)))))
		}
		return ref.Cat(l...)
	}},
	{"brands", func(n int) []byte {
		return ref.Cat(ref.B("ftyp", bytes.Repeat([]byte("isom"), n+2)))
	}},
	{"sample sizes", func(n int) []byte {
		return ref.Cat(ref.B("stsz", append(ref.Full(0, 0).U32(0).U32(uint32(n)), make([]byte, 4*n)...)))
	}},
	{"runs", func(n int) []byte {
		return ref.Cat(ref.B("stts", append(ref.Full(0, 0).U32(uint32(n)), make([]byte, 8*n)...)))
	}},
	{"edits", func(n int) []byte {
		return ref.Cat(ref.B("elst", append(ref.Full(1, 0).U32(uint32(n)), make([]byte, 20*n)...)))
	}},
	{"samples of a fragment", func(n int) []byte {
		return ref.Cat(ref.B("trun", append(ref.Full(0, 0x700).U32(uint32(n)), make([]byte, 12*n)...)))
	}},
	{"bytes of text", func(n int) []byte {
		return ref.Cat(ref.B("hdlr", append(append(append(ref.Full(0, 0), make([]byte, 20)...), bytes.Repeat([]byte{'x'}, 8*n)...), 0)))
	}},
	{"bytes of data", func(n int) []byte { return ref.Cat(ref.B("free", make([]byte, 8*n))) }},
	{"descriptors", func(n int) []byte {
		return ref.Cat(ref.B("esds", append(ref.Full(0, 0), bytes.Repeat([]byte{5, 1, 7}, n)...)))
	}},
	{"keys", func(n int) []byte {
		return ref.Cat(ref.B("keys", append(ref.Full(0, 0).U32(uint32(n)), bytes.Repeat([]byte{0, 0, 0, 10, 'm', 'd', 't', 'a', 'a', 'b'}, n)...)))
	}},
}

// works are operations whose time must not grow with the square of the number.
var works = []struct {
	name string
	make func(n int) func()
}{
	probeWork("chunks and sample-to-chunk entries", func(t *ref.Track, n int) {
		t.Chunks, t.Stsc = make([]uint64, n), nil
		for i := 0; i < n; i++ {
			t.Stsc = append(t.Stsc, ref.SC{First: uint32(i + 1), Per: 1})
		}
	}),
	probeWork("sample-to-chunk entries that start over and over", func(t *ref.Track, n int) {
		t.Chunks, t.Stsc = make([]uint64, n), nil
		for i := 0; i < n; i++ {
			t.Stsc = append(t.Stsc, ref.SC{First: uint32(i%2*n + 1), Per: 1})
		}
	}),
	probeWork("sample-to-chunk entries that go backwards", func(t *ref.Track, n int) {
		t.Chunks, t.Stsc = make([]uint64, n), nil
		for i := n; i > 0; i-- {
			t.Stsc = append(t.Stsc, ref.SC{First: uint32(i), Per: 1})
		}
	}),
	probeWork("sample durations, offsets and sizes", func(t *ref.Track, n int) {
		t.Stts, t.Ctts, t.Stsz = nil, nil, make([]uint32, n)
		for i := 0; i < n; i++ {
			t.Stts = append(t.Stts, ref.Run{N: 1, Delta: uint32(i)})
			t.Ctts = append(t.Ctts, ref.CT{N: 1, Off: int64(i)})
		}
	}),
	probeWork("empty runs of samples", func(t *ref.Track, n int) {
		t.Stts, t.Ctts = make([]ref.Run, n), make([]ref.CT, n)
	}),
	probeWork("offsets of samples that do not exist", func(t *ref.Track, n int) {
		t.Ctts = nil
		for i := 0; i < n; i++ {
			t.Ctts = append(t.Ctts, ref.CT{N: 1<<32 - 1, Off: 1})
		}
	}),
	probeWork("edits", func(t *ref.Track, n int) { t.HasElst, t.Elst = true, make([]ref.Edit, n) }),
	{"tracks", func(n int) func() {
		m := plainMovie()
		for i := 0; i < n/8; i++ {
			m.Tracks = append(m.Tracks, plainTrack(uint32(i)))
		}
		return probeOf(m)
	}},
	{"fragments", func(n int) func() {
		m := plainMovie()
		m.Tracks = []*ref.Track{plainTrack(1)}
		for i := 0; i < n/4; i++ {
			m.Frags = append(m.Frags, &ref.Frag{TrackID: uint32(i % 3), HasTrun: true, N: 1, Dur: []uint32{1}, Size: []uint32{1}, Cts: []int64{0}, TrunFlags: 0x300})
		}
		return probeOf(m)
	}},
	{"samples with a maximum over many of them", func(n int) func() {
		l := make(mp4.Samples, n)
		for i := range l {
			l[i] = &mp4.Sample{Size: uint32(i % 7), TimeDelta: 1}
		}
		return func() {
			for _, w := range []uint64{1, 5, uint64(n / 2), uint64(n), 1 << 40} {
				l.GetMaxBitrate(1000, w)
			}
			l.GetBitrate(1000)
		}
	}},
	{"samples without duration", func(n int) func() {
		l := make(mp4.Samples, n)
		for i := range l {
			l[i] = &mp4.Sample{Size: 1}
		}
		return func() { l.GetMaxBitrate(1000, 1); l.GetMaxBitrate(1000, 1<<20) }
	}},
	{"fragments of some tracks", func(n int) func() {
		l := make(mp4.Segments, n)
		for i := range l {
			l[i] = &mp4.Segment{TrackID: uint32(i % 5), Size: 1, Duration: uint32(i % 3)}
		}
		return func() { l.GetMaxBitrate(1, 1000); l.GetBitrate(1, 1000) }
	}},
	{"samples searched for key frames", func(n int) func() {
		data := bytes.Repeat([]byte{0, 0, 0, 1, 0x65, 0, 0, 0, 1, 0x41}, n)
		t := &mp4.Track{AVC: &mp4.AVCDecConfigInfo{LengthSize: 4}}
		for i := 0; i < n; i++ {
			t.Chunks = append(t.Chunks, &mp4.Chunk{DataOffset: uint64(10 * i), SamplesPerChunk: 1})
			t.Samples = append(t.Samples, &mp4.Sample{Size: 10})
		}
		return func() { mp4.FindIDRFrames(bytes.NewReader(data), t) }
	}},
	{"units in one sample", func(n int) func() {
		data := bytes.Repeat([]byte{0, 0, 0, 1, 0x41}, n)
		t := &mp4.Track{AVC: &mp4.AVCDecConfigInfo{LengthSize: 4}, Chunks: mp4.Chunks{{SamplesPerChunk: 1}}, Samples: mp4.Samples{{Size: uint32(len(data))}}}
		return func() { mp4.FindIDRFrames(bytes.NewReader(data), t) }
	}},
	{"empty chunks", func(n int) func() {
		t := &mp4.Track{AVC: &mp4.AVCDecConfigInfo{LengthSize: 4}, Chunks: make(mp4.Chunks, n), Samples: make(mp4.Samples, n)}
		for i := range t.Chunks {
			t.Chunks[i] = &mp4.Chunk{SamplesPerChunk: uint32(i % 2)}
			t.Samples[i] = &mp4.Sample{}
		}
		return func() { mp4.FindIDRFrames(bytes.NewReader(nil), t) }
	}},
	{"brands asked for and removed", func(n int) func() {
		return func() {
			f := &mp4.Ftyp{CompatibleBrands: make([]mp4.CompatibleBrandElem, n)}
			f.HasCompatibleBrand([4]byte{1})
			f.AddCompatibleBrand([4]byte{1})
			f.RemoveCompatibleBrand([4]byte{1})
			f.RemoveCompatibleBrand([4]byte{})
		}
	}},
}

func probeWork(name string, set func(t *ref.Track, n int)) struct {
	name string
	make func(n int) func()
} {
	return struct {
		name string
		make func(n int) func()
	}{name, func(n int) func() {
		m := plainMovie()
		t := plainTrack(1)
		set(t, n)
		m.Tracks = []*ref.Track{t}
		return probeOf(m)
	}}
}

func probeOf(m *ref.Movie) func() {
	data := ref.Cat(m.Layout()...)
	return func() {
		p, err := mp4.Probe(bytes.NewReader(data))
		if err != nil {
			return
		}
		for _, t := range p.Tracks {
			t.Samples.GetMaxBitrate(t.Timescale, uint64(t.Timescale))
		}
	}
}

// cpu is the processor time that f takes, in nanoseconds.
func cpu(f func()) int64 {
	runtime.GC()
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	used := func() int64 {
		var u syscall.Rusage
		if err := syscall.Getrusage(1, &u); err != nil { // RUSAGE_THREAD
			panic("harness: getrusage: " + err.Error())
		}
		return u.Utime.Nano() + u.Stime.Nano()
	}
	t := used()
	f()
	return used() - t
}

// workBody: eight times as much of something may take about eight times as long. To take more than 25 times
// as long, and more than 0.3 s, in every one of five measurements, is what growing with the square looks like.
func workBody(x *mc.X) {
	k := x.Choose(len(works)+len(growing)*len(growthOps), "what")
	var name string
	var small, large func()
	const n = 8000
	if k < len(works) {
		name = works[k].name
		small, large = works[k].make(n), works[k].make(8*n)
	} else {
		k -= len(works)
		g, o := growing[k/len(growthOps)], growthOps[k%len(growthOps)]
		name = g.name + ", " + o.name
		a, b := g.make(n), g.make(8*n)
		small, large = func() { o.f(a) }, func() { o.f(b) }
	}
	x.Describe("%d and %d %s", n, 8*n, name)
	x.State(name)
	bad := 0
	var ts, tl int64
	for bad < 5 {
		ts, tl = cpu(small), cpu(large)
		if tl < 3e8 || tl < 25*ts {
			break
		}
		bad++
	}
	x.Outcome(bad)
	if bad == 5 {
		x.Fail("work:"+name, "%d %s take %.3f s, %d take %.3f s of processor time", n, name, float64(ts)/1e9, 8*n, float64(tl)/1e9)
	}
}

func boxRow(t string, n int) (l []*ref.Box) {
	for i := 0; i < n; i++ {
		l = append(l, ref.B(t, nil))
	}
	return
}

var growthOps = []struct {
	name string
	f    func(data []byte) error
}{
	{"walked", func(data []byte) error {
		_, err := mp4.ReadBoxStructure(bytes.NewReader(data), func(h *mp4.ReadHandle) (interface{}, error) {
			if !h.BoxInfo.IsSupportedType() {
				return nil, nil
			}
			return h.Expand()
		})
		return err
	}},
	{"read", func(data []byte) error {
		_, err := mp4.ReadBoxStructure(bytes.NewReader(data), func(h *mp4.ReadHandle) (interface{}, error) {
			if !h.BoxInfo.IsSupportedType() {
				return nil, nil
			}
			b, _, err := h.ReadPayload()
			if err != nil {
				return nil, err
			}
			if _, err := mp4.Marshal(io.Discard, b, h.BoxInfo.Context); err != nil {
				return nil, err
			}
			return h.Expand()
		})
		return err
	}},
	{"rendered", func(data []byte) error {
		_, err := mp4.ReadBoxStructure(bytes.NewReader(data), func(h *mp4.ReadHandle) (interface{}, error) {
			if !h.BoxInfo.IsSupportedType() {
				return nil, nil
			}
			b, _, err := h.ReadPayload()
			if err != nil {
				return nil, err
			}
			if _, err := mp4.Stringify(b, h.BoxInfo.Context); err != nil {
				return nil, err
			}
			return h.Expand()
		})
		return err
	}},
	{"their data read", func(data []byte) error {
		_, err := mp4.ReadBoxStructure(bytes.NewReader(data), func(h *mp4.ReadHandle) (interface{}, error) {
			if _, err := h.ReadData(io.Discard); err != nil || !h.BoxInfo.IsSupportedType() {
				return nil, err
			}
			return h.Expand()
		})
		return err
	}},
	{"extracted", func(data []byte) error {
		any := mp4.BoxTypeAny()
		mp4.ExtractBoxes(bytes.NewReader(data), nil, []mp4.BoxPath{{any}, {any, any}, {any, any, any}})
		return nil // what an unknown box matches on the way is open
	}},
	{"extracted with payload", func(data []byte) error {
		any := mp4.BoxTypeAny()
		mp4.ExtractBoxesWithPayload(bytes.NewReader(data), nil, []mp4.BoxPath{{any}, {any, any}, {any, any, any}})
		return nil // unknown boxes have no payload
	}},
	{"probed", func(data []byte) error {
		mp4.Probe(bytes.NewReader(data))
		return nil // not a movie
	}},
	{"copied", func(data []byte) error {
		w := mp4.NewWriter(newVfile(nil))
		r := bytes.NewReader(data)
		for {
			bi, err := mp4.ReadBoxInfo(r)
			if err == io.EOF {
				return nil
			}
			if err != nil {
				return err
			}
			if err := w.CopyBox(r, bi); err != nil {
				return err
			}
			if _, err := bi.SeekToEnd(r); err != nil {
				return err
			}
		}
	}},
}

func useAll(x *mc.X, data []byte) {
	limit := 120*len(data) + 2000
	// walk, expanding and decoding everything; no box is visited twice
	m := newMeter(x, "walk", data, limit)
	last := int64(-1)
	visits := 0
	_, err := mp4.ReadBoxStructure(m, func(h *mp4.ReadHandle) (interface{}, error) {
		if int64(h.BoxInfo.Offset) <= last {
			x.Fail("endless:revisit", "the walk came back to offset %d after %d", h.BoxInfo.Offset, last)
		}
		last = int64(h.BoxInfo.Offset)
		visits++
		if visits > len(data)/8+1 {
			x.Fail("endless:visits", "%d visits in %d bytes", visits, len(data))
		}
		if !h.BoxInfo.IsSupportedType() {
			return nil, nil
		}
		if b, _, err := h.ReadPayload(); err == nil {
			mp4.Stringify(b, h.BoxInfo.Context)
		}
		return h.Expand()
	})
	x.Outcome(visits, err == nil)
	// raw data of every box at the top level and of its children
	m = newMeter(x, "data", data, limit)
	m.most = 0
	mp4.ReadBoxStructure(m, func(h *mp4.ReadHandle) (interface{}, error) {
		if _, err := h.ReadData(io.Discard); err != nil {
			return nil, nil
		}
		if len(h.Path) < 3 && h.BoxInfo.IsSupportedType() {
			return h.Expand()
		}
		return nil, nil
	})
	any := mp4.BoxTypeAny()
	m = newMeter(x, "extract", data, limit)
	mp4.ExtractBoxes(m, nil, []mp4.BoxPath{{any}, {any, any}, {mp4.BoxTypeMoov(), mp4.BoxTypeTrak()}, {any, any, any, any}})
	m = newMeter(x, "extract with payload", data, limit)
	mp4.ExtractBoxesWithPayload(m, nil, []mp4.BoxPath{{any, any}, {any}})
	m = newMeter(x, "probe", data, limit)
	p, err := mp4.Probe(m)
	x.Outcome(err == nil)
	if err != nil {
		return
	}
	for _, t := range p.Tracks {
		t.Samples.GetBitrate(t.Timescale)
		t.Samples.GetMaxBitrate(t.Timescale, uint64(t.Timescale))
		t.Samples.GetMaxBitrate(t.Timescale, 0)
		p.Segments.GetBitrate(t.TrackID, t.Timescale)
		p.Segments.GetMaxBitrate(t.TrackID, t.Timescale)
		if t.AVC != nil {
			per := len(data)/int(t.AVC.LengthSize) + 2
			m := newMeter(x, "key frames", data, 3*per*(len(t.Samples)+1))
			m.most = 0
			mp4.FindIDRFrames(m, t)
		}
	}
}

var finiteTypes = []string{"moov", "free", "meta", "ilst", "stsd", "mp4a", "wave", "data", "esds", "udta", "zzzz", "trak", "\x00\x00\x00\x01"}

// extremes are values put in place of any 32 bits.
var extremes = []uint32{0, 1, 7, 8, 9, 0x10, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0x00ffffff, 0x100}

// finiteFiles are the files whose bytes are changed.
func finiteFiles() (out [][]byte) {
	m := plainMovie()
	m.Tracks = []*ref.Track{plainTrack(1), plainTrack(2)}
	m.Tracks[1].Codec = ref.MP4AWave
	m.Brands = []string{"qt  ", "qt  "}
	m.Tracks[0].HasElst, m.Tracks[0].Elst = true, []ref.Edit{{Duration: 5, Time: 1}}
	out = append(out, ref.Cat(m.Layout()...))
	m = plainMovie()
	m.Tracks = []*ref.Track{plainTrack(1)}
	m.Tracks[0].Codec = ref.MP4A
	m.Tracks[0].Stts, m.Tracks[0].Stsz, m.Tracks[0].Chunks, m.Tracks[0].Stsc = nil, nil, nil, nil
	m.Frags = []*ref.Frag{{TrackID: 1, HasDur: true, DefDur: 5, HasSize: true, DefSize: 9, Tfdt: 2, Base: 7, HasTrun: true, TrunFlags: 0xf01, N: 2, Dur: []uint32{1, 2}, Size: []uint32{3, 4}, Cts: []int64{5, 6}, Mdat: []byte{1, 2, 3, 4, 5, 6, 7}},
		{TrackID: 1, Tfdt: 1, HasTrun: true, TrunFlags: 0x201, N: 1, Size: []uint32{3}, Dur: []uint32{1}, Cts: []int64{5}, Mdat: []byte{1, 2, 3}}}
	out = append(out, ref.Cat(m.Layout()...))
	// metadata and nested boxes
	out = append(out, ref.Cat(ref.B("ftyp", []byte("isom\x00\x00\x02\x00isom")),
		ref.B("moov", nil, ref.B("udta", nil, ref.B("meta", ref.Full(0, 0),
			ref.B("hdlr", ref.Full(0, 0).U32(0).S("mdirappl").Zero(9)),
			ref.B("ilst", nil, ref.B("\xa9too", nil, ref.B("data", ref.W{}.U32(1).U32(0).S("Lavf")))))),
			ref.B("meta", nil, ref.B("hdlr", ref.Full(0, 0).U32(0).S("mdta").Zero(13)),
				ref.B("keys", ref.Full(0, 0).U32(1).U32(12).S("mdtakey1")),
				ref.B("ilst", nil, ref.B("\x00\x00\x00\x01", nil, ref.B("data", ref.W{}.U32(1).U32(0).S("x"))))))))
	return out
}

func c30(tier string) []*mc.Unit {
	words := func(x *mc.X) {
		toks := [][]byte{}
		for _, v := range []uint32{0, 1, 8, 9, 16, 24, 0x7fffffff, 0xffffffff} {
			toks = append(toks, ref.W{}.U32(v))
		}
		for _, t := range finiteTypes {
			if t[0] != 0 {
				toks = append(toks, []byte(t))
			}
		}
		n := x.Choose(depth(tier, 5, 6), "words")
		var data []byte
		for i := 0; i < n; i++ {
			data = append(data, toks[x.Choose(len(toks), "word")]...)
		}
		data = append(data, make([]byte, []int{0, 3, 9}[x.Choose(3, "tail")])...)
		x.State(data)
		x.Describe("%x", data)
		useAll(x, data)
	}
	headers := func(x *mc.X) { // up to 3 headers with any sizes; nesting follows from the sizes
		var data ref.W
		n := 1 + x.Choose(3, "headers")
		for i := 0; i < n; i++ {
			var typ string
			if i < 2 {
				typ = finiteTypes[x.Choose(len(finiteTypes), "type")]
			} else {
				typ = finiteTypes[x.Dev(len(finiteTypes), "type")]
			}
			sizes := []uint64{8, 0, 7, 16, 24, 40, 0xffffffff,
				1 << 60, 1<<60 | 1, 1<<60 | 2, 1<<60 | 3, 1<<60 | 4, 1<<60 | 5, 1<<60 | 6, 1<<60 | 7}
			var c int
			if i < 2 {
				c = x.Choose(len(sizes), "size")
			} else {
				c = x.Dev(len(sizes), "size")
			}
			s := sizes[c]
			if s < 1<<60 {
				data = data.U32(uint32(s)).S(typ)
			} else {
				at := uint64(len(data))
				data = data.U32(1).S(typ).U64([]uint64{16, 15, 0, 40, 1<<63 - 1, 1 << 63, 1<<64 - 1, -at}[s&7])
			}
		}
		data = data.Zero([]int{0, 40, 4, 12}[x.Dev(4, "tail")])
		x.State([]byte(data))
		x.Describe("%x", []byte(data))
		useAll(x, data)
	}
	files := finiteFiles()
	change := func(x *mc.X, data []byte, skipFrom, skipTo, times int, vals []uint32) []byte {
		data = append([]byte{}, data...)
		span := len(data) - 3
		for i := 0; i < times; i++ {
			d := x.Dev(1+span, "place")
			if d == 0 {
				break
			}
			at := d - 1
			if at >= skipFrom && at < skipTo {
				x.Skip()
			}
			v := vals[x.Choose(len(vals), "value")]
			binary.BigEndian.PutUint32(data[at:], v)
			x.Describe("bytes %d-%d set to %#x", at, at+3, v)
		}
		return data
	}
	// big tells that a few bytes claim very much; those cases are the serial unit's.
	big := func(x *mc.X, data []byte) {
		if claims(data) > 1<<16 {
			x.Skip()
		}
	}
	movies := func(x *mc.X) {
		data := files[x.Choose(len(files), "file")]
		data = change(x, data, 0, 0, depth(tier, 1, 2), extremes)
		big(x, data)
		x.State(data)
		useAll(x, data)
	}
	cuts := func(x *mc.X) { // one or two stretches left out
		data := files[x.Choose(len(files), "file")]
		a := x.Choose(len(data)/4, "from") * 4
		n := 4 * (1 + x.Choose(40, "length"))
		if a+n > len(data) {
			x.Skip()
		}
		data = append(append([]byte{}, data[:a]...), data[a+n:]...)
		big(x, data)
		x.State(data)
		x.Describe("bytes %d-%d left out", a, a+n-1)
		useAll(x, data)
	}
	sample := func(x *mc.X) {
		name := sampleNames[x.Choose(len(sampleNames), "file")]
		data := samples[name]
		from, to := 0, 0
		for _, n := range parsedSample(name).Top {
			if n.Type == "mdat" && n.Size > 64 {
				from, to = int(n.Off)+24, int(n.Off+n.Size)-24
			}
		}
		if len(data) > 32000 {
			x.Skip()
		}
		vals := extremes
		if tier != "thorough" {
			vals = []uint32{0xffffffff, 9}
		}
		data = change(x, data, from, to, 1, vals)
		big(x, data)
		x.State(data)
		useAll(x, data)
	}
	memory := func(x *mc.X) { // one at a time, measuring what is allocated
		var data []byte
		known := ""
		switch 4 - x.Choose(5, "source") {
		case 4: // many of the same: the memory grows along with the number
			g := growing[x.Choose(len(growing), "what")]
			o := x.Choose(len(growthOps), "operation")
			var used [2]uint64
			var lens [2]int
			for i, n := range []int{2000, 16000} {
				data := g.make(n)
				lens[i] = len(data)
				a := allocated()
				if err := growthOps[o].f(data); err != nil {
					x.Fail("memory:many:error", "%d %s, %s: error %v", n, g.name, growthOps[o].name, err)
				}
				used[i] = allocated() - a
			}
			x.State(g.name, o)
			x.Describe("16000 %s, %s", g.name, growthOps[o].name)
			if used[1] > 12*used[0]+1<<19 {
				x.Fail("memory:many", "%s: 2000 %s (%d bytes) allocate %d bytes, 16000 (%d bytes) allocate %d bytes", growthOps[o].name, g.name, lens[0], used[0], lens[1], used[1])
			}
			x.Outcome(used[1] > 1<<16)
			return
		case 3: // boxes in boxes
			typ := []string{"moov", "udta", "trak"}[x.Choose(3, "type")]
			var used [2]uint64
			for i, d := range []int{3000, 6000} {
				data := make([]byte, 0, 8*d)
				for j := 0; j < d; j++ {
					data = append(binary.BigEndian.AppendUint32(data, uint32(8*(d-j))), typ...)
				}
				a := allocated()
				n := 0
				_, err := mp4.ReadBoxStructure(bytes.NewReader(data), func(h *mp4.ReadHandle) (interface{}, error) {
					n++
					return h.Expand()
				})
				if err != nil || n != d {
					x.Fail("memory:nesting", "%d nested boxes: %d visited, error %v", d, n, err)
				}
				used[i] = allocated() - a
			}
			x.State(typ)
			x.Describe("6000 nested boxes of type %s", typ)
			if used[1] > 5*used[0] {
				x.Fail("memory:nesting", "expanding 3000 nested boxes allocates %d bytes, 6000 nested boxes %d bytes", used[0], used[1])
			}
			if used[1] > 3*used[0] {
				x.Fail("memory:nesting-depth", "expanding 3000 nested boxes allocates %d bytes, 6000 nested boxes %d bytes", used[0], used[1])
			}
			return
		case 0:
			data = files[x.Choose(len(files), "file")]
			data = change(x, data, 0, 0, 1, []uint32{0x7fffffff, 0x00ffffff, 0xffffffff, 0x00010000}[:depth(tier, 2, 4)])
			big(x, data)
		case 1: // what run-length coded tables may claim
			m := plainMovie()
			t := plainTrack(1)
			t.Stts = []ref.Run{{N: []uint32{1 << 19, 1 << 20}[x.Choose(2, "run")], Delta: 1}}
			m.Tracks = []*ref.Track{t}
			data = ref.Cat(m.Layout()...)
			known = ":stts-run-length"
		case 2:
			n := uint32([]int{1 << 17, 1 << 18}[x.Choose(2, "samples")])
			data = ref.Cat(ref.B("moof", nil, ref.B("traf", nil, ref.B("tfhd", ref.Full(0, 0).U32(1)), ref.B("trun", ref.Full(0, 0).U32(n)))))
			known = ":trun-without-fields"
		}
		x.State(data)
		a := allocated()
		useAll(x, data)
		got := allocated() - a
		if lim := uint64(len(data))*20000 + 1<<22; got > lim {
			x.Fail("memory"+known, "%d bytes of input made the library allocate %d bytes", len(data), got)
		}
		x.Outcome(got>>18, fmt.Sprint(known))
	}
	frames := func(x *mc.X) { // key frames with any tables
		data := [][]byte{make([]byte, 40), bytes.Repeat([]byte{0xff}, 40), bytes.Repeat([]byte{0, 0, 0, 1}, 10), bytes.Repeat([]byte{0x7f}, 40), nil}[x.Choose(5, "data")]
		ls := 1 + x.Choose(4, "length size")
		t := &mp4.Track{AVC: &mp4.AVCDecConfigInfo{LengthSize: uint16(ls)}}
		offs := []uint64{0, 38, 41, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 4}
		pers := []uint32{0, 1, 2, 1<<32 - 1, 1 << 31}
		for i := x.Choose(3, "chunks"); i > 0; i-- {
			t.Chunks = append(t.Chunks, &mp4.Chunk{DataOffset: offs[x.Choose(len(offs), "offset")], SamplesPerChunk: pers[x.Choose(len(pers), "samples")]})
		}
		sizes := []uint32{0, 1, 2, 20, 40, 41, 1 << 31, 1<<32 - 1}
		for i := x.Choose(3, "samples"); i > 0; i-- {
			t.Samples = append(t.Samples, &mp4.Sample{Size: sizes[x.Choose(len(sizes), "size")]})
		}
		x.State(data, ls, fmt.Sprint(len(t.Chunks), len(t.Samples)))
		m := newMeter(x, "key frames", data, 4*(len(data)+8)*(len(t.Samples)+1))
		ids, err := mp4.FindIDRFrames(m, t)
		x.Outcome(len(ids), err == nil)
	}
	return []*mc.Unit{
		{Name: "words", Body: words, Weight: 2},
		{Name: "headers", Body: headers, Bound: depth(tier, 1, 3), Weight: 2},
		{Name: "key-frames", Body: frames},
		{Name: "memory", Body: memory, Bound: 1, Serial: true, Weight: 2},
		{Name: "work", Body: workBody, Serial: true, Weight: 2},
		{Name: "movies", Body: movies, Bound: depth(tier, 1, 2), Weight: 2},
		{Name: "cuts", Body: cuts},
		{Name: "sample-files", Body: sample, Bound: 1, Weight: 2},
	}
}
