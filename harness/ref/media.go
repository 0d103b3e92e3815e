//go:build go1.22

package ref

import "encoding/binary"

// W builds big-endian byte strings.
type W []byte

func (w W) U8(v ...byte) W { return append(w, v...) }
func (w W) U16(v uint16) W { return binary.BigEndian.AppendUint16(w, v) }
func (w W) U32(v uint32) W { return binary.BigEndian.AppendUint32(w, v) }
func (w W) U64(v uint64) W { return binary.BigEndian.AppendUint64(w, v) }
func (w W) S(s string) W   { return append(w, s...) }
func (w W) Zero(n int) W   { return append(w, make([]byte, n)...) }
func (w W) Fill(n int, b byte) W {
	for i := 0; i < n; i++ {
		w = append(w, b)
	}
	return w
}

// Full starts the payload of a full box.
func Full(version byte, flags uint32) W {
	return W{version, byte(flags >> 16), byte(flags >> 8), byte(flags)}
}

// Descr is one descriptor of an esds box; the size takes n bytes.
func Descr(tag byte, n int, body []byte) []byte {
	out := []byte{tag}
	for i := n - 1; i >= 0; i-- {
		b := byte(len(body)>>(7*uint(i))) & 0x7f
		if i > 0 {
			b |= 0x80
		}
		out = append(out, b)
	}
	return append(out, body...)
}

// Movie is the description of a file, from which both the file and the expected report follow.
type Movie struct {
	Brands    []string // major first; nil = no ftyp
	Minor     uint32
	QTBrand   bool
	NoMvhd    bool
	MvhdV1    bool
	Timescale uint32
	Duration  uint64
	Tracks    []*Track
	Frags     []*Frag
	// Order of moov and mdat: 0 moov first, 1 mdat first, 2 no mdat, 3 mdat on both sides, 4 no moov
	Order    int
	MdatLen  int
	MoovForm int
	MdatForm int
	Extra    bool // unknown boxes in between
	// Front and Gap are the lengths of media data at the beginning and before the fragments, of which
	// only the header is written
	Front, Gap uint64
}

// Track is one track.
type Track struct {
	ID        uint32
	TkhdV1    bool
	NoTkhd    bool
	Timescale uint32
	Duration  uint64
	MdhdV1    bool
	NoMdhd    bool
	HasElst   bool
	ElstV1    bool
	Elst      []Edit
	Codec     int // see Codec constants
	Video     Video
	Audio     Audio
	Chunks    []uint64
	Co64      bool
	NoChunks  bool
	Stts      []Run
	NoStts    bool
	Stsc      []SC
	NoStsc    bool
	Ctts      []CT
	HasCtts   bool
	CttsV1    bool
	StszConst uint32
	StszCount uint32
	Stsz      []uint32
	NoStsz    bool
	StblOrder int // rotation of the boxes of stbl
}

// Codecs of a track.
const (
	NoEntry = iota
	AVC1
	AVC1Bare
	ENCV
	MP4A
	MP4ABare
	ENCA
	MP4AWave
	Hev1
	NumCodecs
)

// Edit is an edit list entry.
type Edit struct {
	Duration uint64
	Time     int64
}

// Run is an stts entry.
type Run struct{ N, Delta uint32 }

// SC is an stsc entry.
type SC struct{ First, Per uint32 }

// CT is a ctts entry.
type CT struct {
	N   uint32
	Off int64
}

// Video is an AVC configuration.
type Video struct {
	W, H                         uint16
	Conf, Profile, Compat, Level byte
	LengthSize                   int
}

// Audio is an MPEG-4 audio configuration.
type Audio struct {
	Channels uint16
	OTI      byte
	ASC      []byte
	NoASC    bool
	NoConfig bool
	VarLen   int
	// More are descriptors around that of the configuration: in front and behind
	More [2][]byte
}

// Frag is a movie fragment with its media data.
type Frag struct {
	NoTfhd    bool
	TrackID   uint32
	DefDur    uint32
	HasDur    bool
	DefSize   uint32
	HasSize   bool
	MoreTfhd  uint32 // further flags: 1 base data offset, 2 description index, 0x20 flags
	Tfdt      int    // 0 none, 1 v0, 2 v1
	Base      uint64
	HasTrun   bool
	TrunFlags uint32
	TrunV1    bool
	N         int
	Dur       []uint32
	Size      []uint32
	Cts       []int64
	Mdat      []byte
	Form      int
	More      []*Frag // further runs; only what describes the run counts
}

// Runs lists the runs of the fragment.
func (f *Frag) Runs() (out []*Frag) {
	if f.HasTrun {
		out = append(out, f)
	}
	return append(out, f.More...)
}

func (m *Movie) ftyp() *Box {
	w := W{}.S(m.Brands[0]).U32(m.Minor)
	for _, b := range m.Brands[1:] {
		w = w.S(b)
	}
	return B("ftyp", w)
}

func mvhd(v1 bool, ts uint32, dur uint64) *Box {
	var w W
	if v1 {
		w = Full(1, 0).U64(11).U64(12).U32(ts).U64(dur)
	} else {
		w = Full(0, 0).U32(11).U32(12).U32(ts).U32(uint32(dur))
	}
	return B("mvhd", w.U32(0x10000).U16(0x100).Zero(10).U32(0x10000).Zero(12).U32(0x10000).Zero(12).U32(0x40000000).Zero(24).U32(9))
}

func (t *Track) box(qt bool) *Box {
	trak := B("trak", nil)
	if !t.NoTkhd {
		var w W
		if t.TkhdV1 {
			w = Full(1, 3).U64(21).U64(22).U32(t.ID).U32(0).U64(77)
		} else {
			w = Full(0, 3).U32(21).U32(22).U32(t.ID).U32(0).U32(77)
		}
		trak.Kids = append(trak.Kids, B("tkhd", w.Zero(8).U16(1).U16(2).U16(0x100).U16(0).Zero(36).U32(0x1230000).U32(0x2340000)))
	}
	if t.HasElst {
		w := Full(0, 0)
		if t.ElstV1 {
			w = Full(1, 0)
		}
		w = w.U32(uint32(len(t.Elst)))
		for _, e := range t.Elst {
			if t.ElstV1 {
				w = w.U64(e.Duration).U64(uint64(e.Time))
			} else {
				w = w.U32(uint32(e.Duration)).U32(uint32(e.Time))
			}
			w = w.U16(1).U16(0)
		}
		trak.Kids = append(trak.Kids, B("edts", nil, B("elst", w)))
	}
	mdia := B("mdia", nil)
	if !t.NoMdhd {
		var w W
		if t.MdhdV1 {
			w = Full(1, 0).U64(31).U64(32).U32(t.Timescale).U64(t.Duration)
		} else {
			w = Full(0, 0).U32(31).U32(32).U32(t.Timescale).U32(uint32(t.Duration))
		}
		mdia.Kids = append(mdia.Kids, B("mdhd", w.U16(0x55c4).U16(0)))
	}
	var stbl []*Box
	stsd := B("stsd", Full(0, 0).U32(1))
	if e := t.entry(qt); e != nil {
		stsd.Kids = append(stsd.Kids, e)
	} else {
		stsd.Fields = Full(0, 0).U32(0)
	}
	stbl = append(stbl, stsd)
	if !t.NoStts {
		w := Full(0, 0).U32(uint32(len(t.Stts)))
		for _, r := range t.Stts {
			w = w.U32(r.N).U32(r.Delta)
		}
		stbl = append(stbl, B("stts", w))
	}
	if t.HasCtts {
		w := Full(0, 0)
		if t.CttsV1 {
			w = Full(1, 0)
		}
		w = w.U32(uint32(len(t.Ctts)))
		for _, c := range t.Ctts {
			w = w.U32(c.N).U32(uint32(c.Off))
		}
		stbl = append(stbl, B("ctts", w))
	}
	if !t.NoStsc {
		w := Full(0, 0).U32(uint32(len(t.Stsc)))
		for _, s := range t.Stsc {
			w = w.U32(s.First).U32(s.Per).U32(1)
		}
		stbl = append(stbl, B("stsc", w))
	}
	if !t.NoStsz {
		w := Full(0, 0).U32(t.StszConst)
		if t.StszConst != 0 {
			w = w.U32(t.StszCount)
		} else {
			w = w.U32(uint32(len(t.Stsz)))
			for _, s := range t.Stsz {
				w = w.U32(s)
			}
		}
		stbl = append(stbl, B("stsz", w))
	}
	if !t.NoChunks {
		w := Full(0, 0).U32(uint32(len(t.Chunks)))
		for _, c := range t.Chunks {
			if t.Co64 {
				w = w.U64(c)
			} else {
				w = w.U32(uint32(c))
			}
		}
		if t.Co64 {
			stbl = append(stbl, B("co64", w))
		} else {
			stbl = append(stbl, B("stco", w))
		}
	}
	k := t.StblOrder % len(stbl)
	stbl = append(append([]*Box{}, stbl[k:]...), stbl[:k]...)
	mdia.Kids = append(mdia.Kids, B("minf", nil, B("stbl", nil, stbl...)))
	trak.Kids = append(trak.Kids, mdia)
	return trak
}

func (t *Track) entry(qt bool) *Box {
	visual := W{}.Zero(6).U16(1).Zero(16).U16(t.Video.W).U16(t.Video.H).U32(0x480000).U32(0x480000).U32(0).U16(1).Zero(32).U16(0x18).U16(0xffff)
	sps := []byte{0x67, t.Video.Profile, t.Video.Compat, t.Video.Level, 0xaa}
	avcC := W{}.U8(t.Video.Conf, t.Video.Profile, t.Video.Compat, t.Video.Level, 0xfc|byte(t.Video.LengthSize-1), 0xe1).U16(uint16(len(sps))).U8(sps...).U8(1).U16(2).U8(0x68, 0x01)
	if p := t.Video.Profile; p == 100 || p == 110 || p == 122 || p == 144 {
		avcC = avcC.U8(0xfd, 0xf8, 0xf8, 0)
	}
	audio := W{}.Zero(6).U16(1).U16(0).Zero(6).U16(t.Audio.Channels).U16(16).U16(0).U16(0).U32(48000 << 16)
	n := t.Audio.VarLen
	if n == 0 {
		n = 4
	}
	var cfg []byte
	if !t.Audio.NoConfig {
		cfg = W{}.U8(t.Audio.OTI, 0x15, 0, 0x06, 0).U32(128000).U32(96000)
		var asc []byte
		if !t.Audio.NoASC {
			asc = append(append(append([]byte{}, t.Audio.More[0]...), Descr(5, n, t.Audio.ASC)...), t.Audio.More[1]...)
		}
		cfg = Descr(4, n, append(cfg, asc...))
	}
	es := Descr(3, n, append(append(W{}.U16(2).U8(0), cfg...), Descr(6, n, []byte{2})...))
	esds := B("esds", append(Full(0, 0), es...))
	sinf := B("sinf", nil, B("frma", []byte("xxxx")), B("schm", Full(0, 0).S("cenc").U32(0x10000)))
	switch t.Codec {
	case AVC1:
		return B("avc1", visual, B("avcC", avcC))
	case AVC1Bare:
		return B("avc1", visual)
	case ENCV:
		return B("encv", visual, B("avcC", avcC), sinf)
	case MP4A:
		return B("mp4a", audio, esds)
	case MP4ABare:
		return B("mp4a", audio)
	case ENCA:
		return B("enca", audio, esds, sinf)
	case MP4AWave:
		return B("mp4a", audio, B("wave", nil, B("frma", []byte("mp4a")), esds))
	case Hev1:
		return B("hev1", visual)
	}
	return nil
}

// Layout builds the boxes of the movie.
func (m *Movie) Layout() []*Box {
	var out []*Box
	if m.Brands != nil {
		out = append(out, m.ftyp())
	}
	mdat := func() *Box { return &Box{Type: "mdat", Form: m.MdatForm, Fields: W{}.Fill(m.MdatLen, 0x5c)} }
	if m.Order == 1 || m.Order == 3 {
		out = append(out, mdat())
	}
	if m.Extra {
		out = append(out, B("free", []byte{1, 2, 3}), B("zzzz", []byte{0, 0, 0, 16, 'm', 'o', 'o', 'v'}))
	}
	if m.Order != 4 {
		moov := B("moov", nil)
		moov.Form = m.MoovForm
		if !m.NoMvhd {
			moov.Kids = append(moov.Kids, mvhd(m.MvhdV1, m.Timescale, m.Duration))
		}
		qt := false
		for i, b := range m.Brands {
			qt = qt || i > 0 && b == "qt  "
		}
		for _, t := range m.Tracks {
			if m.Extra {
				moov.Kids = append(moov.Kids, B("udta", nil), B("zzzz", []byte{9}))
			}
			moov.Kids = append(moov.Kids, t.box(qt))
		}
		out = append(out, moov)
	}
	if m.Order == 0 || m.Order == 3 {
		out = append(out, mdat())
	}
	for i, f := range m.Frags {
		out = append(out, f.moof(uint32(i+1)), B("mdat", f.Mdat))
	}
	return out
}

func (f *Frag) trun() *Box {
	v := byte(0)
	if f.TrunV1 {
		v = 1
	}
	w := Full(v, f.TrunFlags).U32(uint32(f.N))
	if f.TrunFlags&1 != 0 {
		w = w.U32(0x99)
	}
	if f.TrunFlags&4 != 0 {
		w = w.U32(0x2000000)
	}
	for i := 0; i < f.N; i++ {
		if f.TrunFlags&0x100 != 0 {
			w = w.U32(f.Dur[i])
		}
		if f.TrunFlags&0x200 != 0 {
			w = w.U32(f.Size[i])
		}
		if f.TrunFlags&0x400 != 0 {
			w = w.U32(0x1010000)
		}
		if f.TrunFlags&0x800 != 0 {
			w = w.U32(uint32(f.Cts[i]))
		}
	}
	return B("trun", w)
}

func (f *Frag) moof(seq uint32) *Box {
	traf := B("traf", nil)
	if !f.NoTfhd {
		fl := uint32(0x020000) | f.MoreTfhd
		w := W{}.U32(f.TrackID)
		if f.MoreTfhd&1 != 0 {
			w = w.U64(0x1122334455)
		}
		if f.MoreTfhd&2 != 0 {
			w = w.U32(1)
		}
		if f.HasDur {
			fl |= 8
			w = w.U32(f.DefDur)
		}
		if f.HasSize {
			fl |= 0x10
			w = w.U32(f.DefSize)
		}
		if f.MoreTfhd&0x20 != 0 {
			w = w.U32(0x1010000)
		}
		traf.Kids = append(traf.Kids, B("tfhd", append(Full(0, fl), w...)))
	}
	switch f.Tfdt {
	case 1:
		traf.Kids = append(traf.Kids, B("tfdt", Full(0, 0).U32(uint32(f.Base))))
	case 2:
		traf.Kids = append(traf.Kids, B("tfdt", Full(1, 0).U64(f.Base)))
	}
	if f.HasTrun {
		traf.Kids = append(traf.Kids, f.trun())
	}
	for _, g := range f.More {
		traf.Kids = append(traf.Kids, g.trun())
	}
	b := B("moof", nil, B("mfhd", Full(0, 0).U32(seq)), traf)
	b.Form = f.Form
	return b
}

// ---- expectations

// Sample is one sample as the tables state it.
type Sample struct {
	Size, Delta uint32
	Off         int64
}

// Samples expands the tables.
func (t *Track) Samples() []Sample {
	var out []Sample
	for _, r := range t.Stts {
		for i := uint32(0); i < r.N; i++ {
			out = append(out, Sample{Delta: r.Delta})
		}
	}
	i := 0
	if t.HasCtts {
		for _, c := range t.Ctts {
			for k := uint32(0); k < c.N && i < len(out); k++ {
				out[i].Off = c.Off
				i++
			}
		}
	}
	if !t.NoStsz {
		for i := range out {
			if t.StszConst != 0 {
				if uint32(i) < t.StszCount {
					out[i].Size = t.StszConst
				}
			} else if i < len(t.Stsz) {
				out[i].Size = t.Stsz[i]
			}
		}
	}
	return out
}

// PerChunk is the number of samples in chunk i (from 0).
func (t *Track) PerChunk(i int) uint32 {
	n := uint32(0)
	for _, s := range t.Stsc {
		if s.First <= uint32(i+1) {
			n = s.Per
		}
	}
	return n
}

// bits reads big-endian bit fields.
type bits struct {
	b   []byte
	pos int
}

func (r *bits) left() int { return len(r.b)*8 - r.pos }

func (r *bits) get(n int) (uint32, bool) {
	if r.left() < n {
		return 0, false
	}
	v := uint32(0)
	for i := 0; i < n; i++ {
		v = v<<1 | uint32(r.b[r.pos/8]>>(7-uint(r.pos%8)))&1
		r.pos++
	}
	return v, true
}

func (r *bits) peek(at, n int) (uint32, bool) {
	q := &bits{r.b, at}
	return q.get(n)
}

// AAC follows an AudioSpecificConfig bit by bit. ok is false when it is too
// short; unspec tells that the configuration ends inside of an optional part.
func AAC(asc []byte) (aot byte, ok, unspec bool) {
	r := &bits{b: asc}
	typ := func() (uint32, bool) {
		v, ok := r.get(5)
		if !ok {
			return 0, false
		}
		if v == 31 {
			w, ok := r.get(6)
			if !ok {
				return 0, false
			}
			return 32 + w, true
		}
		return v, true
	}
	freq := func() bool {
		v, ok := r.get(4)
		if ok && v == 15 {
			_, ok = r.get(24)
		}
		return ok
	}
	t, ok := typ()
	if !ok {
		return 0, false, false
	}
	if !freq() {
		return 0, false, false
	}
	if t != 2 {
		return byte(t), true, false
	}
	if _, ok := r.get(4); !ok { // channel configuration
		return 2, true, false
	}
	// the extension is looked for behind GASpecificConfig, whose length varies
	for ; ; r.pos++ {
		if r.left() < 16 {
			return 2, true, false
		}
		if v, _ := r.peek(r.pos, 11); v == 0x2b7 {
			break
		}
	}
	r.pos += 11
	ext, ok := typ()
	if !ok {
		return 0, false, true
	}
	if ext != 5 && ext != 22 {
		return 2, true, false
	}
	sbr, ok := r.get(1)
	if !ok {
		return 2, true, true
	}
	if sbr == 0 {
		return 2, true, false
	}
	if ext == 22 {
		return 5, true, false
	}
	if !freq() {
		return 0, false, true
	}
	if r.left() >= 12 {
		if v, _ := r.get(11); v == 0x548 {
			if ps, _ := r.get(1); ps == 1 {
				return 29, true, false
			}
		}
	}
	return 5, true, false
}
