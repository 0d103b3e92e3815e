//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/bits"

	"github.com/abema/go-mp4"
	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

func plainMovie() *ref.Movie {
	return &ref.Movie{Brands: []string{"isom", "isom", "avc1"}, Minor: 512, Timescale: 1000, Duration: 5000, MdatLen: 24}
}

func plainTrack(id uint32) *ref.Track {
	return &ref.Track{ID: id, Timescale: 90000, Duration: 777, Codec: ref.AVC1,
		Video:  ref.Video{W: 320, H: 180, Conf: 1, Profile: 77, Compat: 0x40, Level: 30, LengthSize: 4},
		Audio:  ref.Audio{Channels: 2, OTI: 0x40, ASC: []byte{0x12, 0x10}},
		Chunks: []uint64{100, 260, 700}, Stts: []ref.Run{{N: 2, Delta: 1024}, {N: 1, Delta: 1000}},
		Stsc: []ref.SC{{First: 1, Per: 2}, {First: 2, Per: 1}},
		Ctts: []ref.CT{{N: 1, Off: 2048}, {N: 2, Off: 0}}, HasCtts: true,
		Stsz: []uint32{11, 22, 33}}
}

// mandatory tells whether the track has everything that may not be missing.
func mandatory(t *ref.Track) bool {
	return !t.NoTkhd && !t.NoMdhd && !t.NoChunks && !t.NoStts && !t.NoStsc
}

func checkProbe(x *mc.X, m *ref.Movie) {
	boxes := m.Layout()
	data := ref.Cat(boxes...)
	x.State(data, m.Front, m.Gap)
	var src io.ReadSeeker = bytes.NewReader(data)
	if m.Front+m.Gap > 0 {
		f := newVfile(nil)
		skip := func(n uint64) {
			if n > 0 {
				f.Write(ref.W{}.U32(1).S("mdat").U64(16 + n))
				f.Seek(int64(n), io.SeekCurrent)
			}
		}
		k := len(boxes) - 2*len(m.Frags)
		skip(m.Front)
		f.Write(ref.Cat(boxes[:k]...))
		skip(m.Gap)
		f.Write(ref.Cat(boxes[k:]...))
		f.Seek(0, io.SeekStart)
		src = f
	}
	p, err := mp4.Probe(src)
	bad := ""
	if m.Order != 4 {
		for _, t := range m.Tracks {
			if !mandatory(t) {
				bad = "a track lacks a mandatory table"
			}
			if t.Codec >= ref.MP4A && t.Codec <= ref.MP4AWave && t.Codec != ref.MP4ABare && !t.Audio.NoConfig && t.Audio.OTI == 0x40 {
				if _, ok, unspec := ref.AAC(t.Audio.ASC); unspec {
					x.Skip()
				} else if !ok || t.Audio.NoASC {
					bad = "the audio configuration is too short"
				}
			}
		}
	}
	for _, f := range m.Frags {
		if f.NoTfhd {
			bad = "a fragment has no header"
		}
	}
	x.Outcome(bad)
	if bad != "" {
		if err == nil {
			x.Fail("probe:accepted", "%s but probing succeeded: %s", bad, dumpProbe(p))
		}
		return
	}
	if err != nil {
		x.Fail("probe:error", "probing failed: %v", err)
	}
	fail := func(what string, got, want interface{}) {
		x.Fail("probe:"+what, "%s is %v, reported %v\n   report: %s", what, want, got, dumpProbe(p))
	}
	var major string
	var compat []string
	if m.Brands != nil {
		major, compat = m.Brands[0], m.Brands[1:]
	} else {
		major = anyType
	}
	if string(p.MajorBrand[:]) != major {
		fail("major brand", p.MajorBrand, major)
	}
	if m.Brands != nil && p.MinorVersion != m.Minor {
		fail("minor version", p.MinorVersion, m.Minor)
	}
	var got []string
	for _, b := range p.CompatibleBrands {
		got = append(got, string(b[:]))
	}
	if fmt.Sprint(got) != fmt.Sprint(compat) || len(got) != len(compat) {
		fail("compatible brands", got, compat)
	}
	fast := (m.Order == 0 || m.Order == 2) && m.Front == 0
	if p.FastStart != fast {
		fail("fast start", p.FastStart, fast)
	}
	ts, dur := m.Timescale, m.Duration
	if m.NoMvhd || m.Order == 4 {
		ts, dur = 0, 0
	}
	if p.Timescale != ts || p.Duration != dur {
		fail("movie timing", []uint64{uint64(p.Timescale), p.Duration}, []uint64{uint64(ts), dur})
	}
	tracks := m.Tracks
	if m.Order == 4 {
		tracks = nil
	}
	if len(p.Tracks) != len(tracks) {
		fail("number of tracks", len(p.Tracks), len(tracks))
	}
	for i, t := range tracks {
		checkTrack(x, p.Tracks[i], t, fail)
	}
	if len(p.Segments) != len(m.Frags) {
		fail("number of fragments", len(p.Segments), len(m.Frags))
	}
	off := uint64(len(ref.Cat(boxes[:len(boxes)-2*len(m.Frags)]...)))
	for _, n := range []uint64{m.Front, m.Gap} {
		if n > 0 {
			off += 16 + n
		}
	}
	for i, f := range m.Frags {
		checkSegment(p.Segments[i], f, off, fail)
		off += uint64(len(boxes[len(boxes)-2*len(m.Frags)+2*i].Bytes()) + len(boxes[len(boxes)-2*len(m.Frags)+2*i+1].Bytes()))
	}
}

func dumpProbe(p *mp4.ProbeInfo) string {
	s := fmt.Sprintf("%+v", *p)
	for _, t := range p.Tracks {
		s += fmt.Sprintf(" track %+v", *t)
	}
	for _, t := range p.Segments {
		s += fmt.Sprintf(" segment %+v", *t)
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func checkTrack(x *mc.X, p *mp4.Track, t *ref.Track, fail func(string, interface{}, interface{})) {
	if p.TrackID != t.ID {
		fail("track id", p.TrackID, t.ID)
	}
	if p.Timescale != t.Timescale || p.Duration != t.Duration {
		fail("track timing", []uint64{uint64(p.Timescale), p.Duration}, []uint64{uint64(t.Timescale), t.Duration})
	}
	codec, enc := mp4.CodecUnknown, false
	switch t.Codec {
	case ref.AVC1, ref.AVC1Bare:
		codec = mp4.CodecAVC1
	case ref.ENCV:
		codec, enc = mp4.CodecAVC1, true
	case ref.MP4A, ref.MP4ABare, ref.MP4AWave:
		codec = mp4.CodecMP4A
	case ref.ENCA:
		codec, enc = mp4.CodecMP4A, true
	}
	if p.Codec != codec || p.Encrypted != enc {
		fail("codec", []interface{}{p.Codec, p.Encrypted}, []interface{}{codec, enc})
	}
	n := 0
	if t.HasElst {
		n = len(t.Elst)
	}
	if len(p.EditList) != n {
		fail("edit list", len(p.EditList), n)
	}
	for i := 0; i < n; i++ {
		if p.EditList[i].MediaTime != t.Elst[i].Time || p.EditList[i].SegmentDuration != t.Elst[i].Duration {
			fail(fmt.Sprintf("edit list entry %d", i), *p.EditList[i], t.Elst[i])
		}
	}
	if t.Codec == ref.AVC1 {
		want := mp4.AVCDecConfigInfo{ConfigurationVersion: t.Video.Conf, Profile: t.Video.Profile, ProfileCompatibility: t.Video.Compat, Level: t.Video.Level,
			LengthSize: uint16(t.Video.LengthSize), Width: t.Video.W, Height: t.Video.H}
		if p.AVC == nil {
			fail("video configuration", nil, want)
		}
		if *p.AVC != want {
			fail("video configuration", *p.AVC, want)
		}
	} else if t.Codec != ref.ENCV && p.AVC != nil {
		fail("video configuration", *p.AVC, nil)
	}
	if t.Codec == ref.MP4A || t.Codec == ref.ENCA || t.Codec == ref.MP4AWave {
		var oti, aot byte
		if !t.Audio.NoConfig {
			oti = t.Audio.OTI
			if oti == 0x40 {
				aot, _, _ = ref.AAC(t.Audio.ASC)
			}
		}
		want := mp4.MP4AInfo{OTI: oti, AudOTI: aot, ChannelCount: t.Audio.Channels}
		if p.MP4A == nil {
			fail("audio configuration", nil, want)
		}
		if *p.MP4A != want {
			fail(fmt.Sprintf("audio configuration of %x", t.Audio.ASC), *p.MP4A, want)
		}
	} else if p.MP4A != nil {
		fail("audio configuration", *p.MP4A, nil)
	}
	if len(p.Chunks) != len(t.Chunks) {
		fail("number of chunks", len(p.Chunks), len(t.Chunks))
	}
	for i, c := range p.Chunks {
		if c.DataOffset != t.Chunks[i] || c.SamplesPerChunk != t.PerChunk(i) {
			fail(fmt.Sprintf("chunk %d", i), *c, []interface{}{t.Chunks[i], t.PerChunk(i)})
		}
	}
	ss := t.Samples()
	if len(p.Samples) != len(ss) {
		fail("number of samples", len(p.Samples), len(ss))
	}
	for i, s := range p.Samples {
		if s.Size != ss[i].Size || s.TimeDelta != ss[i].Delta || s.CompositionTimeOffset != ss[i].Off {
			fail(fmt.Sprintf("sample %d", i), *s, ss[i])
		}
	}
}

func checkSegment(p *mp4.Segment, f *ref.Frag, off uint64, fail func(string, interface{}, interface{})) {
	want := mp4.Segment{TrackID: f.TrackID, MoofOffset: off}
	defDur, defSize := uint32(0), uint32(0)
	if f.HasDur {
		defDur = f.DefDur
	}
	if f.HasSize {
		defSize = f.DefSize
	}
	want.DefaultSampleDuration = defDur
	if f.Tfdt > 0 {
		want.BaseMediaDecodeTime = f.Base
	}
	at, first := int64(0), true
	for _, run := range f.Runs() {
		want.SampleCount += uint32(run.N)
		for i := 0; i < run.N; i++ {
			d, s, c := defDur, defSize, int64(0)
			if run.TrunFlags&0x100 != 0 {
				d = run.Dur[i]
			}
			if run.TrunFlags&0x200 != 0 {
				s = run.Size[i]
			}
			if run.TrunFlags&0x800 != 0 {
				c = run.Cts[i]
			}
			if o := int32(at + c); first || o < want.CompositionTimeOffset {
				want.CompositionTimeOffset = o
			}
			first = false
			at += int64(d)
			want.Duration += d
			want.Size += s
		}
	}
	if *p != want {
		fail(fmt.Sprintf("fragment at %d", off), fmt.Sprintf("%+v", *p), fmt.Sprintf("%+v", want))
	}
}

// ---- C15

var u32s = []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304}
var u64s = []uint64{1, 0xffffffff, 1 << 32, 0x0102030405060708, 1<<63 - 1, 1<<64 - 1}

// vary changes one thing about a movie per deviation.
func varyMovie(x *mc.X, m *ref.Movie) {
	if c := x.Dev(5, "brands"); c > 0 {
		m.Brands = [][]string{nil, {"mp42"}, {"qt  ", "qt  "}, {"abcd", "iso6", "iso6", "\x00\x01\x02\xff"}}[c-1]
	}
	if c := x.Dev(4, "minor"); c > 0 {
		m.Minor = u32s[c]
	}
	if c := x.Dev(7, "timescale"); c > 0 {
		m.Timescale = u32s[c-1]
	}
	if c := x.Dev(13, "movie duration"); c > 0 {
		if c <= 6 {
			m.Duration = uint64(u32s[c-1])
		} else {
			m.MvhdV1, m.Duration = true, u64s[c-7]
		}
	}
	if x.Dev(2, "no mvhd") == 1 {
		m.NoMvhd = true
	}
	if c := x.Dev(5, "order"); c > 0 {
		m.Order = c
	}
	if c := x.Dev(2, "moov form"); c > 0 {
		m.MoovForm = c
	}
	if c := x.Dev(2, "mdat form"); c > 0 {
		m.MdatForm = c
	}
	if x.Dev(2, "extra") == 1 {
		m.Extra = true
	}
	if c := x.Dev(3, "mdat length"); c > 0 {
		m.MdatLen = []int{0, 5000}[c-1]
	}
}

func varyTrack(x *mc.X, t *ref.Track) {
	if c := x.Dev(6, "id"); c > 0 {
		t.ID = u32s[c-1]
	}
	if x.Dev(2, "tkhd v1") == 1 {
		t.TkhdV1 = true
	}
	if c := x.Dev(7, "track timescale"); c > 0 {
		t.Timescale = u32s[c-1]
	}
	if c := x.Dev(13, "track duration"); c > 0 {
		if c <= 6 {
			t.Duration = uint64(u32s[c-1])
		} else {
			t.MdhdV1, t.Duration = true, u64s[c-7]
		}
	}
	if c := x.Dev(ref.NumCodecs+1, "codec"); c > 0 {
		t.Codec = c - 1
	}
	if c := x.Dev(8, "missing"); c > 0 {
		*[]*bool{&t.NoTkhd, &t.NoMdhd, &t.NoChunks, &t.NoStts, &t.NoStsc, &t.NoStsz, &t.HasElst}[c-1] = true
	}
	if c := x.Dev(11, "edits"); c > 0 {
		t.HasElst = true
		t.Elst = [][]ref.Edit{{}, {{0, 0}}, {{1000, -1}, {5000, 1024}}, {{0xffffffff, math.MinInt32}}, {{1, math.MaxInt32}, {2, 3}, {4, 5}},
			{{1 << 32, 1 << 32}}, {{1<<64 - 1, -1}}, {{5, math.MinInt64}, {7, math.MaxInt64}}, {{0, 0}}, {{0x80000000, -2}}}[c-1]
		t.ElstV1 = c >= 6 && c <= 9
	}
	if c := x.Dev(15, "video"); c > 0 {
		t.Codec = ref.AVC1
		t.Video = []ref.Video{{0, 0, 0, 66, 0, 0, 1}, {0xffff, 0x8000, 1, 77, 0xff, 0xff, 2}, {1920, 1080, 1, 100, 0, 40, 3}, {1, 2, 3, 110, 4, 5, 4}, {7680, 4320, 1, 122, 8, 62, 4},
			{16, 16, 1, 144, 0, 10, 1}, {16, 32, 1, 88, 1, 11, 2}, {2, 1, 1, 66, 0xe0, 0x1f, 4}, {320, 180, 1, 0, 0, 30, 4}, {320, 180, 1, 255, 0, 30, 4}, {256, 512, 0xff, 66, 1, 2, 3},
			{320, 180, 1, 244, 0, 30, 4}, {320, 180, 1, 118, 0, 30, 4}, {320, 180, 1, 44, 0, 30, 4}}[c-1]
	}
	if c := x.Dev(7, "audio"); c > 0 {
		if t.Codec != ref.ENCA && t.Codec != ref.MP4AWave {
			t.Codec = ref.MP4A
		}
		switch c {
		case 1:
			t.Audio.Channels = 0xffff
		case 2:
			t.Audio.Channels = 0
		case 3:
			t.Audio.OTI = 0x6b
		case 4:
			t.Audio.NoConfig = true
		case 5:
			t.Audio.NoASC = true
		case 6:
			t.Audio.VarLen = 1
		}
	}
	if c := x.Dev(7, "chunks"); c > 0 {
		t.Chunks = [][]uint64{{}, {0}, {0xffffffff, 0}, {1 << 32, 1<<64 - 1, 5}, {7, 8, 9, 10, 11}, {1 << 63}}[c-1]
		t.Co64 = c == 4 || c == 6
	}
	if x.Dev(2, "co64") == 1 {
		t.Co64 = true
	}
	if c := x.Dev(7, "stsc"); c > 0 {
		t.Stsc = [][]ref.SC{{}, {{1, 1}}, {{1, 3}, {2, 1}, {3, 2}}, {{1, 0xffffffff}}, {{2, 5}}, {{1, 2}, {3, 4}}}[c-1]
	}
	if c := x.Dev(7, "stts"); c > 0 {
		t.Stts = [][]ref.Run{{}, {{0, 5}}, {{1, 0xffffffff}, {0, 3}, {2, 0}}, {{300, 1}}, {{1, 1}, {1, 2}, {1, 3}, {1, 4}}, {{2, 0x80000000}}}[c-1]
	}
	if c := x.Dev(8, "ctts"); c > 0 {
		t.Ctts = [][]ref.CT{{}, {{3, -1}}, {{1, math.MinInt32}, {1, math.MaxInt32}}, {{1, 0xffffffff}, {9, 0x80000000}}, {{0, 9}, {5, 7}}, {{1, 1}}, {}}[c-1]
		t.CttsV1 = c == 2 || c == 3
		t.HasCtts = c != 7
	}
	if c := x.Dev(7, "sizes"); c > 0 {
		switch {
		case c <= 4:
			t.Stsz = [][]uint32{{}, {0xffffffff, 0}, {1, 2, 3, 4, 5}, {0x80000000}}[c-1]
		case c == 5:
			t.StszConst, t.StszCount = 77, 3
		case c == 6:
			t.StszConst, t.StszCount = 0xffffffff, 2
		}
	}
	if c := x.Dev(6, "order of tables"); c > 0 {
		t.StblOrder = c
	}
}

func c15(tier string) []*mc.Unit {
	field := func(x *mc.X) {
		m := plainMovie()
		varyMovie(x, m)
		n := []int{1, 0, 2, 3}[x.Dev(4, "tracks")]
		for i := 0; i < n; i++ {
			t := plainTrack(uint32(i + 1))
			t.Codec = []int{ref.AVC1, ref.MP4A, ref.NoEntry}[i]
			varyTrack(x, t)
			m.Tracks = append(m.Tracks, t)
		}
		describeMovie(x, m)
		checkProbe(x, m)
	}
	// the sample tables against each other
	tables := func(x *mc.X) {
		m := plainMovie()
		t := plainTrack(1)
		t.HasCtts = false
		n := x.Choose(4, "chunks")
		t.Chunks = nil
		for i := 0; i < n; i++ {
			t.Chunks = append(t.Chunks, uint64(100*i+i*i))
		}
		k := x.Choose(depth(tier, 3, 4), "stsc")
		t.Stsc = nil
		first := uint32(1)
		for i := 0; i < k; i++ {
			t.Stsc = append(t.Stsc, ref.SC{First: first, Per: uint32(1 + x.Choose(2, "per"))})
			first += uint32(1 + x.Choose(2, "next"))
		}
		t.Stts = nil
		for i := x.Choose(depth(tier, 3, 4), "stts"); i > 0; i-- {
			t.Stts = append(t.Stts, ref.Run{N: uint32(x.Choose(3, "n")), Delta: uint32(10 + i)})
		}
		if x.Choose(2, "has ctts") == 1 {
			t.HasCtts = true
			t.Ctts = nil
			for i := x.Choose(depth(tier, 3, 4), "ctts"); i > 0; i-- {
				t.Ctts = append(t.Ctts, ref.CT{N: uint32(x.Choose(3, "n")), Off: int64(5 * i)})
			}
		}
		t.Stsz = nil
		if c := x.Choose(6, "sizes"); c < 5 {
			for i := 0; i < c; i++ {
				t.Stsz = append(t.Stsz, uint32(i+1))
			}
		} else {
			t.StszConst, t.StszCount = 9, uint32(x.Choose(4, "count"))
		}
		m.Tracks = []*ref.Track{t}
		describeMovie(x, m)
		checkProbe(x, m)
	}
	missing := func(x *mc.X) {
		m := plainMovie()
		n := 1 + x.Choose(2, "tracks")
		for i := 0; i < n; i++ {
			t := plainTrack(uint32(i + 5))
			t.Codec = x.Choose(ref.NumCodecs, "codec")
			b := x.Choose(64, "missing")
			t.NoTkhd, t.NoMdhd, t.NoChunks, t.NoStts, t.NoStsc, t.NoStsz = b&1 != 0, b&2 != 0, b&4 != 0, b&8 != 0, b&16 != 0, b&32 != 0
			m.Tracks = append(m.Tracks, t)
		}
		describeMovie(x, m)
		checkProbe(x, m)
	}
	codecs := func(x *mc.X) { // every byte value of the configuration bytes
		m := plainMovie()
		t := plainTrack(1)
		t.Codec = x.Choose(ref.NumCodecs, "codec")
		v := byte(x.Choose(256, "value"))
		switch x.Choose(9, "field") {
		case 0:
			t.Video.Profile = v
		case 1:
			t.Video.Level = v
		case 2:
			t.Video.Compat = v
		case 3:
			t.Video.Conf = v
		case 4:
			t.Video.LengthSize = 1 + int(v)%4
		case 5:
			t.Video.W, t.Video.H = uint16(v)<<8|uint16(^v), uint16(v)
		case 6:
			t.Audio.Channels = uint16(v)<<8 | uint16(^v)
		case 7:
			t.Audio.OTI = v
		case 8:
			t.Audio.ASC[0] = v
		}
		m.Brands = []string{"qt  ", []string{"qt  ", "isom"}[x.Choose(2, "qt")]}
		m.Tracks = []*ref.Track{t}
		describeMovie(x, m)
		checkProbe(x, m)
	}
	edits := func(x *mc.X) { // every edit list of a few entries
		m := plainMovie()
		t := plainTrack(1)
		m.Tracks = []*ref.Track{t}
		t.HasElst, t.ElstV1 = true, x.Choose(2, "version") == 1
		for i := x.Choose(depth(tier, 4, 5), "entries"); i > 0; i-- {
			e := ref.Edit{Duration: []uint64{0, 1, 1000, 0xffffffff}[x.Choose(4, "duration")], Time: []int64{-1, 0, 1, math.MaxInt32, math.MinInt32, -2}[x.Choose(6, "time")]}
			if t.ElstV1 && e.Time == -2 {
				e = ref.Edit{Duration: e.Duration << 32, Time: -1 << 32}
			}
			t.Elst = append(t.Elst, e)
		}
		describeMovie(x, m)
		checkProbe(x, m)
	}
	far := func(x *mc.X) { // the movie box somewhere far into the file
		m := plainMovie()
		m.Order = x.Choose(5, "order")
		m.Front = distances[x.Choose(len(distances), "distance")]
		for i := x.Choose(3, "tracks"); i > 0; i-- {
			t := plainTrack(uint32(i))
			t.Codec = x.Choose(ref.NumCodecs, "codec")
			t.Co64 = true
			for k := range t.Chunks {
				t.Chunks[k] += m.Front
			}
			m.Tracks = append(m.Tracks, t)
		}
		describeMovie(x, m)
		checkProbe(x, m)
	}
	large := func(x *mc.X) { // long tables and lists
		big := []int{255, 256, 1000, 1024, 1025, 4097, 65536, 70000}
		m := plainMovie()
		t := plainTrack(1)
		m.Tracks = []*ref.Track{t}
		n := big[x.Choose(len(big), "n")]
		u := uint32(n)
		switch x.Choose(12, "what") {
		case 0: // one run
			t.Stts, t.Stsz = []ref.Run{{N: u, Delta: 3}}, nil
		case 1: // a run per sample
			t.Stts, t.Stsz, t.Ctts = nil, nil, nil
			for i := 0; i < n; i++ {
				t.Stts = append(t.Stts, ref.Run{N: 1, Delta: uint32(i * 3)})
				t.Stsz = append(t.Stsz, uint32(i+1))
				t.Ctts = append(t.Ctts, ref.CT{N: 1, Off: int64(7 * i)})
			}
		case 2: // runs of different lengths
			t.Stts, t.Stsz, t.Ctts = nil, nil, nil
			for i, k := 0, 1; i < n; i, k = i+k, k*2 {
				t.Stts = append(t.Stts, ref.Run{N: uint32(k), Delta: uint32(k)})
				t.Ctts = append(t.Ctts, ref.CT{N: uint32(k + 1), Off: int64(k)})
			}
			for i := 0; i < n; i++ {
				t.Stsz = append(t.Stsz, uint32(i^5))
			}
		case 3:
			t.Stts, t.StszConst, t.StszCount = []ref.Run{{N: u, Delta: 3}}, 9, u
		case 4: // many chunks
			t.Chunks, t.Stsc = nil, nil
			for i := 0; i < n; i++ {
				t.Chunks = append(t.Chunks, uint64(i)*1000+1)
				if n <= 4097 || i%64 == 0 {
					t.Stsc = append(t.Stsc, ref.SC{First: uint32(i + 1), Per: uint32(1 + i%3)})
				}
			}
		case 5: // many chunks in one run
			t.Chunks = nil
			for i := 0; i < n; i++ {
				t.Chunks = append(t.Chunks, uint64(i)*70000+1)
			}
			t.Stsc, t.Co64 = []ref.SC{{First: 1, Per: u}}, true
		case 6:
			t.HasElst = true
			for i := 0; i < n; i++ {
				t.Elst = append(t.Elst, ref.Edit{Duration: uint64(i), Time: int64(i * 2)})
			}
		case 7:
			for i := 0; i < n; i++ {
				m.Brands = append(m.Brands, fmt.Sprintf("%04d", i%10000))
			}
		case 8:
			m.MdatLen = n
			m.Order = x.Choose(4, "order")
		case 9: // many tracks
			if n > 1025 {
				x.Skip()
			}
			for i := 1; i < n; i++ {
				c := plainTrack(uint32(i + 1))
				c.Codec = []int{ref.AVC1, ref.MP4A, ref.ENCV, ref.NoEntry}[i%4]
				c.Duration = uint64(i)
				m.Tracks = append(m.Tracks, c)
			}
		case 10: // composition offsets of one run, samples of many
			t.Stts, t.Stsz, t.Ctts = nil, nil, []ref.CT{{N: u, Off: 5}}
			for i := 0; i < n; i++ {
				t.Stts = append(t.Stts, ref.Run{N: uint32(i % 2), Delta: uint32(i)})
			}
			t.NoStsz = true
		case 11: // a long configuration
			if n > 1025 {
				x.Skip()
			}
			t.Codec = ref.MP4A
			t.Audio.ASC = append([]byte{0x12, 0x10}, make([]byte, n)...)
		}
		x.Describe("%d", n)
		checkProbe(x, m)
	}
	return []*mc.Unit{
		{Name: "large", Body: large},
		{Name: "fields", Bound: depth(tier, 2, 3), Weight: 4, Body: field},
		{Name: "tables", Weight: 3, Body: tables},
		{Name: "missing-tables", Weight: 1, Body: missing},
		{Name: "codecs", Weight: 1, Body: codecs},
		{Name: "edits", Weight: 1, Body: edits},
		{Name: "far", Body: far},
	}
}

// distances are sizes of media data around the powers of two at which positions overflow.
var distances = []uint64{1<<31 - 17, 1<<31 - 16, 1 << 31, 1<<32 - 200, 1<<32 - 17, 1<<32 - 16, 1<<32 - 1, 1 << 32, 5 << 30, 1 << 33, 1 << 40, 1<<53 + 1, 1 << 62}

func describeMovie(x *mc.X, m *ref.Movie) {
	if !x.Tracing() {
		return
	}
	x.Describe("movie %+v", *m)
	for _, t := range m.Tracks {
		x.Describe("track %+v", *t)
	}
	for _, f := range m.Frags {
		x.Describe("fragment %+v", *f)
	}
}

// ---- C16

func fragVals(x *mc.X, f *ref.Frag, vals []uint32) {
	for i := 0; i < f.N; i++ {
		f.Dur = append(f.Dur, vals[i%len(vals)])
		f.Size = append(f.Size, uint32(100*(i+1)))
		f.Cts = append(f.Cts, 0)
	}
}

func c16(tier string) []*mc.Unit {
	flags := func(x *mc.X) { // every combination of flags
		m := plainMovie()
		m.Order = []int{0, 4}[x.Choose(2, "moov")]
		f := &ref.Frag{TrackID: 3, DefDur: 512, DefSize: 99, Base: 12345, Mdat: []byte{1, 2, 3}}
		f.HasDur = x.Choose(2, "default duration") == 1
		f.HasSize = x.Choose(2, "default size") == 1
		f.MoreTfhd = []uint32{0, 1, 2, 0x20, 0x23}[x.Choose(5, "more")]
		f.Tfdt = x.Choose(3, "tfdt")
		if x.Choose(2, "trun") == 1 {
			f.HasTrun = true
			f.N = x.Choose(4, "samples")
			for _, b := range []uint32{1, 4, 0x100, 0x200, 0x400, 0x800} {
				if x.Choose(2, "flag") == 1 {
					f.TrunFlags |= b
				}
			}
			f.TrunV1 = x.Choose(2, "version") == 1
			fragVals(x, f, []uint32{1024, 1000, 24})
			for i := range f.Cts {
				f.Cts[i] = int64([]int{2048, 0, 512}[i%3])
				if f.TrunV1 {
					f.Cts[i] -= 1024
				}
			}
		}
		m.Frags = []*ref.Frag{f}
		describeMovie(x, m)
		checkProbe(x, m)
	}
	values := func(x *mc.X) { // per-sample values
		m := plainMovie()
		m.Order = 4
		f := &ref.Frag{TrackID: u32s[x.Dev(6, "id")], DefDur: 7, HasDur: true, HasSize: true, DefSize: 5, HasTrun: true, TrunFlags: 0xb00}
		f.TrunFlags = []uint32{0xb00, 0xa00, 0x900, 0x800, 0x300}[x.Choose(5, "flags")]
		f.TrunV1 = x.Choose(2, "version") == 1
		f.N = x.Choose(depth(tier, 4, 5), "samples")
		for i := 0; i < f.N; i++ {
			f.Dur = append(f.Dur, []uint32{10, 0, 1000}[x.Choose(3, "duration")])
			f.Size = append(f.Size, []uint32{3, 0, 0x10000000}[x.Dev(3, "size")])
			c := []int64{0, 20, 5}[x.Choose(3, "cts")]
			if f.TrunV1 && c > 0 {
				c = -c
			}
			if x.Dev(2, "large cts") == 1 {
				c = 0x7ffff000
				if f.TrunV1 {
					c = -0x7fffffff
				}
			}
			f.Cts = append(f.Cts, c)
		}
		if c := x.Dev(8, "default duration"); c > 0 {
			f.DefDur = []uint32{0, 1, 0x10000000, 0x0fffffff, 512, 1024, 3}[c-1]
		}
		if c := x.Dev(5, "default size"); c > 0 {
			f.DefSize = []uint32{0, 1, 0x10000000, 0x0fffffff}[c-1]
		}
		if c := x.Dev(13, "base"); c > 0 {
			if c <= 6 {
				f.Tfdt, f.Base = 1, uint64(u32s[c-1])
			} else {
				f.Tfdt, f.Base = 2, u64s[c-7]
			}
		}
		m.Frags = []*ref.Frag{f}
		describeMovie(x, m)
		checkProbe(x, m)
	}
	runs := func(x *mc.X) { // several runs of different kinds in a fragment
		m := plainMovie()
		m.Order = 4
		f := &ref.Frag{TrackID: 5, DefDur: 7, DefSize: 9, Tfdt: 1, Base: 70}
		f.HasDur = x.Choose(2, "default duration") == 1
		f.HasSize = x.Choose(2, "default size") == 1
		n := 1 + x.Choose(depth(tier, 3, 4), "runs")
		for k := 0; k < n; k++ {
			g := &ref.Frag{N: x.Choose(3, "samples")}
			g.TrunFlags = []uint32{0, 0xb00, 0x100, 0x200, 0x801, 0xf05}[x.Choose(6, "flags")]
			g.TrunV1 = x.Choose(2, "version") == 1
			for i := 0; i < g.N; i++ {
				g.Dur = append(g.Dur, uint32(10+k+3*i))
				g.Size = append(g.Size, uint32(100*k+i))
				c := int64(60 - 35*k)
				if c < 0 && !g.TrunV1 {
					c = 0
				}
				g.Cts = append(g.Cts, c)
			}
			f.More = append(f.More, g)
		}
		m.Frags = []*ref.Frag{f}
		if x.Choose(2, "another") == 1 {
			m.Frags = append(m.Frags, &ref.Frag{TrackID: 6, HasTrun: true, N: 1, TrunFlags: 0x300, Dur: []uint32{2}, Size: []uint32{3}})
		}
		describeMovie(x, m)
		checkProbe(x, m)
	}
	several := func(x *mc.X) { // fragments in a row, also broken ones
		m := plainMovie()
		m.Order = []int{2, 4, 0}[x.Choose(3, "moov")]
		if x.Choose(2, "track") == 1 {
			t := plainTrack(2)
			t.Chunks, t.Stts, t.Stsc, t.Stsz, t.HasCtts = nil, nil, nil, nil, false
			m.Tracks = []*ref.Track{t}
		}
		n := 1 + x.Choose(depth(tier, 3, 3), "fragments")
		for i := 0; i < n; i++ {
			f := &ref.Frag{TrackID: uint32(1 + x.Choose(2, "id")), Base: uint64(i * 1000), Tfdt: 1, Mdat: make([]byte, x.Choose(2, "mdat")*9), HasDur: true, DefDur: uint32(100 + i)}
			switch x.Choose(depth(tier, 5, 7), "sort") {
			case 1:
				f.HasTrun, f.N, f.TrunFlags = true, 2, 0x301
			case 2:
				f.HasTrun, f.N, f.TrunFlags, f.HasSize, f.DefSize = true, 3, 0, true, 40
			case 3:
				f.NoTfhd = true
			case 4:
				f.HasTrun, f.N, f.TrunFlags, f.HasDur = true, 1, 0x800, false
			case 5:
				f.Form = ref.Large
				f.Tfdt = 2
				f.Base = 1<<40 + uint64(i)
			case 6:
				f.HasTrun, f.N, f.TrunFlags, f.TrunV1 = true, 3, 0xf05, true
			}
			fragVals(x, f, []uint32{11, 22, 33})
			for j := range f.Cts {
				f.Cts[j] = int64(30 - 10*j)
			}
			m.Frags = append(m.Frags, f)
		}
		describeMovie(x, m)
		checkProbe(x, m)
	}
	large := func(x *mc.X) { // many fragments, runs and samples
		n := []int{64, 255, 256, 257, 1000, 1024, 1025, 4097, 65536, 70000}[x.Choose(10, "n")]
		m := plainMovie()
		m.Order = []int{0, 4, 2}[x.Choose(3, "moov")]
		samples := func(f *ref.Frag, n int) {
			f.HasTrun, f.N, f.TrunFlags = true, n, []uint32{0xb00, 0x100, 0x200, 0x800, 0}[x.Choose(5, "flags")]
			f.HasDur, f.DefDur, f.HasSize, f.DefSize = true, 11, true, 13
			f.TrunV1 = x.Choose(2, "version") == 1
			for i := 0; i < n; i++ {
				f.Dur = append(f.Dur, uint32(1000+i%7))
				f.Size = append(f.Size, uint32(i&0xfff+1))
				c := int64(3000)
				if i == n-1 && f.TrunV1 {
					c = -int64(2000 * n) // the earliest is the last
				}
				f.Cts = append(f.Cts, c)
			}
		}
		switch x.Choose(4, "what") {
		case 0: // samples of a run
			f := &ref.Frag{TrackID: 7, Tfdt: 2, Base: 99}
			samples(f, n)
			m.Frags = []*ref.Frag{f, {TrackID: 8, Tfdt: 1, Base: 5}}
		case 1: // runs
			if n > 4097 {
				x.Skip()
			}
			f := &ref.Frag{TrackID: 7, HasDur: true, DefDur: 3, HasSize: true, DefSize: 4}
			for i := 0; i < n; i++ {
				f.More = append(f.More, &ref.Frag{N: 1 + i%2, TrunFlags: []uint32{0, 0x300}[i/2%2], Dur: []uint32{10, 20}, Size: []uint32{uint32(i), 9}})
			}
			m.Frags = []*ref.Frag{f}
		case 2: // fragments
			if n > 4097 {
				x.Skip()
			}
			for i := 0; i < n; i++ {
				f := &ref.Frag{TrackID: uint32(1 + i%3), Tfdt: 2, Base: uint64(i) << 25, HasDur: true, DefDur: uint32(i)}
				if i < 3 || i > n-3 {
					f.HasTrun, f.N, f.TrunFlags, f.Dur, f.Size = true, 1, 0x300, []uint32{5}, []uint32{uint32(n)}
				}
				m.Frags = append(m.Frags, f)
			}
		case 3: // media data in between
			for i := 0; i < 3; i++ {
				m.Frags = append(m.Frags, &ref.Frag{TrackID: uint32(i + 1), Tfdt: 1, Base: 5, Mdat: make([]byte, n*i)})
			}
		}
		x.Describe("%d", n)
		checkProbe(x, m)
	}
	far := func(x *mc.X) { // fragments far into the file
		m := plainMovie()
		m.Order = x.Choose(5, "moov")
		d := append([]uint64{0}, distances...)
		m.Front = d[x.Choose(len(d), "front")]
		m.Gap = d[x.Choose(len(d), "gap")]
		if m.Front+m.Gap > 3<<61 {
			x.Skip()
		}
		for i := 1 + x.Choose(2, "fragments"); i > 0; i-- {
			m.Frags = append(m.Frags, &ref.Frag{TrackID: uint32(i), Tfdt: i, Base: m.Gap & 0xffffffff, HasTrun: true, N: 1, TrunFlags: 0x300, Dur: []uint32{2}, Size: []uint32{3}, Mdat: []byte{1, 2, 3}})
		}
		describeMovie(x, m)
		checkProbe(x, m)
	}
	return []*mc.Unit{
		{Name: "large", Body: large},
		{Name: "far", Body: far},
		{Name: "flags", Body: flags},
		{Name: "values", Bound: depth(tier, 1, 2), Weight: 2, Body: values},
		{Name: "runs", Weight: 1, Body: runs},
		{Name: "several", Weight: 2, Body: several},
	}
}

// ---- C17

// nal is a unit of a sample: its type byte and payload length (excluding the type byte).
type nal struct {
	head  byte
	extra int
	empty bool
}

func c17(tier string) []*mc.Unit {
	run := func(x *mc.X, r io.ReadSeeker, t *mp4.Track, want []int, exact bool) {
		got, err := mp4.FindIDRFrames(r, t)
		x.Outcome(fmt.Sprint(got), err != nil)
		for i := 1; i < len(got); i++ {
			if got[i] <= got[i-1] {
				x.Fail("idr:order", "result %v is not increasing", got)
			}
		}
		for _, g := range got {
			if g < 0 || g >= len(t.Samples) {
				x.Fail("idr:range", "result %v with %d samples", got, len(t.Samples))
			}
		}
		if !exact {
			return
		}
		if err != nil {
			x.Fail("idr:error", "unexpected error %v", err)
		}
		if len(got) != len(want) || len(got) > 0 && fmt.Sprint(got) != fmt.Sprint(want) {
			x.Fail("idr:result", "key frames are %v, reported %v", want, got)
		}
	}
	layout := func(x *mc.X, samples [][]byte, per []int, offs []int64) (*vfile, *mp4.Track) {
		f := newVfile(nil)
		t := &mp4.Track{}
		si := 0
		for ci, n := range per {
			t.Chunks = append(t.Chunks, &mp4.Chunk{DataOffset: uint64(offs[ci]), SamplesPerChunk: uint32(n)})
			f.Seek(offs[ci], io.SeekStart)
			for i := 0; i < n && si < len(samples); i++ {
				f.Write(samples[si])
				si++
			}
			f.Write([]byte{0, 0, 0, 1, 0x65, 0x65, 0x65, 0x65}) // a key frame that belongs to nobody
		}
		for _, s := range samples {
			t.Samples = append(t.Samples, &mp4.Sample{Size: uint32(len(s))})
		}
		f.Seek(1, io.SeekStart)
		return f, t
	}
	emit := func(ls int, ns []nal) (b []byte, idr bool) {
		for _, n := range ns {
			l := n.extra + 1
			if n.empty {
				l = 0
			}
			for i := ls - 1; i >= 0; i-- {
				b = append(b, byte(l>>(8*uint(i))))
			}
			if n.empty {
				continue
			}
			b = append(b, n.head)
			for i := 0; i < n.extra; i++ {
				b = append(b, 0x65) // looks like the head of a key frame
			}
			if n.head&0x1f == 5 {
				idr = true
			}
		}
		return
	}
	unitTypes := func(x *mc.X) { // every unit header byte, alone, before and after others
		ls := 1 + x.Choose(4, "length size")
		n := nal{head: byte(x.Choose(256, "header")), extra: x.Choose(3, "extra")}
		var l []nal
		switch x.Choose(4, "place") {
		case 0:
			l = []nal{n}
		case 1:
			l = []nal{{0x09, 1, false}, n}
		case 2:
			l = []nal{n, {0x41, 2, false}}
		case 3:
			l = []nal{n, {0x65, 1, false}}
		}
		b, idr := emit(ls, l)
		a, _ := emit(ls, []nal{{0x41, 1, false}})
		samples, want := [][]byte{a, b, a}, []int(nil)
		if idr {
			want = []int{1}
		}
		f, t := layout(x, samples, []int{1, 2}, []int64{40, 0})
		t.AVC = &mp4.AVCDecConfigInfo{LengthSize: uint16(ls)}
		x.Describe("samples %x, length size %d", samples, ls)
		x.State(b, ls)
		run(x, f, t, want, true)
	}
	wellFormed := func(x *mc.X) {
		ls := 1 + x.Choose(4, "length size")
		kinds := []nal{{0x41, 2, false}, {0x65, 1, false}, {0x06, 4, false}, {0x25, 0, false}, {0x01, 0, false}, {0, 0, true}, {0xe5, 3, false}, {0x85, 5, false}, {0x0a, 4, false}}
		ns := x.Choose(4, "samples")
		var samples [][]byte
		var want []int
		desc := ""
		maxN := depth(tier, 2, 3)
		for i := 0; i < ns; i++ {
			k := x.Choose(maxN+1, "units")
			if i == 2 && k > 1 {
				x.Skip()
			}
			var l []nal
			for j := 0; j < k; j++ {
				c := x.Choose(depth(tier, 7, 9), "unit")
				l = append(l, kinds[c])
			}
			b, idr := emit(ls, l)
			samples = append(samples, b)
			desc += fmt.Sprintf(" %x", b)
			if idr {
				want = append(want, i)
			}
		}
		// all ways to put the samples into chunks
		var per []int
		left := ns
		for left > 0 {
			n := 1 + x.Choose(left, "per chunk")
			per = append(per, n)
			left -= n
		}
		reach := ns
		switch x.Dev(4, "chunks") {
		case 1: // one chunk too few
			if len(per) > 0 {
				reach -= per[len(per)-1]
				per = per[:len(per)-1]
			}
		case 2:
			per = append(per, 2)
		case 3:
			per = append([]int{0}, per...)
		}
		var w []int
		for _, i := range want {
			if i < reach {
				w = append(w, i)
			}
		}
		base := []int64{100, 1<<32 - 3, 1 << 40, 0}[x.Dev(4, "offset")]
		back := x.Dev(2, "chunks in reverse") == 1
		var offs []int64
		for i := range per {
			o := base + int64(i)*300
			if back {
				o = base + int64(len(per)-i)*300
			}
			offs = append(offs, o)
		}
		f, t := layout(x, samples, per, offs)
		t.AVC = &mp4.AVCDecConfigInfo{LengthSize: uint16(ls)}
		x.Describe("length size %d, samples%s, per chunk %v at %v", ls, desc, per, offs)
		x.State(ls, desc, fmt.Sprint(per), fmt.Sprint(offs))
		run(x, f, t, w, true)
	}
	corrupt := func(x *mc.X) {
		ls := 1 + x.Choose(4, "length size")
		n := 1 + x.Choose(depth(tier, 6, 7), "bytes")
		b := make([]byte, n)
		alpha := []byte{0, 1, 5, 0xff}
		for i := range b {
			b[i] = alpha[x.Choose(4, "byte")]
		}
		// declared size: as is, larger than the data, or huge
		t := &mp4.Track{AVC: &mp4.AVCDecConfigInfo{LengthSize: uint16(ls)}, Chunks: mp4.Chunks{{DataOffset: 0, SamplesPerChunk: 2}}}
		size := []uint32{uint32(n), uint32(n + 3), 0x7fffffff, 0xffffffff}[x.Choose(4, "size")]
		t.Samples = mp4.Samples{{Size: size}, {Size: 2}}
		x.State(ls, b, size)
		x.Describe("length size %d data %x sample size %d", ls, b, size)
		// follow the units as far as there are data
		var want []int
		at, missing := uint64(0), false
		for i, s := range t.Samples {
			for o := uint64(0); o+uint64(ls)+1 <= uint64(s.Size) && !missing; {
				p := at + o
				if p+uint64(ls)+1 > uint64(n) {
					missing = true
					break
				}
				l := uint64(0)
				for _, c := range b[p : p+uint64(ls)] {
					l = l<<8 | uint64(c)
				}
				if l > 0 && b[p+uint64(ls)]&0x1f == 5 {
					want = append(want, i)
					break
				}
				o += uint64(ls) + l
			}
			at += uint64(s.Size)
		}
		if missing {
			if got, err := mp4.FindIDRFrames(bytes.NewReader(b), t); err == nil {
				x.Fail("idr:truncated", "the data end inside of a sample, but %v was reported without an error", got)
			}
		}
		run(x, &stepReader{Reader: bytes.NewReader(b), x: x, limit: 10000}, t, want, !missing)
	}
	wrap := func(x *mc.X) { // lengths that wrap in 32 bits, chunk offsets that wrap in 64
		lens := []uint32{0xffffffff, 0xfffffffe, 0xfffffffb, 0xfffffffc, 0xfffffff0, 0x80000000, 0x7fffffff, 0, 1}
		l1 := lens[x.Choose(len(lens), "first")]
		l2 := lens[x.Choose(len(lens), "second")]
		b := ref.W{}.U32(1).U8(0x41).U32(l1).U8(0x41).U32(l2).U8(0x41).Zero(40)
		off := []uint64{0, 1, 1 << 63, 1<<64 - 1, 1<<64 - 5, 1<<63 - 1}[x.Choose(6, "offset")]
		size := []uint32{15, 30, 55, 0xffffffff, 0x7fffffff}[x.Choose(5, "size")]
		per := []uint32{1, 2, 0xffffffff, 0}[x.Choose(4, "per")]
		t := &mp4.Track{AVC: &mp4.AVCDecConfigInfo{LengthSize: 4}, Chunks: mp4.Chunks{{DataOffset: off, SamplesPerChunk: per}, {DataOffset: off, SamplesPerChunk: 1}}}
		t.Samples = mp4.Samples{{Size: size}, {Size: size}, {Size: 5}}
		x.State(l1, l2, off, size, per)
		x.Describe("lengths %#x %#x chunk at %#x sample size %#x, %d per chunk", l1, l2, off, size, per)
		run(x, &stepReader{Reader: bytes.NewReader(b), x: x, limit: 10000}, t, nil, false)
	}
	other := func(x *mc.X) {
		t := &mp4.Track{Codec: mp4.Codec(x.Choose(3, "codec")), MP4A: &mp4.MP4AInfo{}, Chunks: mp4.Chunks{{DataOffset: 8, SamplesPerChunk: 3}}, Samples: mp4.Samples{{Size: 14}, {Size: 10}, {Size: 12}}}
		x.State(int(t.Codec))
		run(x, bytes.NewReader(idrData()), t, nil, true)
	}
	throughProbe := func(x *mc.X) { // the track description comes from a file
		ls := 1 + x.Choose(4, "length size")
		m := plainMovie()
		m.Order = 1
		t := plainTrack(1)
		t.Codec = []int{ref.AVC1, ref.ENCV, ref.MP4A, ref.AVC1Bare}[x.Choose(4, "codec")]
		t.Video.LengthSize = ls
		mask := x.Choose(16, "key frames")
		var all []byte
		var want []int
		t.Stsz = nil
		for i := 0; i < 4; i++ {
			l := []nal{{0x09, 1, false}, {0x41, 3, false}}
			if mask>>uint(i)&1 == 1 {
				l[1].head = 0x65
				want = append(want, i)
			}
			b, _ := emit(ls, l)
			t.Stsz = append(t.Stsz, uint32(len(b)))
			all = append(all, b...)
		}
		t.Stts = []ref.Run{{N: 4, Delta: 10}}
		t.HasCtts = false
		t.Co64 = x.Choose(2, "co64") == 1
		base := uint64(len(m.Layout()[0].Bytes()) + 8)
		one := uint64(t.Stsz[0])
		switch x.Choose(4, "chunks") {
		case 0:
			t.Chunks, t.Stsc = []uint64{base}, []ref.SC{{First: 1, Per: 4}}
		case 1:
			t.Chunks, t.Stsc = []uint64{base, base + one, base + 2*one, base + 3*one}, []ref.SC{{First: 1, Per: 1}}
		case 2:
			t.Chunks, t.Stsc = []uint64{base, base + one, base + 3*one}, []ref.SC{{First: 1, Per: 1}, {First: 2, Per: 2}, {First: 3, Per: 1}}
		case 3:
			t.Chunks, t.Stsc = []uint64{base, base + 2*one}, []ref.SC{{First: 1, Per: 2}}
		}
		if x.Choose(2, "constant size") == 1 {
			t.StszConst, t.StszCount = t.Stsz[0], 4
		}
		m.Tracks = []*ref.Track{t}
		boxes := m.Layout()
		boxes[1].Fields = all
		data := ref.Cat(boxes...)
		x.State(data)
		p, err := mp4.Probe(bytes.NewReader(data))
		if err != nil {
			x.Fail("idr:probe", "probe: %v", err)
		}
		if t.Codec != ref.AVC1 {
			want = nil
		}
		run(x, bytes.NewReader(data), p.Tracks[0], want, true)
	}
	// large units, of which only the length and the type are in the file
	large := func(x *mc.X) {
		ls := 1 + x.Choose(4, "length size")
		sizes := []int64{1, 255, 256, 4096, 65535, 65536, 70000, 1 << 20, 1<<24 - 1, 1 << 24, 1<<31 - 16, 1 << 31, 1<<32 - 64}
		f := newVfile(nil)
		t := &mp4.Track{AVC: &mp4.AVCDecConfigInfo{LengthSize: uint16(ls)}}
		n := x.Choose(3, "units")
		at := int64(1000)
		start := at
		var want []int
		desc := ""
		put := func(l int64, head byte) {
			if l >= 1<<uint(8*ls) {
				x.Skip()
			}
			var b []byte
			for i := ls - 1; i >= 0; i-- {
				b = append(b, byte(l>>(8*uint(i))))
			}
			f.Seek(at, io.SeekStart)
			f.Write(append(b, head))
			at += int64(ls) + l
			desc += fmt.Sprintf(" %d of %#x", l, head)
			if head&0x1f == 5 {
				want = []int{1}
			}
		}
		for i := 0; i < n; i++ {
			put(sizes[x.Choose(len(sizes), "length")], 0x41)
		}
		put(sizes[x.Choose(3, "last")], []byte{0x65, 0x41, 0x05}[x.Choose(3, "type")])
		if at-start > math.MaxUint32 {
			x.Skip()
		}
		f.Seek(at, io.SeekStart)
		f.Write([]byte{0, 0, 0, 0, 0, 0x65, 0x65})
		t.Samples = mp4.Samples{{Size: 0}, {Size: uint32(at - start)}, {Size: 0}}
		t.Chunks = mp4.Chunks{{DataOffset: uint64(start), SamplesPerChunk: 3}}
		if x.Choose(2, "chunks") == 1 {
			t.Chunks = mp4.Chunks{{DataOffset: 5, SamplesPerChunk: 1}, {DataOffset: uint64(start), SamplesPerChunk: 1}, {DataOffset: 0, SamplesPerChunk: 1}}
		}
		f.Seek(1, io.SeekStart)
		x.Describe("length size %d, units%s", ls, desc)
		x.State(ls, desc, len(t.Chunks))
		run(x, f, t, want, true)
	}
	// many samples, or samples of many units
	many := func(x *mc.X) {
		n := []int{100, 255, 256, 257, 1000, 1024, 1025, 4097, 65536, 70000}[x.Choose(10, "n")]
		ls := 1 + x.Choose(4, "length size")
		t := &mp4.Track{AVC: &mp4.AVCDecConfigInfo{LengthSize: uint16(ls)}}
		other, _ := emit(ls, []nal{{0x41, 1, false}})
		key, _ := emit(ls, []nal{{0x65, 1, false}})
		var data []byte
		var want []int
		switch x.Choose(3, "what") {
		case 0: // units of a sample; the last one counts
			for i := 0; i < n; i++ {
				data = append(data, other...)
			}
			if x.Choose(2, "key") == 1 {
				data = append(data, key...)
				want = []int{0}
			}
			t.Samples = mp4.Samples{{Size: uint32(len(data))}, {Size: uint32(len(other))}}
			data = append(data, other...)
			t.Chunks = mp4.Chunks{{DataOffset: 0, SamplesPerChunk: 2}}
		default:
			per := []int{1, 3, 64, n}[x.Choose(4, "per chunk")]
			each := []int{1, 7, 250, n - 1}[x.Choose(4, "key frame each")]
			for i := 0; i < n; i++ {
				if i%per == 0 {
					data = append(data, 0xee) // apart
					t.Chunks = append(t.Chunks, &mp4.Chunk{DataOffset: uint64(len(data)), SamplesPerChunk: uint32(per)})
				}
				b := other
				if i%each == 0 {
					b = key
					want = append(want, i)
				}
				data = append(data, b...)
				t.Samples = append(t.Samples, &mp4.Sample{Size: uint32(len(b))})
			}
		}
		x.State(n, ls, data)
		x.Describe("%d, length size %d, %d samples in %d chunks", n, ls, len(t.Samples), len(t.Chunks))
		run(x, bytes.NewReader(data), t, want, true)
	}
	return []*mc.Unit{
		{Name: "large", Body: large},
		{Name: "many", Body: many},
		{Name: "unit-types", Body: unitTypes},
		{Name: "well-formed", Bound: depth(tier, 1, 2), Weight: 3, Body: wellFormed},
		{Name: "corrupt", Body: corrupt},
		{Name: "wrapping", Body: wrap},
		{Name: "other-codecs", Body: other},
		{Name: "from-files", Body: throughProbe},
	}
}

// ---- C18

// rate is 8*size*timescale/duration, or false when it does not fit.
func rate(size uint64, ts uint32, dur uint64) (uint64, bool) {
	hi, lo := bits.Mul64(size, uint64(ts))
	if hi != 0 || lo >= 1<<61 {
		return 0, false
	}
	if dur == 0 {
		return 0, true
	}
	return lo * 8 / dur, true
}

func c18(tier string) []*mc.Unit {
	tss := []uint32{0, 1, 1000, 90000, 0xffffffff}
	avg := func(x *mc.X) {
		n := x.Choose(depth(tier, 5, 6), "samples")
		ts := tss[x.Choose(len(tss), "timescale")]
		var l mp4.Samples
		var size, dur uint64
		for i := 0; i < n; i++ {
			s := &mp4.Sample{Size: []uint32{0, 7, 1000, 0xffffffff}[x.Choose(4, "size")], TimeDelta: []uint32{0, 10, 0xffffffff}[x.Choose(3, "delta")]}
			l = append(l, s)
			size += uint64(s.Size)
			dur += uint64(s.TimeDelta)
		}
		x.State(ts, fmt.Sprint(n, size, dur))
		got := l.GetBitrate(ts)
		x.Outcome(got)
		if want, ok := rate(size, ts, dur); ok && got != want {
			x.Fail("bitrate:samples", "%d bytes in %d/%d: %d, reported %d", size, dur, ts, want, got)
		}
	}
	uniform := func(x *mc.X) {
		n := x.Choose(depth(tier, 8, 9), "samples")
		delta := []uint32{10, 0, 1, 0xffffffff}[x.Choose(4, "delta")]
		ts := []uint32{100, 1}[x.Choose(2, "timescale")]
		var l mp4.Samples
		for i := 0; i < n; i++ {
			l = append(l, &mp4.Sample{Size: []uint32{1, 100, 30}[x.Choose(3, "size")], TimeDelta: delta})
		}
		d := uint64(delta)
		wins := []uint64{0, 1, d - 1, d, d + 1, 2 * d, 2*d + 1, 3 * d, 4*d - 1, 5 * d, 6 * d, 7 * d, 100 * d, math.MaxUint64}
		win := wins[x.Choose(len(wins), "window")]
		x.State(delta, ts, win, fmt.Sprint(sizesOf(l)))
		x.Describe("sizes %v delta %d timescale %d window %d", sizesOf(l), delta, ts, win)
		got := l.GetMaxBitrate(ts, win)
		x.Outcome(got)
		if win == 0 || n == 0 {
			if n == 0 && got != 0 {
				x.Fail("bitrate:max", "no samples, reported %d", got)
			}
			return
		}
		k := n
		if d > 0 {
			if c := (win-1)/d + 1; c < uint64(n) {
				k = int(c)
			}
		}
		want := uint64(0)
		for i := 0; i+k <= n; i++ {
			s := uint64(0)
			for _, e := range l[i : i+k] {
				s += uint64(e.Size)
			}
			r, ok := rate(s, ts, d*uint64(k))
			if !ok {
				x.Skip()
			}
			if r > want {
				want = r
			}
		}
		if got != want {
			x.Fail("bitrate:max", "largest bitrate of %d samples is %d, reported %d", k, want, got)
		}
	}
	mixed := func(x *mc.X) { // any durations: a value is returned, and it is that of some run when there is one run only
		n := x.Choose(6, "samples")
		var l mp4.Samples
		var size, dur uint64
		for i := 0; i < n; i++ {
			s := &mp4.Sample{Size: []uint32{0, 9, 0xffffffff}[x.Choose(3, "size")], TimeDelta: []uint32{0, 1, 10, 0xffffffff}[x.Choose(4, "delta")]}
			l = append(l, s)
			size += uint64(s.Size)
			dur += uint64(s.TimeDelta)
		}
		win := []uint64{0, 1, 2, 10, 11, 21, 0xffffffff, 0x1ffffffff, math.MaxUint64}[x.Choose(9, "window")]
		ts := []uint32{0, 1000, 0xffffffff}[x.Choose(3, "timescale")]
		x.State(ts, win, fmt.Sprint(sizesOf(l)))
		got := l.GetMaxBitrate(ts, win)
		x.Outcome(got)
		if want, ok := rate(size, ts, dur); ok && win > dur && got != want {
			x.Fail("bitrate:max:short", "the list is shorter than the window: %d, reported %d", want, got)
		}
	}
	segs := func(x *mc.X) {
		n := x.Choose(depth(tier, 5, 6), "fragments")
		ts := []uint32{0, 1000, 0xffffffff}[x.Choose(3, "timescale")]
		id := []uint32{1, 2, 3, 0, 0xffffffff}[x.Choose(5, "track")]
		var l mp4.Segments
		var size, dur, max uint64
		over := false
		for i := 0; i < n; i++ {
			s := &mp4.Segment{TrackID: []uint32{1, 2, 0, 0xffffffff}[x.Choose(4, "id")], Size: []uint32{0, 700, 0xffffffff}[x.Choose(3, "size")], Duration: []uint32{0, 10, 3}[x.Choose(3, "duration")]}
			l = append(l, s)
			if s.TrackID == id {
				size += uint64(s.Size)
				dur += uint64(s.Duration)
				r, ok := rate(uint64(s.Size), ts, uint64(s.Duration))
				over = over || !ok
				if r > max {
					max = r
				}
			}
		}
		x.State(ts, id, fmt.Sprint(n, size, dur, max))
		got, gmax := l.GetBitrate(id, ts), l.GetMaxBitrate(id, ts)
		x.Outcome(got, gmax)
		if want, ok := rate(size, ts, dur); ok && got != want {
			x.Fail("bitrate:fragments", "%d bytes in %d/%d: %d, reported %d", size, dur, ts, want, got)
		}
		if !over && gmax != max {
			x.Fail("bitrate:fragments:max", "largest is %d, reported %d", max, gmax)
		}
	}
	many := func(x *mc.X) { // long lists
		n := []int{64, 100, 255, 256, 1000, 1024, 1025, 4097, 70000}[x.Choose(9, "n")]
		ts := []uint32{1, 90000}[x.Choose(2, "timescale")]
		d := []uint32{1, 3003, 0x7fffffff}[x.Choose(3, "duration")]
		peak := []int{0, n / 2, n - 1}[x.Choose(3, "peak")]
		size := func(i int) uint32 {
			if i == peak {
				return 0x7fffffff
			}
			return uint32(i%5 + 1)
		}
		x.State(n, ts, d, peak)
		x.Describe("%d, timescale %d, durations %d, largest at %d", n, ts, d, peak)
		var ss mp4.Samples
		var fs mp4.Segments
		total := uint64(0)
		for i := 0; i < n; i++ {
			ss = append(ss, &mp4.Sample{Size: size(i), TimeDelta: d})
			fs = append(fs, &mp4.Segment{TrackID: 9, Size: size(i), Duration: d}, &mp4.Segment{TrackID: 8, Size: 5, Duration: 1})
			total += uint64(size(i))
		}
		want, ok := rate(total, ts, uint64(n)*uint64(d))
		if got := ss.GetBitrate(ts); ok && got != want {
			x.Fail("bitrate:samples", "%d samples: %d, reported %d", n, want, got)
		}
		if got := fs.GetBitrate(9, ts); ok && got != want {
			x.Fail("bitrate:fragments", "%d fragments: %d, reported %d", n, want, got)
		}
		top, ok := rate(0x7fffffff, ts, uint64(d))
		if got := fs.GetMaxBitrate(9, ts); ok && got != top {
			x.Fail("bitrate:fragments:max", "largest of %d is %d, reported %d", n, top, got)
		}
		k := []int{1, 2, 50, n}[x.Choose(4, "window")]
		most, sum := uint64(0), uint64(0)
		for i := 0; i < n; i++ {
			sum += uint64(size(i))
			if i >= k {
				sum -= uint64(size(i - k))
			}
			if i >= k-1 && sum > most {
				most = sum
			}
		}
		top, ok = rate(most, ts, uint64(k)*uint64(d))
		got := ss.GetMaxBitrate(ts, uint64(k)*uint64(d))
		x.Outcome(got)
		if ok && got != top {
			x.Fail("bitrate:max", "largest of %d samples out of %d is %d, reported %d", k, n, top, got)
		}
	}
	return []*mc.Unit{
		{Name: "many", Body: many},
		{Name: "average", Body: avg},
		{Name: "maximum", Weight: 2, Body: uniform},
		{Name: "any-durations", Body: mixed},
		{Name: "fragments", Body: segs},
	}
}

func sizesOf(l mp4.Samples) (out []uint64) {
	for _, s := range l {
		out = append(out, uint64(s.Size)<<32|uint64(s.TimeDelta))
	}
	return out
}

// ---- C19

// bitString packs fields.
type bitString struct {
	b []byte
	n int
}

func (s *bitString) put(v uint32, n int) {
	for i := n - 1; i >= 0; i-- {
		if s.n%8 == 0 {
			s.b = append(s.b, 0)
		}
		s.b[s.n/8] |= byte(v>>uint(i)&1) << (7 - uint(s.n%8))
		s.n++
	}
}

func c19(tier string) []*mc.Unit {
	check := func(x *mc.X, a ref.Audio, codec int) {
		m := &ref.Movie{Timescale: 1, Order: 2}
		t := &ref.Track{ID: 1, Codec: codec, Audio: a, Video: ref.Video{LengthSize: 1}}
		m.Tracks = []*ref.Track{t}
		x.Describe("object type %#x, audio configuration %x (present %v)", a.OTI, a.ASC, !a.NoASC && !a.NoConfig)
		if a.OTI == 0x40 && !a.NoASC && !a.NoConfig {
			aot, ok, _ := ref.AAC(a.ASC)
			x.Outcome(aot, ok)
		}
		checkProbe(x, m)
	}
	short := func(x *mc.X) { // every configuration of up to 2 bytes
		n := x.Choose(3, "length")
		asc := make([]byte, n)
		for i := range asc {
			asc[i] = byte(x.Choose(256, "byte"))
		}
		check(x, ref.Audio{Channels: 2, OTI: 0x40, ASC: asc}, ref.MP4A)
	}
	built := func(x *mc.X) { // every path through the syntax, cut or extended at the end
		s := &bitString{}
		aots := []uint32{2, 1, 5, 29, 22, 0, 30, 31}
		a := aots[x.Dev(len(aots), "object type")]
		s.put(a, 5)
		if a == 31 {
			s.put([]uint32{0, 1, 10, 63, 34}[x.Dev(5, "escape")], 6)
		}
		f := []uint32{4, 0, 15, 14}[x.Dev(4, "frequency")]
		s.put(f, 4)
		if f == 15 {
			s.put([]uint32{48000, 0xffffff, 0x56e500}[x.Dev(3, "explicit")], 24)
		}
		s.put([]uint32{2, 0, 15}[x.Dev(3, "channels")], 4)
		// GASpecificConfig: absent, short, or with a core coder delay
		switch x.Choose(4, "specific") {
		case 1:
			s.put(0, 3)
		case 2:
			s.put(7, 3)
		case 3:
			s.put(2, 3)
			s.put(0x1234, 14)
		}
		if c := x.Choose(5, "sync"); c > 0 {
			s.put([]uint32{0x2b7, 0x2b6, 0x548, 0x7ff}[c-1], 11)
			e := []uint32{5, 22, 2, 31, 0, 29}[x.Dev(6, "extension type")]
			s.put(e, 5)
			if e == 31 {
				s.put([]uint32{5, 0}[x.Dev(2, "escape")], 6)
			}
			s.put(uint32(x.Choose(2, "sbr")), 1)
			f := []uint32{3, 15}[x.Dev(2, "extension frequency")]
			s.put(f, 4)
			if f == 15 {
				s.put(0xabcdef, 24)
			}
			if c := x.Choose(4, "second sync"); c > 0 {
				s.put([]uint32{0x548, 0x549, 0x2b7}[c-1], 11)
				s.put(uint32(x.Choose(2, "ps")), 1)
			}
		}
		asc := s.b
		switch c := x.Dev(6, "end"); c {
		case 0:
		case 1, 2, 3:
			if len(asc) < c {
				x.Skip()
			}
			asc = asc[:len(asc)-c]
		case 4:
			asc = append(asc, 0)
		case 5:
			asc = append(asc, 0xff, 0xff, 0xff)
		}
		check(x, ref.Audio{Channels: 1, OTI: 0x40, ASC: asc}, ref.MP4A)
	}
	align := func(x *mc.X) { // every alignment of the extension, so that every part of it also ends the configuration
		s := &bitString{}
		s.put(2, 5)
		s.put(4, 4)
		s.put(2, 4)
		s.put(0, x.Choose(depth(tier, 28, 36), "specific"))
		s.put(0x2b7, 11)
		switch x.Choose(3, "extension type") {
		case 0:
			s.put(5, 5)
		case 1:
			s.put(22, 5)
		case 2:
			s.put(31, 5)
			s.put(uint32(x.Choose(2, "escape")), 6)
		}
		s.put(uint32(x.Choose(2, "sbr")), 1)
		if x.Choose(2, "extension frequency") == 0 {
			s.put(3, 4)
		} else {
			s.put(15, 4)
			s.put(0x2b7548, 24)
		}
		s.put(0, x.Choose(3, "gap"))
		if c := x.Choose(3, "second sync"); c > 0 {
			s.put([]uint32{0x548, 0x549}[c-1], 11)
			s.put(uint32(x.Choose(2, "ps")), 1)
		}
		asc := s.b
		if c := x.Choose(4, "end"); c < 3 {
			asc = asc[:len(asc)-c]
		} else {
			asc = append(asc, 0x55)
		}
		check(x, ref.Audio{Channels: 1, OTI: 0x40, ASC: asc}, ref.MP4A)
	}
	others := func(x *mc.X) {
		codec := []int{ref.MP4A, ref.ENCA, ref.MP4AWave, ref.MP4ABare}[x.Choose(4, "codec")]
		a := ref.Audio{Channels: uint16(x.Choose(3, "channels")), OTI: byte(x.Choose(256, "object type")), ASC: []byte{0x12, 0x10}}
		switch x.Choose(6, "descriptors") {
		case 1:
			a.NoASC = true
		case 2:
			a.NoConfig = true
		case 3:
			a.ASC = nil
		case 4:
			a.ASC = []byte{0x12}
		case 5:
			a.ASC = []byte{0x13, 0x88, 0x56, 0xe5, 0xa5, 0x48, 0x80}
		}
		a.VarLen = 1 + x.Choose(4, "length of sizes")
		check(x, a, codec)
	}
	around := func(x *mc.X) { // other descriptors around that of the configuration
		codec := []int{ref.MP4A, ref.ENCA, ref.MP4AWave}[x.Choose(3, "codec")]
		a := ref.Audio{Channels: 2, OTI: []byte{0x40, 0x6b}[x.Choose(2, "object type")], ASC: [][]byte{{0x12, 0x10}, {0x13, 0x88, 0x56, 0xe5, 0xa0}, {0x12, 0x08, 0x56, 0xe5, 0xa5, 0x48, 0x80}}[x.Choose(3, "configuration")]}
		a.VarLen = 1 + 3*x.Choose(2, "length of sizes")
		for place := 0; place < 2; place++ {
			for i := x.Choose(2+place, "descriptors"); i > 0; i-- {
				d := ref.Descr([]byte{0x06, 0x7f, 0x05}[x.Choose(2+place, "tag")], a.VarLen, [][]byte{{}, {2}, {0x2b, 0x92, 8, 0, 0}}[x.Choose(3, "data")])
				a.More[place] = append(a.More[place], d...)
			}
		}
		x.Describe("around it: %x", a.More)
		check(x, a, codec)
	}
	tail := func(x *mc.X) { // every value of each byte pair of full signalling
		asc := append([]byte{}, [][]byte{{0x13, 0x88, 0x56, 0xe5, 0xa5, 0x48, 0x80}, {0x10, 0x02, 0xb7, 0x2f, 0xc0, 0, 0, 0x2a, 0x44}, {0x13, 0x90, 0x56, 0xe5, 0xa0}}[x.Choose(3, "base")]...)
		i := x.Choose(len(asc), "byte")
		asc[i] = byte(x.Choose(256, "value"))
		if x.Choose(2, "second") == 1 {
			j := x.Choose(len(asc), "byte")
			if j <= i {
				x.Skip()
			}
			asc[j] ^= 1 << uint(x.Choose(8, "bit"))
		}
		asc = asc[:len(asc)-x.Choose(3, "cut")]
		check(x, ref.Audio{Channels: 6, OTI: 0x40, ASC: asc}, ref.ENCA)
	}
	return []*mc.Unit{
		{Name: "short", Body: short},
		{Name: "syntax", Weight: 2, Bound: depth(tier, 3, 12), Body: built},
		{Name: "alignment", Weight: 1, Body: align},
		{Name: "descriptors", Body: others},
		{Name: "around", Body: around},
		{Name: "bytes", Body: tail},
	}
}
