//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"

	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
	"gopkg.in/yaml.v2"
)

// film is a file to probe: a movie, and the media data of its tracks.
type film struct {
	*ref.Movie
	media map[*ref.Track][][]byte // the samples of the tracks that have any, one chunk per track
	idr   map[*ref.Track]int
}

// boxes builds the file.
func (f *film) boxes() []*ref.Box {
	var data []byte
	rel := map[*ref.Track]int{}
	for _, t := range f.Tracks {
		rel[t] = len(data)
		for _, s := range f.media[t] {
			data = append(data, s...)
		}
	}
	set := func(base int) []*ref.Box {
		for _, t := range f.Tracks {
			if f.media[t] != nil {
				at := uint64(base + rel[t])
				n := len(t.Chunks)
				t.Chunks = nil
				for i := 0; i < n; i++ {
					t.Chunks = append(t.Chunks, at)
					for k := 0; k < int(t.PerChunk(i)) && len(f.media[t]) > 0; k++ {
						j := i*int(t.PerChunk(i)) + k
						if j < len(f.media[t]) {
							at += uint64(len(f.media[t][j]))
						}
					}
				}
			}
		}
		bs := f.Layout()
		for _, b := range bs[:len(bs)-2*len(f.Frags)] {
			if b.Type == "mdat" {
				b.Fields = data
			}
		}
		return bs
	}
	// the sizes do not depend on the offsets
	at := 0
	for _, b := range set(0) {
		if b.Type == "mdat" {
			at += len(b.Bytes()) - len(data)
			break
		}
		at += len(b.Bytes())
	}
	return set(at)
}

type wantTrack struct {
	id, ts   uint32
	dur      uint64
	codec    []string
	enc      bool
	w, h     uint16
	samples  int
	chunks   int
	idr      int
	rate     uint64
	max      uint64
	rateOpen bool
	maxOpen  bool
	open     bool // dimensions and key frames
}

func (f *film) track(t *ref.Track) (w wantTrack) {
	w = wantTrack{id: t.ID, ts: t.Timescale, dur: t.Duration, chunks: len(t.Chunks)}
	avc := fmt.Sprintf("avc1.%02X%02X%02X", t.Video.Profile, t.Video.Compat, t.Video.Level)
	aac := func() string {
		if t.Audio.NoConfig || t.Audio.OTI == 0 {
			return "mp4a"
		}
		if t.Audio.OTI == 0x40 {
			if aot, _, _ := ref.AAC(t.Audio.ASC); aot != 0 {
				return fmt.Sprintf("mp4a.40.%d", aot)
			}
		}
		return fmt.Sprintf("mp4a.%X", t.Audio.OTI)
	}
	switch t.Codec {
	case ref.AVC1:
		w.codec, w.w, w.h, w.idr = []string{avc}, t.Video.W, t.Video.H, f.idr[t]
	case ref.AVC1Bare:
		w.codec = []string{"avc1"}
	case ref.ENCV:
		w.codec, w.enc, w.open = []string{"avc1", avc}, true, true
	case ref.MP4A, ref.MP4AWave:
		w.codec = []string{aac()}
	case ref.ENCA:
		w.codec, w.enc = []string{aac()}, true
	case ref.MP4ABare:
		w.codec = []string{"mp4a"}
	default:
		w.codec = []string{"unknown"}
	}
	ss := t.Samples()
	w.samples = len(ss)
	var size, dur uint64
	uniform := true
	for _, s := range ss {
		size += uint64(s.Size)
		dur += uint64(s.Delta)
		uniform = uniform && s.Delta == ss[0].Delta
	}
	div := func(size, dur uint64) uint64 {
		if dur == 0 {
			return 0
		}
		return 8 * size * uint64(t.Timescale) / dur
	}
	w.rate = div(size, dur)
	if n := len(ss); n > 0 && uniform && t.Timescale > 0 {
		k, d := n, uint64(ss[0].Delta)
		if d > 0 && (uint64(t.Timescale)-1)/d+1 < uint64(n) {
			k = int((uint64(t.Timescale)-1)/d + 1)
		}
		for i := 0; i+k <= n; i++ {
			sum := uint64(0)
			for _, s := range ss[i : i+k] {
				sum += uint64(s.Size)
			}
			if r := div(sum, d*uint64(k)); r > w.max {
				w.max = r
			}
		}
	} else if n > 0 && t.Timescale > 0 {
		w.maxOpen = true
		w.rateOpen = w.rate != 0 // the fragments may be taken instead when the largest is 0
		for _, s := range ss {
			if div(uint64(s.Size), uint64(s.Delta)) == 0 {
				return
			}
		}
		w.rateOpen = false
		return
	}
	if w.rate != 0 && w.max != 0 {
		return
	}
	w.rate, w.max = 0, 0
	size, dur = 0, 0
	for _, g := range f.Frags {
		if g.TrackID != t.ID {
			continue
		}
		var fs, fd uint64
		for _, run := range g.Runs() {
			for i := 0; i < run.N; i++ {
				switch {
				case run.TrunFlags&0x100 != 0:
					fd += uint64(run.Dur[i])
				case g.HasDur:
					fd += uint64(g.DefDur)
				}
				switch {
				case run.TrunFlags&0x200 != 0:
					fs += uint64(run.Size[i])
				case g.HasSize:
					fs += uint64(g.DefSize)
				}
			}
		}
		size += fs
		dur += fd
		if r := div(fs, fd); r > w.max {
			w.max = r
		}
	}
	w.rate = div(size, dur)
	return
}

type jsonTrack struct {
	TrackID         uint32
	Timescale       uint32
	Duration        uint64
	DurationSeconds float64
	Codec           string
	Encrypted       bool
	Width           uint16
	Height          uint16
	SampleNum       int
	ChunkNum        int
	IDRFrameNum     int
	Bitrate         uint64
	MaxBitrate      uint64
}

type jsonReport struct {
	MajorBrand       string
	MinorVersion     uint32
	CompatibleBrands []string
	FastStart        bool
	Timescale        uint32
	Duration         uint64
	DurationSeconds  float64
	Tracks           []jsonTrack
}

type yamlTrack struct {
	TrackID         uint32  `yaml:"track_id"`
	Timescale       uint32  `yaml:"timescale"`
	Duration        uint64  `yaml:"duration"`
	DurationSeconds float64 `yaml:"duration_seconds"`
	Codec           string  `yaml:"codec"`
	Encrypted       bool    `yaml:"encrypted"`
	Width           uint16  `yaml:"width"`
	Height          uint16  `yaml:"height"`
	SampleNum       int     `yaml:"sample_num"`
	ChunkNum        int     `yaml:"chunk_num"`
	IDRFrameNum     int     `yaml:"idr_frame_num"`
	Bitrate         uint64  `yaml:"bitrate"`
	MaxBitrate      uint64  `yaml:"max_bitrate"`
}

type yamlReport struct {
	MajorBrand       string      `yaml:"major_brand"`
	MinorVersion     uint32      `yaml:"minor_version"`
	CompatibleBrands []string    `yaml:"compatible_brands"`
	FastStart        bool        `yaml:"fast_start"`
	Timescale        uint32      `yaml:"timescale"`
	Duration         uint64      `yaml:"duration"`
	DurationSeconds  float64     `yaml:"duration_seconds"`
	Tracks           []yamlTrack `yaml:"tracks"`
}

// mandatory tells whether the track has everything that may not be missing.
func mandatory(t *ref.Track) bool {
	return !t.NoTkhd && !t.NoMdhd && !t.NoChunks && !t.NoStts && !t.NoStsc
}

func seconds(dur uint64, ts uint32) float64 { return float64(dur) / float64(ts) }

func sameSeconds(got, want float64) bool {
	if math.IsNaN(want) || math.IsInf(want, 0) {
		return true
	}
	return math.Abs(got-want) <= 1e-6*math.Abs(want)+1e-9
}

func checkReport(x *mc.X, f *film) {
	format := []string{"", "yaml"}[x.Choose(2, "format")]
	s := newSandbox(x, "probe")
	defer s.close()
	data := ref.Cat(f.boxes()...)
	s.write("in.mp4", data)
	args := []string{"probe"}
	if format != "" {
		args = append(args, "-format", format)
	}
	r := s.run(append(args, "in.mp4")...)
	x.State(data, format)
	x.Outcome(string(r.out), r.code)
	bad, open := "", false
	tracks := f.Tracks
	if f.Order == 4 {
		tracks = nil
	}
	zero := f.Timescale == 0 || f.NoMvhd || f.Order == 4
	for _, t := range tracks {
		if !mandatory(t) {
			bad = "a track lacks a mandatory table"
		}
		if t.Codec >= ref.MP4A && t.Codec <= ref.MP4AWave && t.Codec != ref.MP4ABare && !t.Audio.NoConfig && t.Audio.OTI == 0x40 {
			if _, ok, unspec := ref.AAC(t.Audio.ASC); unspec {
				x.Skip()
			} else if !ok || t.Audio.NoASC {
				bad = "the audio configuration is too short"
			}
		}
		zero = zero || t.Timescale == 0
	}
	for _, g := range f.Frags {
		if g.NoTfhd {
			bad = "a fragment has no header"
		}
	}
	// seconds are undefined then, and cannot be written in JSON
	open = zero
	if r.code != 0 {
		if bad == "" && !open {
			x.Fail("probe:error", "exit %d: %s", r.code, clip(string(r.out)+r.errs))
		}
		s.failed(r, "")
		return
	}
	if bad != "" {
		x.Fail("probe:accepted", "exit status 0 although %s: %s", bad, clip(string(r.out)))
	}
	var rep jsonReport
	if format == "yaml" {
		var y yamlReport
		if err := yaml.UnmarshalStrict(r.out, &y); err != nil {
			x.Fail("probe:format", "not readable: %v: %s", err, clip(string(r.out)))
		}
		rep = jsonReport{y.MajorBrand, y.MinorVersion, y.CompatibleBrands, y.FastStart, y.Timescale, y.Duration, y.DurationSeconds, nil}
		for _, t := range y.Tracks {
			rep.Tracks = append(rep.Tracks, jsonTrack(t))
		}
	} else {
		d := json.NewDecoder(bytes.NewReader(r.out))
		d.DisallowUnknownFields()
		if err := d.Decode(&rep); err != nil {
			x.Fail("probe:format", "not readable: %v: %s", err, clip(string(r.out)))
		}
	}
	fail := func(what string, got, want interface{}) {
		x.Fail("probe:"+what, "%s is %v, reported %v: %s", what, want, got, clip(string(r.out)))
	}
	major, compat, minor := "\x00\x00\x00\x00", []string(nil), uint32(0)
	if f.Brands != nil {
		major, compat, minor = f.Brands[0], f.Brands[1:], f.Minor
	}
	if rep.MajorBrand != major || rep.MinorVersion != minor {
		fail("brand", []interface{}{rep.MajorBrand, rep.MinorVersion}, []interface{}{major, minor})
	}
	if fmt.Sprintf("%q", rep.CompatibleBrands) != fmt.Sprintf("%q", compat) {
		fail("brands", rep.CompatibleBrands, compat)
	}
	if rep.FastStart != (f.Order == 0 || f.Order == 2) {
		fail("fast start", rep.FastStart, !rep.FastStart)
	}
	ts, dur := f.Timescale, f.Duration
	if f.NoMvhd || f.Order == 4 {
		ts, dur = 0, 0
	}
	if rep.Timescale != ts || rep.Duration != dur || !sameSeconds(rep.DurationSeconds, seconds(dur, ts)) {
		fail("movie timing", []interface{}{rep.Timescale, rep.Duration, rep.DurationSeconds}, []interface{}{ts, dur, seconds(dur, ts)})
	}
	if len(rep.Tracks) != len(tracks) {
		fail("number of tracks", len(rep.Tracks), len(tracks))
	}
	for i, t := range tracks {
		w, g := f.track(t), rep.Tracks[i]
		if g.TrackID != w.id || g.Encrypted != w.enc {
			fail(fmt.Sprintf("track %d", i), g, w)
		}
		if g.Timescale != w.ts || g.Duration != w.dur || !sameSeconds(g.DurationSeconds, seconds(w.dur, w.ts)) {
			fail(fmt.Sprintf("timing of track %d", i), []interface{}{g.Timescale, g.Duration, g.DurationSeconds}, []interface{}{w.ts, w.dur, seconds(w.dur, w.ts)})
		}
		ok := false
		for _, c := range w.codec {
			ok = ok || c == g.Codec
		}
		if !ok {
			fail(fmt.Sprintf("codec of track %d", i), g.Codec, w.codec)
		}
		if !w.open && (g.Width != w.w || g.Height != w.h) {
			fail(fmt.Sprintf("dimensions of track %d", i), []uint16{g.Width, g.Height}, []uint16{w.w, w.h})
		}
		if g.SampleNum != w.samples || g.ChunkNum != w.chunks {
			fail(fmt.Sprintf("samples and chunks of track %d", i), []int{g.SampleNum, g.ChunkNum}, []int{w.samples, w.chunks})
		}
		if !w.open && g.IDRFrameNum != w.idr {
			fail(fmt.Sprintf("key frames of track %d", i), g.IDRFrameNum, w.idr)
		}
		if !w.rateOpen && g.Bitrate != w.rate {
			fail(fmt.Sprintf("bitrate of track %d", i), g.Bitrate, w.rate)
		}
		if !w.maxOpen && g.MaxBitrate != w.max {
			fail(fmt.Sprintf("largest bitrate of track %d", i), g.MaxBitrate, w.max)
		}
	}
}

// sampleData builds samples of a video track; 0: no key frame, 1: key frame, 2: key frame behind another unit, 3: empty,
// 4: something that only looks like a key frame, 5: two units of key frames
func sampleData(ls int, k int) (b []byte, idr bool) {
	unit := func(head byte, rest ...byte) {
		n := 1 + len(rest)
		for i := ls - 1; i >= 0; i-- {
			b = append(b, byte(n>>(8*uint(i))))
		}
		b = append(append(b, head), rest...)
	}
	switch k {
	case 0:
		unit(0x41, 1, 2, 3)
	case 1:
		unit(0x65, 9)
		idr = true
	case 2:
		unit(0x06, 5, 5, 5, 5)
		unit(0x25)
		idr = true
	case 3:
	case 4:
		unit(0x41, 0, 0, 0, 5, 0x65, 1, 2, 3, 4)
	case 5:
		unit(0x65, 1)
		unit(0x65, 2)
		idr = true
	}
	return
}

func plainFilm() *film {
	return &film{Movie: &ref.Movie{Brands: []string{"isom", "isom", "avc1"}, Minor: 512, Timescale: 1000, Duration: 5000}, media: map[*ref.Track][][]byte{}, idr: map[*ref.Track]int{}}
}

func plainVideo(id uint32) *ref.Track {
	return &ref.Track{ID: id, Timescale: 90000, Duration: 777, Codec: ref.AVC1,
		Video: ref.Video{W: 320, H: 180, Conf: 1, Profile: 77, Compat: 0x40, Level: 30, LengthSize: 4},
		Audio: ref.Audio{Channels: 2, OTI: 0x40, ASC: []byte{0x12, 0x10}}}
}

// samples gives the track samples, all in as many chunks as wanted.
func (f *film) samples(t *ref.Track, delta uint32, per int, ks ...int) {
	f.media[t], f.idr[t] = [][]byte{}, 0
	t.Stsz = nil
	for _, k := range ks {
		b, idr := sampleData(t.Video.LengthSize, k)
		f.media[t] = append(f.media[t], b)
		t.Stsz = append(t.Stsz, uint32(len(b)))
		if idr {
			f.idr[t]++
		}
	}
	t.Stts = []ref.Run{{N: uint32(len(ks)), Delta: delta}}
	t.Stsc = []ref.SC{{First: 1, Per: uint32(per)}}
	t.Chunks = make([]uint64, (len(ks)+per-1)/per)
}

func c32(tier string) []*mc.Unit {
	u32 := []uint32{1, 0, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304}
	u64 := []uint64{0, 1, 0xffffffff, 1 << 32, 0x0102030405060708, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	fields := func(x *mc.X) {
		f := plainFilm()
		if c := x.Dev(8, "brands"); c > 0 {
			f.Brands = [][]string{nil, {"mp42"}, {"abcd", "iso6", "iso6", "dash"}, {"1234", "0x12", "true", "null"}, {" no ", "1e3 ", "~   ", "a: b"}, {"\"'{}", "- a ", "#abc", "&a*b"}, {"<&>\\", "    ", "\t\n\r ", "1.50"}}[c-1]
		}
		if c := x.Dev(6, "minor"); c > 0 {
			f.Minor = u32[c]
		}
		if c := x.Dev(6, "timescale"); c > 0 {
			f.Timescale = u32[c]
		}
		if c := x.Dev(9, "duration"); c > 0 {
			f.Duration, f.MvhdV1 = u64[c-1], true
		}
		f.NoMvhd = x.Dev(2, "no mvhd") == 1
		f.Order = x.Dev(5, "order")
		f.Extra = x.Dev(2, "extra") == 1
		f.MdatForm, f.MoovForm = x.Dev(2, "mdat form"), x.Dev(2, "moov form")
		n := []int{2, 1, 0, 3}[x.Dev(4, "tracks")]
		for i := 0; i < n; i++ {
			t := plainVideo(uint32(i + 1))
			t.Codec = []int{ref.AVC1, ref.MP4A, ref.NoEntry}[i]
			f.Tracks = append(f.Tracks, t)
			if c := x.Dev(4, "length size"); c > 0 {
				t.Video.LengthSize = c
			}
			f.samples(t, 3000, 2, 1, 0, 2)
			if f.Order == 2 || f.Order == 4 { // no media data
				f.samples(t, 3000, 1)
				t.Stts = nil
			}
			if c := x.Dev(6, "id"); c > 0 {
				t.ID = u32[c]
			}
			if c := x.Dev(6, "track timescale"); c > 0 {
				t.Timescale = u32[c]
			}
			if c := x.Dev(9, "track duration"); c > 0 {
				t.Duration, t.MdhdV1 = u64[c-1], true
			}
			if c := x.Dev(ref.NumCodecs+1, "codec"); c > 0 {
				t.Codec = c - 1
			}
			if c := x.Dev(7, "missing"); c > 0 {
				*[]*bool{&t.NoTkhd, &t.NoMdhd, &t.NoChunks, &t.NoStts, &t.NoStsc, &t.Co64}[c-1] = true
			}
			if c := x.Dev(6, "video"); c > 0 {
				ls := t.Video.LengthSize
				t.Video = []ref.Video{{0, 0, 0, 66, 0, 0, 1}, {0xffff, 0x8000, 1, 77, 0xff, 0xff, 2}, {1920, 1080, 1, 100, 0, 40, 3}, {0, 7, 1, 10, 11, 12, 3}, {16, 0, 1, 244, 0, 9, 3}}[c-1]
				t.Video.LengthSize = ls
			}
			if c := x.Dev(9, "audio"); c > 0 {
				switch c {
				case 1:
					t.Audio.OTI = 0x6b
				case 2:
					t.Audio.OTI = 0
				case 3:
					t.Audio.NoConfig = true
				case 4:
					t.Audio.NoASC = true
				case 5:
					t.Audio.ASC = []byte{0x2b, 0x92, 0x08, 0x00}
				case 6:
					t.Audio.ASC = []byte{0x12, 0x08, 0x56, 0xe5, 0x00}
				case 7:
					t.Audio.ASC = []byte{0xf8, 0xe8, 0x50, 0x00}
				case 8:
					t.Audio.ASC = []byte{0x12, 0x08, 0x56, 0xe5, 0xa5, 0x48, 0x80}
				}
			}
			if c := x.Dev(4, "deltas"); c > 0 && len(t.Stts) > 0 {
				t.Stts[0].Delta = []uint32{0, 1, 100000}[c-1]
			}
		}
		checkReport(x, f)
	}
	frames := func(x *mc.X) {
		f := plainFilm()
		t := plainVideo(1)
		t.Video.LengthSize = []int{4, 2, 1}[x.Choose(3, "length size")]
		n := x.Choose(depth(tier, 4, 5), "samples")
		var ks []int
		for i := 0; i < n; i++ {
			ks = append(ks, x.Choose(6, "sample"))
		}
		f.Tracks = []*ref.Track{t}
		per := 1 + x.Choose(3, "per chunk")
		f.samples(t, 3000, per, ks...)
		f.Order = x.Choose(2, "order")
		x.Describe("samples %v, %d per chunk", ks, per)
		checkReport(x, f)
	}
	rates := func(x *mc.X) {
		f := plainFilm()
		f.Order = 2
		t := plainVideo(1)
		t.Codec = []int{ref.MP4A, ref.Hev1}[x.Choose(2, "codec")]
		t.Timescale = []uint32{100, 1, 1000}[x.Choose(3, "timescale")]
		delta := []uint32{40, 0, 100, 1000}[x.Choose(4, "delta")]
		n := x.Choose(depth(tier, 5, 6), "samples")
		for i := 0; i < n; i++ {
			t.Stsz = append(t.Stsz, []uint32{7, 0, 1000}[x.Choose(3, "size")])
		}
		t.Stts = []ref.Run{{N: uint32(n), Delta: delta}}
		f.Tracks = []*ref.Track{t}
		if x.Choose(2, "fragment") == 1 {
			f.Frags = append(f.Frags, &ref.Frag{TrackID: 1, HasDur: true, DefDur: 50, HasSize: true, DefSize: 10, HasTrun: true, N: 2})
		}
		x.Describe("timescale %d delta %d sizes %v", t.Timescale, delta, t.Stsz)
		checkReport(x, f)
	}
	fragments := func(x *mc.X) {
		f := plainFilm()
		f.Order = []int{2, 0}[x.Choose(2, "order")]
		for i := 0; i < 2; i++ {
			t := plainVideo(uint32(i + 1))
			t.Codec = []int{ref.AVC1, ref.ENCA}[i]
			t.Timescale = []uint32{1000, 48000}[i]
			f.Tracks = append(f.Tracks, t)
		}
		n := x.Choose(3, "fragments")
		for i := 0; i < n; i++ {
			g := &ref.Frag{TrackID: uint32(1 + x.Choose(3, "track")), Tfdt: 1, Base: 5, Mdat: []byte{1, 2}, HasDur: true, DefDur: 300, HasSize: true, DefSize: 55, HasTrun: true}
			more := x.Choose(5, "more")
			if more < 2 {
				g.N = x.Choose(3, "samples")
				g.Dur, g.Size, g.Cts = []uint32{100, 233}, []uint32{1000, 77}, []int64{0, 0}
				g.TrunFlags = []uint32{0x301, 0x100, 0x200, 0xb05}[x.Choose(4, "flags")]
			}
			switch more {
			case 1:
				g.HasDur = false
			case 2:
				g.NoTfhd = true
			case 3:
				g.HasTrun = false
			case 4: // two runs
				g.N = 2
				g.More = []*ref.Frag{{N: 1, TrunFlags: 0x300, Dur: []uint32{410}, Size: []uint32{9000}}}
			}
			f.Frags = append(f.Frags, g)
		}
		checkReport(x, f)
	}
	codecs := func(x *mc.X) {
		f := plainFilm()
		t := plainVideo(1)
		t.Codec = []int{ref.AVC1, ref.MP4A, ref.ENCA}[x.Choose(3, "codec")]
		v := byte(x.Choose(256, "value"))
		if t.Codec == ref.AVC1 {
			switch x.Choose(3, "field") {
			case 0:
				t.Video.Profile = v
			case 1:
				t.Video.Compat = v
			case 2:
				t.Video.Level = v
			}
		} else {
			switch x.Choose(2, "field") {
			case 0:
				t.Audio.OTI = v
			case 1:
				t.Audio.ASC = []byte{v, 0x10, 0x56, 0xe5, 0x00}
			}
		}
		f.Tracks = []*ref.Track{t}
		f.samples(t, 10, 1, 1)
		checkReport(x, f)
	}
	truncated := func(x *mc.X) {
		f := plainFilm()
		for i := 0; i < 2; i++ {
			t := plainVideo(uint32(i + 1))
			t.Codec = []int{ref.AVC1, ref.MP4A}[i]
			f.samples(t, 3000, 2, 1, 0, 2)
			f.Tracks = append(f.Tracks, t)
		}
		f.Order = x.Choose(2, "order")
		f.Frags = []*ref.Frag{{TrackID: 1, HasDur: true, DefDur: 5, HasTrun: true, N: 1, Mdat: []byte{1}}}
		bs := f.boxes()
		data := ref.Cat(bs...)
		n := x.Choose(len(data), "length")
		tree := ref.Parse(data[:n])
		why := ""
		if tree.Err != nil {
			why = "a box header is cut short"
		}
		for _, t := range tree.Top {
			if t.Beyond && t.Type != "mdat" {
				why = "the file ends inside of " + t.Type
			}
		}
		x.Describe("the first %d of %d bytes %s", n, len(data), why)
		s := newSandbox(x, "probe")
		defer s.close()
		s.write("in.mp4", data[:n])
		r := s.run("probe", "in.mp4")
		x.State(data[:n])
		x.Outcome(string(r.out), r.code)
		if why != "" {
			s.failed(r, why)
		} else if r.code != 0 {
			s.failed(r, "")
		}
	}
	malformed := func(x *mc.X) {
		f := plainFilm()
		t := plainVideo(1)
		t.Codec = []int{ref.AVC1, ref.MP4A}[x.Choose(2, "codec")]
		f.samples(t, 3000, 2, 1, 0)
		f.Tracks = append(f.Tracks, t)
		f.Frags = []*ref.Frag{{TrackID: 1, HasDur: true, DefDur: 5, HasTrun: true, N: 1, Mdat: []byte{1}}}
		bs := f.boxes()
		corruptSize(x, bs)
		data := ref.Cat(bs...)
		tree := ref.Parse(data)
		x.Describe("%s", shape(bs))
		s := newSandbox(x, "probe")
		defer s.close()
		s.write("in.mp4", data)
		r := s.run("probe", "-format", "yaml", "in.mp4")
		x.State(data)
		x.Outcome(string(r.out), r.code)
		if tree.Err != nil {
			s.failed(r, "an impossible box size")
		} else if r.code != 0 {
			s.failed(r, "")
		}
	}
	none := func(x *mc.X) {
		s := newSandbox(x, "probe")
		defer s.close()
		switch x.Choose(4, "case") {
		case 3:
			f := plainFilm()
			t := plainVideo(1)
			f.samples(t, 3000, 2, 1, 0)
			f.Tracks = append(f.Tracks, t)
			s.write("in.mp4", ref.Cat(f.boxes()...))
			a, b := s.run("probe", "in.mp4"), s.run("probe", "-format", "json", "in.mp4")
			if a.code != 0 || b.code != 0 || !bytes.Equal(a.out, b.out) {
				x.Fail("probe:format", "%s by default, %s with -format json", clip(string(a.out)), clip(string(b.out)))
			}
		case 0:
			s.failed(s.run("probe", "missing.mp4"), "the file does not exist")
		case 1:
			os.Mkdir(s.path("d"), 0700)
			s.failed(s.run("probe", "d"), "the file is a directory")
		default:
			if r := s.run("probe"); r.code == 0 {
				x.Fail("probe:accepted", "exit status 0 without a file")
			}
		}
	}
	counts := []int{7, 9, 16, 17, 33, 65, 129, 255, 256, 257, 300, 513, 1025, 4097}
	many := func(x *mc.X) {
		f := plainFilm()
		what := ""
		switch x.Choose(4, "what") {
		case 0: // samples
			n := append(counts, 32767, 32769, 65535, 65536, 65537, 70000)[x.Choose(len(counts)+6, "samples")]
			t := plainVideo(1)
			t.Codec = []int{ref.AVC1, ref.MP4A}[x.Choose(2, "codec")]
			f.Tracks = []*ref.Track{t}
			per := []int{1, 3, n}[x.Choose(3, "per chunk")]
			keys := x.Choose(3, "key frames") // all, every third, the first and the last
			ks := make([]int, n)
			for i := range ks {
				if keys == 0 || keys == 1 && i%3 == 0 || i == 0 || i == n-1 {
					ks[i] = 1 + i%2
				}
			}
			f.samples(t, 3000, per, ks...)
			if n%per != 0 {
				t.Stsc = append(t.Stsc, ref.SC{First: uint32(len(t.Chunks)), Per: uint32(n % per)})
			}
			switch x.Choose(3, "durations") {
			case 1:
				t.Stts = []ref.Run{{N: 1, Delta: 3000}, {N: uint32(n - 1), Delta: 3000}}
			case 2:
				t.Stts = nil
				for i := 0; i < n; i++ {
					t.Stts = append(t.Stts, ref.Run{N: 1, Delta: 3000})
				}
			}
			what = fmt.Sprintf("%d samples, %d per chunk, key frames %d", n, per, keys)
		case 1: // tracks
			n := counts[x.Choose(len(counts)-2, "tracks")]
			kind := x.Choose(2, "codecs")
			for i := 0; i < n; i++ {
				t := plainVideo(uint32(i + 1))
				if kind == 1 {
					t.Codec = i % ref.NumCodecs
				}
				t.Timescale, t.Duration = uint32(100+i), uint64(1000+i)
				f.samples(t, 30, 1, i%2, 1)
				f.Tracks = append(f.Tracks, t)
			}
			if x.Choose(2, "fragments") == 1 {
				for _, i := range []int{0, n / 2, n - 1, n - 1} {
					f.Frags = append(f.Frags, &ref.Frag{TrackID: uint32(i + 1), HasDur: true, DefDur: 50, HasSize: true, DefSize: 10, HasTrun: true, N: 2, Mdat: []byte{1}})
				}
			}
			what = fmt.Sprintf("%d tracks %d", n, kind)
		case 2: // fragments
			n := counts[x.Choose(len(counts)-1, "fragments")]
			for i := 0; i < 2; i++ {
				t := plainVideo(uint32(i + 1))
				t.Codec = []int{ref.AVC1, ref.ENCA}[i]
				t.Timescale = 48000
				f.Tracks = append(f.Tracks, t)
			}
			turns := x.Choose(3, "in turns")
			for i := 0; i < n; i++ {
				id := uint32(1)
				if turns == 1 && i%2 == 1 || turns == 2 && i >= n/2 {
					id = 2
				}
				f.Frags = append(f.Frags, &ref.Frag{TrackID: id, HasDur: true, DefDur: 300, HasSize: true, DefSize: 55, HasTrun: true, N: 1 + i%3, Mdat: []byte{byte(i)}})
			}
			what = fmt.Sprintf("%d fragments, %d", n, turns)
		default: // brands
			n := counts[x.Choose(len(counts), "brands")]
			f.Brands = nil
			for i := 0; i < n; i++ {
				f.Brands = append(f.Brands, fmt.Sprintf("%04d", i))
			}
			what = fmt.Sprintf("%d brands", n)
		}
		x.Describe("%s", what)
		checkReport(x, f)
	}
	full := func(x *mc.X) { // an output without enough room
		f := plainFilm()
		n := x.Choose(3, "tracks")
		for i := 0; i < n; i++ {
			t := plainVideo(uint32(i + 1))
			t.Codec = []int{ref.AVC1, ref.MP4A}[i]
			f.samples(t, 3000, 2, 1, 0, 2)
			f.Tracks = append(f.Tracks, t)
		}
		args := []string{"probe", "-format", []string{"json", "yaml"}[x.Choose(2, "format")], "in.mp4"}
		fullOutput(x, "report", ref.Cat(f.boxes()...), args...)
	}
	return []*mc.Unit{
		{Name: "full-output", Body: full},
		{Name: "no-file", Body: none},
		{Name: "many", Weight: 2, Body: many},
		{Name: "codecs", Body: codecs},
		{Name: "truncated", Body: truncated},
		{Name: "malformed", Body: malformed},
		{Name: "key-frames", Weight: 2, Body: frames},
		{Name: "bitrates", Weight: 2, Body: rates},
		{Name: "fragments", Weight: 2, Body: fragments},
		{Name: "fields", Bound: depth(tier, 2, 3), Weight: 4, Body: fields},
	}
}
