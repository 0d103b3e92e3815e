//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/abema/go-mp4/internal/zzverif/mc"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

// part is one fragment of the file to divide: a movie fragment box and what follows it.
type part struct {
	id    uint32
	moof  *ref.Box
	mdats []*ref.Box
	dur   uint64
}

// divTrack is one track of it.
type divTrack struct {
	*ref.Track
	trex *uint32 // default sample duration in mvex
}

func (t *divTrack) dir() string {
	return map[int]string{ref.AVC1: "video", ref.AVC1Bare: "video", ref.MP4A: "audio", ref.MP4ABare: "audio", ref.MP4AWave: "audio", ref.ENCV: "video_enc", ref.ENCA: "audio_enc"}[t.Codec]
}

// division is the file to divide.
type division struct {
	before []*ref.Box // in front of the movie box
	moov   []*ref.Box // other boxes of it
	at     int        // how many tracks come in front of those
	form   int
	tracks []*divTrack
	after  []*ref.Box // behind the movie box
	parts  []*part
	tail   []*ref.Box
	eof    bool
	stray  bool // after is not part of the initialization segment
}

func (d *division) movie(only *divTrack) *ref.Box {
	b := &ref.Box{Type: "moov", Form: d.form}
	for i, t := range d.tracks {
		if i == d.at {
			b.Kids = append(b.Kids, d.moov...)
		}
		if only == nil || only == t {
			b.Kids = append(b.Kids, trackBox(t))
		}
	}
	if d.at >= len(d.tracks) {
		b.Kids = append(b.Kids, d.moov...)
	}
	return b
}

// trackBox is the trak box.
func trackBox(t *divTrack) *ref.Box {
	m := &ref.Movie{Brands: []string{"isom"}, Tracks: []*ref.Track{t.Track}, NoMvhd: true, Order: 2}
	for _, b := range m.Layout() {
		if b.Type == "moov" {
			return b.Kids[0]
		}
	}
	panic("mc: no movie")
}

func (d *division) file() []byte {
	bs := append([]*ref.Box{}, d.before...)
	bs = append(bs, d.movie(nil))
	bs = append(bs, d.after...)
	for _, p := range d.parts {
		bs = append(append(bs, p.moof), p.mdats...)
	}
	bs = append(bs, d.tail...)
	if d.eof {
		toEOF(bs, 1)
	}
	return ref.Cat(bs...)
}

// fragment builds a movie fragment. shape selects how the durations are given.
func fragment(id uint32, seq int, how int, trex *uint32) *part {
	durs := [][]uint32{{100}, {100, 250, 7}, {0}, {1 << 31, 1 << 31, 5}, nil}
	traf := ref.B("traf", nil)
	def, hasDef := uint32(0), false
	if trex != nil {
		def = *trex
	}
	tfhd := ref.Full(0, 0x20000).U32(id)
	switch how % 3 {
	case 1: // default in tfhd
		def, hasDef = 30+uint32(how), true
		tfhd = ref.Full(0, 0x20008).U32(id).U32(def)
	case 2: // and more of the optional fields in front of and behind it
		def, hasDef = 0x01020304, true
		tfhd = ref.Full(0, 0x2003b&^1).U32(id).U32(1).U32(def).U32(9).U32(0x01010000)
	}
	_ = hasDef
	traf.Kids = append(traf.Kids, ref.B("tfhd", tfhd), ref.B("tfdt", ref.Full(1, 0).U64(uint64(seq)*1000)))
	p := &part{id: id}
	how /= 3
	explicit := func(d []uint32, flags uint32) *ref.Box {
		w := ref.Full(0, 0x100|flags).U32(uint32(len(d)))
		if flags&1 != 0 {
			w = w.U32(0x70)
		}
		for _, v := range d {
			w = w.U32(v)
			if flags&0x200 != 0 {
				w = w.U32(3)
			}
			p.dur += uint64(v)
		}
		return ref.B("trun", w)
	}
	implicit := func(n int) *ref.Box {
		w := ref.Full(0, 0x201).U32(uint32(n)).U32(0x70)
		for i := 0; i < n; i++ {
			w = w.U32(5)
		}
		p.dur += uint64(n) * uint64(def)
		return ref.B("trun", w)
	}
	switch how % 8 {
	case 0:
		traf.Kids = append(traf.Kids, explicit(durs[0], 1))
	case 1:
		traf.Kids = append(traf.Kids, explicit(durs[1], 0x201))
	case 2:
		traf.Kids = append(traf.Kids, implicit(3))
	case 3:
		traf.Kids = append(traf.Kids, explicit(durs[3], 0))
	case 4:
		traf.Kids = append(traf.Kids, explicit(durs[1], 0), implicit(2))
	case 5:
		traf.Kids = append(traf.Kids, implicit(1), explicit(durs[0], 1), explicit(durs[1], 0x200))
	case 6:
		traf.Kids = append(traf.Kids, explicit(nil, 0))
	case 7:
	}
	p.moof = ref.B("moof", nil, ref.B("mfhd", ref.Full(0, 0).U32(uint32(seq))), traf)
	fill := bytes.Repeat([]byte{byte(0x40 + seq), byte(id)}, 20+seq)
	p.mdats = []*ref.Box{ref.B("mdat", fill)}
	return p
}

const numHow = 24

// playlist is what a playlist says.
type playlist struct {
	lines  []string
	tags   map[string]string
	uris   []string
	before []string // the tag line in front of each of them
}

func parsePlaylist(b []byte) *playlist {
	p := &playlist{tags: map[string]string{}}
	last := ""
	for _, l := range strings.Split(strings.ReplaceAll(string(b), "\r\n", "\n"), "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		p.lines = append(p.lines, l)
		if l[0] != '#' {
			p.uris, p.before = append(p.uris, l), append(p.before, last)
			last = ""
			continue
		}
		if strings.HasPrefix(l, "#EXT-X-STREAM-INF:") || strings.HasPrefix(l, "#EXTINF:") {
			last = l
		}
		k, v, _ := strings.Cut(l, ":")
		p.tags[k] = v
	}
	return p
}

// attrs splits an attribute list.
func attrs(s string) map[string]string {
	out := map[string]string{}
	for s != "" {
		k, rest, ok := strings.Cut(s, "=")
		if !ok {
			break
		}
		var v string
		if strings.HasPrefix(rest, "\"") {
			v, rest, _ = strings.Cut(rest[1:], "\"")
			rest = strings.TrimPrefix(rest, ",")
		} else {
			v, rest, _ = strings.Cut(rest, ",")
		}
		out[k] = v
		s = rest
	}
	return out
}

// files lists the files below a directory.
func (s *sandbox) files(dir string) (out []string) {
	filepath.Walk(s.path(dir), func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			r, _ := filepath.Rel(s.path(dir), p)
			out = append(out, r)
		}
		return nil
	})
	sort.Strings(out)
	return
}

func checkDivide(x *mc.X, d *division, bad string, what string) {
	s := newSandbox(x, "divide")
	defer s.close()
	data := d.file()
	s.write("in.mp4", data)
	if err := os.Mkdir(s.path("out"), 0700); err != nil {
		panic("mc: " + err.Error())
	}
	r := s.run("alpha", "divide", "in.mp4", "out")
	x.State(data)
	x.Outcome(string(r.out), r.code, bad)
	if bad != "" {
		s.failed(r, bad)
		return
	}
	if r.code != 0 {
		x.Fail("divide:error", "%s: exit %d: %s", what, r.code, clip(string(r.out)+r.errs))
	}
	expected := map[string]bool{"playlist.m3u8": true}
	for _, t := range d.tracks {
		dir := t.dir()
		if dir == "" {
			continue
		}
		get := func(name string) []byte {
			expected[dir+"/"+name] = true
			return s.read("out/" + dir + "/" + name)
		}
		var initBoxes []*ref.Box
		after := d.after
		if d.stray {
			after = nil
		}
		for _, l := range [][]*ref.Box{d.before, {d.movie(t)}, after, d.tail} {
			for _, b := range l {
				if b.Type != "mfra" {
					initBoxes = append(initBoxes, b)
				}
			}
		}
		if got, want := get("init.mp4"), ref.Cat(initBoxes...); !bytes.Equal(got, want) {
			x.Fail("divide:init", "%s: %s/init.mp4 is %x, expected %x", what, dir, clipBytes(got, diffAt(got, want)), clipBytes(want, diffAt(got, want)))
		}
		pl := parsePlaylist(get("playlist.m3u8"))
		n := 0
		max := new(big.Rat)
		for pi, p := range d.parts {
			if p.id != t.ID {
				continue
			}
			name := fmt.Sprintf("%d.mp4", n)
			bs := append([]*ref.Box{p.moof}, p.mdats...)
			want := ref.Cat(bs...)
			if d.eof && len(d.tail) == 0 && pi == len(d.parts)-1 {
				c := *bs[len(bs)-1]
				c.Form = ref.ToEOF
				want = ref.Cat(append(append([]*ref.Box{}, bs[:len(bs)-1]...), &c)...)
			}
			if got := get(name); !bytes.Equal(got, want) {
				x.Fail("divide:segment", "%s: %s/%s (%d bytes) differs from its fragment (%d bytes): %x, expected %x", what, dir, name, len(got), len(want),
					clipBytes(got, diffAt(got, want)), clipBytes(want, diffAt(got, want)))
			}
			if n >= len(pl.uris) {
				x.Fail("divide:playlist", "%s: %s/playlist.m3u8 lists %d segments, fragment %d is missing", what, dir, len(pl.uris), n)
			}
			if pl.uris[n] != name {
				x.Fail("divide:playlist", "%s: segment %d of %s/playlist.m3u8 is %s", what, n, dir, pl.uris[n])
			}
			if t.Timescale != 0 {
				dur := new(big.Rat).SetFrac(new(big.Int).SetUint64(p.dur), new(big.Int).SetUint64(uint64(t.Timescale)))
				if dur.Cmp(max) > 0 {
					max = dur
				}
				v, _, _ := strings.Cut(strings.TrimPrefix(pl.before[n], "#EXTINF:"), ",")
				got, ok := new(big.Rat).SetString(v)
				if !ok || !near(got, dur) {
					x.Fail("divide:duration", "%s: the duration of %s/%s is %s, reported as %q", what, dir, name, dur.FloatString(6), pl.before[n])
				}
			}
			n++
		}
		if n == 0 {
			// an empty file for the first segment is created in advance
			expected[dir+"/0.mp4"] = len(s.read("out/"+dir+"/0.mp4")) == 0
		}
		if len(pl.uris) != n {
			x.Fail("divide:playlist", "%s: %s/playlist.m3u8 lists %d segments, there are %d", what, dir, len(pl.uris), n)
		}
		if pl.lines[0] != "#EXTM3U" || pl.lines[len(pl.lines)-1] != "#EXT-X-ENDLIST" || attrs(pl.tags["#EXT-X-MAP"])["URI"] != "init.mp4" {
			x.Fail("divide:playlist", "%s: %s/playlist.m3u8 is %q", what, dir, pl.lines)
		}
		if t.Timescale != 0 {
			td, err := strconv.ParseInt(pl.tags["#EXT-X-TARGETDURATION"], 10, 64)
			m, _ := max.Float64()
			if err != nil || float64(td) < m-1e-6*(1+m) || float64(td) > m+1+1e-6*(1+m) {
				x.Fail("divide:target", "%s: the longest segment of %s takes %f, target duration %q", what, dir, m, pl.tags["#EXT-X-TARGETDURATION"])
			}
		}
	}
	for _, f := range s.files("out") {
		if !expected[f] {
			x.Fail("divide:extra", "%s: unexpected file %s (%d bytes)", what, f, len(s.read("out/"+f)))
		}
	}
	checkMaster(s, d, what)
}

func diffAt(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i < 12 {
		return 0
	}
	return i - 12
}

// near allows for six decimals of a floating-point number.
func near(a, b *big.Rat) bool {
	d := new(big.Rat).Sub(a, b)
	d.Abs(d)
	tol := new(big.Rat).SetFrac64(1, 1000000)
	rel := new(big.Rat).Mul(b, new(big.Rat).SetFrac64(1, 1<<40))
	return d.Cmp(tol.Add(tol, rel)) <= 0
}

// checkMaster checks the playlist of playlists.
func checkMaster(s *sandbox, d *division, what string) {
	x := s.x
	by := map[string]*divTrack{}
	for _, t := range d.tracks {
		if t.dir() != "" {
			by[t.dir()] = t
		}
	}
	pick := func(names ...string) (string, *divTrack) {
		for _, n := range names {
			if by[n] != nil {
				return n, by[n]
			}
		}
		return "", nil
	}
	pl := parsePlaylist(s.read("out/playlist.m3u8"))
	if len(pl.lines) == 0 || pl.lines[0] != "#EXTM3U" {
		x.Fail("divide:master", "%s: the playlist is %q", what, pl.lines)
	}
	adir, _ := pick("audio", "audio_enc")
	vdir, vt := pick("video", "video_enc")
	var media []string
	for _, l := range pl.lines {
		if strings.HasPrefix(l, "#EXT-X-MEDIA:") {
			media = append(media, l[13:])
		}
	}
	if adir == "" && len(media) != 0 || adir != "" && (len(media) != 1 || attrs(media[0])["URI"] != adir+"/playlist.m3u8" || attrs(media[0])["TYPE"] != "AUDIO") {
		x.Fail("divide:master", "%s: audio is in %q, the playlist is %q", what, adir, pl.lines)
	}
	if vdir == "" {
		if len(pl.uris) != 0 {
			x.Fail("divide:master", "%s: no video, the playlist is %q", what, pl.lines)
		}
		return
	}
	if len(pl.uris) != 1 || pl.uris[0] != vdir+"/playlist.m3u8" {
		x.Fail("divide:master", "%s: video is in %s, the playlist is %q", what, vdir, pl.lines)
	}
	a := attrs(strings.TrimPrefix(pl.before[0], "#EXT-X-STREAM-INF:"))
	if a["RESOLUTION"] != fmt.Sprintf("%dx%d", vt.Video.W, vt.Video.H) {
		x.Fail("divide:master", "%s: video is %dx%d, the playlist is %q", what, vt.Video.W, vt.Video.H, pl.lines)
	}
	if g, ok := a["AUDIO"]; ok != (adir != "") || ok && g != attrs(media[0])["GROUP-ID"] {
		x.Fail("divide:master", "%s: audio is in %q, the playlist is %q", what, adir, pl.lines)
	}
	// the largest rate of a media data box
	max := 0.0
	for _, p := range d.parts {
		if p.id != vt.ID {
			continue
		}
		if p.dur == 0 || vt.Timescale == 0 {
			return
		}
		for _, m := range p.mdats {
			if v := float64(len(m.Bytes())) * 8 * float64(vt.Timescale) / float64(p.dur); v > max {
				max = v
			}
		}
	}
	got, err := strconv.ParseFloat(a["BANDWIDTH"], 64)
	if err != nil || math.Abs(got-max) > 1+max*1e-9 {
		x.Fail("divide:bandwidth", "%s: the largest rate is %f, reported %q", what, max, a["BANDWIDTH"])
	}
}

// newTrack is a track of the codec without samples of its own.
func newTrack(codec int, id uint32, ts uint32) *divTrack {
	return &divTrack{Track: &ref.Track{ID: id, Timescale: ts, Duration: 0, Codec: codec, StszCount: 0,
		Video: ref.Video{W: uint16(300 + id), H: uint16(200 + id), Conf: 1, Profile: 77, Level: 30, LengthSize: 4},
		Audio: ref.Audio{Channels: 2, OTI: 0x40, ASC: []byte{0x12, 0x10}}}}
}

// trackSets are combinations of tracks.
var trackSets = [][]int{{ref.AVC1}, {ref.MP4A}, {ref.AVC1, ref.MP4A}, {ref.MP4A, ref.AVC1}, {ref.ENCV, ref.ENCA}, {ref.AVC1, ref.ENCV}, {ref.Hev1, ref.MP4ABare},
	{ref.ENCA, ref.AVC1Bare}, {ref.NoEntry}, {ref.AVC1, ref.MP4A, ref.ENCV, ref.ENCA}, {}, {ref.MP4AWave, ref.ENCV}}

func tracksOf(set []int) (out []*divTrack) {
	for i, c := range set {
		out = append(out, newTrack(c, uint32(1+i), []uint32{1000, 48000, 90000, 600}[i]))
	}
	return
}

func ftypBox() *ref.Box { return ref.B("ftyp", []byte("isom\x00\x00\x00\x01isomavc1")) }

func mvexBox(ts []*divTrack) *ref.Box {
	b := ref.B("mvex", nil)
	for _, t := range ts {
		if t.trex != nil {
			b.Kids = append(b.Kids, ref.B("trex", ref.Full(0, 0).U32(t.ID).U32(1).U32(*t.trex).U32(0).U32(0)))
		}
	}
	return b
}

func psshBox(k byte) *ref.Box {
	return ref.B("pssh", ref.Full(0, 0).Fill(16, k).U32(2).U8(k, k))
}

func mvhdBox() *ref.Box {
	_, p := ref.Generate(ref.Lookup("mvhd", ref.Ctx{}), ref.Ctx{}, fixedChooser(0), false)
	return ref.B("mvhd", p)
}

func c25(tier string) []*mc.Unit {
	plain := func(ts []*divTrack) *division {
		return &division{before: []*ref.Box{ftypBox()}, moov: []*ref.Box{mvhdBox()}, tracks: ts}
	}
	// the sequences of fragments
	sequences := func(x *mc.X) {
		set := trackSets[x.Choose(len(trackSets), "tracks")]
		d := plain(tracksOf(set))
		n := depth(tier, 4, 5)
		desc := ""
		for i := 0; i < n; i++ {
			c := x.Choose(2+len(set), "fragment")
			if c == 0 {
				break
			}
			// the last is a track that does not exist
			p := fragment(uint32(c), i+1, 3, nil)
			switch x.Dev(4, "media data") {
			case 1:
				p.mdats = nil
			case 2:
				p.mdats = append(p.mdats, ref.B("mdat", []byte{1, 2, 3}))
			case 3:
				p.mdats[0].Form = ref.Large
			}
			d.parts = append(d.parts, p)
			desc += fmt.Sprintf(" %d", c)
		}
		d.eof = len(d.parts) > 0 && len(d.parts[len(d.parts)-1].mdats) > 0 && x.Dev(2, "to the end of the file") == 1
		what := fmt.Sprintf("tracks %v fragments%s", set, desc)
		x.Describe("%s", what)
		checkDivide(x, d, "", what)
	}
	durations := func(x *mc.X) {
		t := newTrack([]int{ref.AVC1, ref.ENCA}[x.Choose(2, "codec")], 7, []uint32{1, 1000, 90000, 1<<32 - 1, 3}[x.Choose(5, "timescale")])
		d := plain([]*divTrack{t})
		if c := x.Choose(3, "trex"); c > 0 {
			v := []uint32{25, 1<<32 - 1}[c-1]
			t.trex = &v
			d.moov = append(d.moov, mvexBox(d.tracks))
		}
		a, b := x.Choose(numHow, "first"), x.Choose(numHow, "second")
		d.parts = []*part{fragment(7, 1, a, t.trex), fragment(7, 2, b, t.trex)}
		what := fmt.Sprintf("durations %d %d of %d", a, b, t.Timescale)
		x.Describe("%s", what)
		checkDivide(x, d, "", what)
	}
	// which boxes there are
	layouts := func(x *mc.X) {
		set := trackSets[x.Choose(depth(tier, 5, len(trackSets)), "tracks")]
		ts := tracksOf(set)
		for i, t := range ts {
			v := uint32(10 + i)
			t.trex = &v
		}
		d := &division{tracks: ts}
		d.form = x.Choose(2, "form")
		pick := func(what string, max int, list ...*ref.Box) (out []*ref.Box) {
			for i := 0; i < max; i++ {
				c := x.Choose(len(list)+1, what)
				if c == 0 {
					break
				}
				out = append(out, list[c-1])
			}
			return
		}
		sidx := ref.B("sidx", ref.Full(0, 0).U32(1).U32(1000).U32(0).U32(0).U16(0).U16(0))
		udta := ref.B("udta", nil, ref.B("zzzz", []byte{1, 2}))
		large := &ref.Box{Type: "udta", Form: ref.Large, Kids: []*ref.Box{ref.B("zzzz", []byte{3})}}
		d.before = pick("in front", 1, ftypBox(), sidx, psshBox(1))
		d.moov = pick("in the movie", depth(tier, 2, 3), mvhdBox(), mvexBox(ts), psshBox(2), udta, large)
		d.at = x.Choose(len(ts)+1, "position")
		d.after = pick("behind", 1, sidx, psshBox(3), udta)
		d.tail = pick("at the end", 1, ref.B("mfra", nil, ref.B("mfro", ref.Full(0, 0).U32(24))))
		for i, t := range ts {
			d.parts = append(d.parts, fragment(t.ID, i+1, 3, t.trex))
		}
		what := fmt.Sprintf("tracks %v, %s | %s at %d | %s | %s", set, shape(d.before), shape(d.moov), d.at, shape(d.after), shape(d.tail))
		x.Describe("%s", what)
		checkDivide(x, d, "", what)
	}
	// boxes that must not be there, and files cut short
	bad := func(x *mc.X) {
		set := trackSets[x.Choose(4, "tracks")]
		d := plain(tracksOf(set))
		for i, t := range d.tracks {
			d.parts = append(d.parts, fragment(t.ID, i+1, 3, nil))
		}
		typ := []string{"free", "zzzz", "styp", "skip", "meta", "emsg", "uuid", "prft", "mdia", "tkhd", "traf", "\xa9nam"}[x.Choose(12, "type")]
		b := ref.B(typ, []byte{0, 0, 0, 0})
		why := "there is an unexpected box"
		switch x.Choose(6, "where") {
		case 5:
			d.moov = append(d.moov, ref.B([]string{"free", "zzzz", "mdat", "moof", "mfra", "iods"}[x.Choose(6, "in the movie")], []byte{0, 0, 0, 0}))
			if k := d.moov[len(d.moov)-1]; k.Type == "moof" || k.Type == "mfra" {
				k.Fields = nil
			}
		case 0:
			d.before = append(d.before, b)
		case 1:
			d.after = append(d.after, b)
		case 2:
			d.tail = append(d.tail, b)
		case 3:
			d.parts[len(d.parts)-1].mdats = append(d.parts[len(d.parts)-1].mdats, b)
		case 4:
			d.before = append([]*ref.Box{b}, d.before...)
		}
		what := fmt.Sprintf("%s: %x", printable(typ), d.file()[:8])
		x.Describe("%s", what)
		checkDivide(x, d, why, what)
	}
	// a file that ends early, or has something else wrong with it, is never taken for a good one and never crashes the tool
	truncated := func(x *mc.X) {
		d := plain(tracksOf(trackSets[2]))
		v := uint32(5)
		d.tracks[0].trex = &v
		d.moov = append(d.moov, mvexBox(d.tracks))
		for i := 0; i < 2; i++ {
			d.parts = append(d.parts, fragment(uint32(1+i), i+1, 5, nil))
		}
		data := d.file()
		n := x.Choose(len(data), "length")
		f := ref.Parse(data[:n])
		x.Describe("the first %d of %d bytes", n, len(data))
		s := newSandbox(x, "divide")
		defer s.close()
		s.write("in.mp4", data[:n])
		r := s.run("alpha", "divide", "in.mp4", "out")
		x.State(data[:n])
		x.Outcome(r.code)
		cut := f.Err != nil
		for _, t := range f.Top {
			cut = cut || t.Beyond
		}
		if cut {
			s.failed(r, "the file ends inside of a box")
		}
	}
	malformed := func(x *mc.X) {
		d := plain(tracksOf(trackSets[x.Choose(4, "tracks")]))
		for i := range d.tracks {
			d.parts = append(d.parts, fragment(uint32(1+i), i+1, 9, nil))
		}
		bs := append(append([]*ref.Box{}, d.before...), d.movie(nil))
		for _, p := range d.parts {
			bs = append(append(bs, p.moof), p.mdats...)
		}
		corruptSize(x, bs)
		data := ref.Cat(bs...)
		f := ref.Parse(data)
		x.Describe("%s", shape(bs))
		s := newSandbox(x, "divide")
		defer s.close()
		s.write("in.mp4", data)
		r := s.run("alpha", "divide", "in.mp4", "out")
		x.State(data)
		x.Outcome(r.code)
		for _, t := range f.Top {
			switch t.Type {
			case "ftyp", "moov", "moof", "mdat":
			default:
				return // wherever the walk gets to
			}
		}
		err := f.Err
		for _, t := range f.Top {
			if t.Type == "moov" && err == nil {
				err = t.ChildErr
			}
		}
		if err != nil {
			s.failed(r, "an impossible box size")
		}
	}
	// what is missing from the boxes it needs
	missing := func(x *mc.X) {
		d := plain(tracksOf(trackSets[2]))
		d.parts = []*part{fragment(1, 1, 3, nil), fragment(2, 2, 3, nil), fragment(1, 3, 4, nil)}
		why := ""
		t := d.tracks[x.Choose(2, "track")].Track
		p := d.parts[x.Choose(3, "part")]
		traf := p.moof.Kids[1]
		switch x.Choose(9, "what") {
		case 8: // media data of no fragment
			if p != d.parts[0] {
				x.Skip()
			}
			d.after = []*ref.Box{ref.B("mdat", []byte{1, 2, 3})}
			for _, q := range d.parts {
				if q.id == t.ID {
					q.id = 1<<32 - 1
					copy(q.moof.Kids[1].Kids[0].Fields[4:], []byte{255, 255, 255, 255})
				}
			}
			t.ID = 1<<32 - 1
			d.stray = true
		case 0:
			t.NoTkhd, why = true, "a track has no header"
		case 1:
			t.NoMdhd, why = true, "a track has no media header"
		case 2:
			traf.Kids, why = traf.Kids[1:], "a fragment has no track fragment header"
		case 3:
			p.moof.Kids, why = p.moof.Kids[:1], "a fragment has no track fragment"
		case 4:
			t.TkhdV1, t.MdhdV1 = true, true
		case 5:
			traf.Kids[0].Fields[0], why = 9, "the version of a track fragment header is unknown"
		case 6:
			d.moov = nil
		case 7:
			d.before = nil
		}
		x.Describe("%s %s", why, shape([]*ref.Box{d.movie(nil), p.moof}))
		checkDivide(x, d, why, "missing parts: "+why)
	}
	none := func(x *mc.X) {
		s := newSandbox(x, "divide")
		defer s.close()
		switch x.Choose(5, "case") {
		case 0:
			s.failed(s.run("alpha", "divide", "missing.mp4", "out"), "the file does not exist")
		case 1:
			os.Mkdir(s.path("d"), 0700)
			s.failed(s.run("alpha", "divide", "d", "out"), "the file is a directory")
		case 2:
			s.write("in.mp4", nil)
			if r := s.run("alpha", "divide", "in.mp4"); r.code == 0 {
				x.Fail("divide:accepted", "exit status 0 without a directory")
			}
		case 3:
			s.write("in.mp4", plain(tracksOf(trackSets[2])).file())
			s.write("out", []byte{1})
			s.failed(s.run("alpha", "divide", "in.mp4", "out"), "the output directory is a file")
		default:
			if r := s.run("alpha", "nothing"); r.code == 0 {
				x.Fail("tool:accepted", "exit status 0 for an unknown command")
			}
			if r := s.run("nothing"); r.code == 0 {
				x.Fail("tool:accepted", "exit status 0 for an unknown command")
			}
		}
	}
	many := func(x *mc.X) { // many fragments, much media data, many boxes
		set := trackSets[x.Choose(depth(tier, 5, len(trackSets)), "tracks")]
		d := plain(tracksOf(set))
		for i, t := range d.tracks {
			v := uint32(10 + i)
			t.trex = &v
		}
		d.moov = append(d.moov, mvexBox(d.tracks))
		what := fmt.Sprintf("tracks %v, ", set)
		switch x.Choose(4, "what") {
		case 0:
			n := []int{9, 10, 11, 17, 33, 65, 99, 100, 101, 129, 255, 256, 257, 300, 600, 1025}[x.Choose(16, "fragments")]
			turns := x.Choose(2, "in turns")
			for i := 0; i < n; i++ {
				k := i * len(d.tracks) / n
				if turns == 1 {
					k = i % len(d.tracks)
				}
				how := 3
				if i%7 == 5 {
					how = i % numHow
				}
				d.parts = append(d.parts, fragment(d.tracks[k].ID, i+1, how, d.tracks[k].trex))
			}
			what += fmt.Sprintf("%d fragments, %d", n, turns)
		case 1:
			n := []int{4096, 4097, 32767, 32769, 65535, 65536, 65537, 131073, 1<<20 + 1, 1<<22 + 3}[x.Choose(10, "media data")]
			for i := 0; i < 3; i++ {
				k := i % len(d.tracks)
				p := fragment(d.tracks[k].ID, i+1, 3, d.tracks[k].trex)
				b := make([]byte, n+i)
				for j := range b {
					b[j] = byte(j*3 ^ j>>8 ^ j>>16 + i)
				}
				p.mdats = []*ref.Box{ref.B("mdat", b)}
				p.mdats[0].Form = x.Choose(2, "form")
				d.parts = append(d.parts, p)
			}
			what += fmt.Sprintf("%d bytes of media data", n)
		case 2:
			n := []int{5, 9, 17, 33, 65, 129, 257, 1025}[x.Choose(8, "media data boxes")]
			for i := 0; i < 2; i++ {
				k := i % len(d.tracks)
				p := fragment(d.tracks[k].ID, i+1, 3, d.tracks[k].trex)
				for j := 0; j < n; j++ {
					p.mdats = append(p.mdats, ref.B("mdat", []byte{byte(j), byte(i)}[:1+j%2]))
				}
				d.parts = append(d.parts, p)
			}
			what += fmt.Sprintf("%d media data boxes", n)
		default:
			n := []int{5, 17, 65, 129, 257, 1025}[x.Choose(6, "boxes")]
			in := x.Choose(3, "where")
			for j := 0; j < n; j++ {
				b := psshBox(byte(j))
				switch in {
				case 0:
					d.before = append(d.before, b)
				case 1:
					d.moov = append(d.moov, b)
				case 2:
					d.after = append(d.after, b)
				}
			}
			for i, t := range d.tracks {
				d.parts = append(d.parts, fragment(t.ID, i+1, 3, t.trex))
			}
			what += fmt.Sprintf("%d boxes, place %d", n, in)
		}
		x.Describe("%s", what)
		checkDivide(x, d, "", what)
	}
	full := func(x *mc.X) { // a disk without enough room
		d := plain(tracksOf(trackSets[x.Choose(depth(tier, 6, len(trackSets)), "tracks")]))
		n := []int{1, 40, 0, 2}[x.Choose(depth(tier, 2, 4), "fragments")]
		for i := 0; i < n; i++ {
			for _, t := range d.tracks {
				d.parts = append(d.parts, fragment(t.ID, i+1, 3, t.trex))
			}
		}
		fullDisk(x, "divide", depth(tier, 64, 1), d.file(), "out", "alpha", "divide", "in.mp4", "out")
	}
	return []*mc.Unit{
		{Name: "no-file", Body: none},
		{Name: "full-disk", Body: full},
		{Name: "many", Body: many},
		{Name: "missing", Body: missing},
		{Name: "unexpected", Body: bad},
		{Name: "truncated", Body: truncated},
		{Name: "malformed", Body: malformed},
		{Name: "durations", Weight: 2, Body: durations},
		{Name: "sequences", Bound: 1, Weight: 3, Body: sequences},
		{Name: "layouts", Weight: 3, Body: layouts},
	}
}
