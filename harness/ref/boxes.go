//go:build go1.22

package ref

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
)

// Def is the published layout of a box type.
type Def struct {
	Name   string
	Layout func(*L)
	// Vers lists the supported versions; nil means that any version is accepted.
	Vers []uint64
	// Full tells that the layout starts with version and flags.
	Full bool
	// Ctxs are the contexts explored (all of them contexts where the type is defined).
	Ctxs []Ctx
}

var v0 = []uint64{0}
var v01 = []uint64{0, 1}
var v12 = []uint64{1, 2}

var std = map[string]*Def{}
var under3gpp, ilstMeta, ilstFree = map[string]*Def{}, map[string]*Def{}, map[string]*Def{}
var dataDef, itemDef *Def

// Extra holds definitions added by the application; nil means not applicable in the context.
var Extra = map[string]func(Ctx) *Def{}

func box(f func(*L), names ...string) {
	for _, n := range names {
		std[n] = &Def{Name: n, Layout: f, Ctxs: []Ctx{{}}}
	}
}

func full(vers []uint64, flags []uint64, f func(*L), names ...string) {
	for _, n := range names {
		std[n] = fullDef(n, vers, flags, f)
	}
}

func fullDef(n string, vers, flags []uint64, f func(*L)) *Def {
	return &Def{Name: n, Vers: vers, Full: true, Ctxs: []Ctx{{}}, Layout: func(l *L) {
		l.Full(vers, flags...)
		if f != nil {
			f(l)
		}
	}}
}

// IlstTypes are the types of metadata items.
var IlstTypes = []string{"----", "aART", "akID", "apID", "atID", "cmID", "cnID", "covr", "cpil", "cprt", "desc", "disk",
	"egid", "geID", "gnre", "pcst", "pgap", "plID", "purd", "purl", "rtng", "sfID", "soaa", "soal", "soar", "soco", "sonm",
	"sosn", "stik", "tmpo", "trkn", "tven", "tves", "tvnn", "tvsh", "tvsn", "\xa9ART", "\xa9alb", "\xa9cmt", "\xa9com",
	"\xa9day", "\xa9gen", "\xa9grp", "\xa9nam", "\xa9too", "\xa9wrt"}

// UdtaTypes are the types of 3GPP user data strings.
var UdtaTypes = []string{"titl", "dscp", "cprt", "perf", "auth", "gnre"}

// Std lists the types defined in every context.
func Std() []string {
	var out []string
	for k := range std {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// Lookup gives the layout of a type in a context, or nil if it is not defined there.
func Lookup(typ string, ctx Ctx) *Def {
	if f := Extra[typ]; f != nil {
		if d := f(ctx); d != nil {
			return d
		}
	}
	if d := ilstMeta[typ]; d != nil && ctx.Ilst && !ctx.IlstMeta {
		return d
	}
	if d := ilstFree[typ]; d != nil && ctx.IlstFree {
		return d
	}
	if typ == "data" {
		if ctx.IlstMeta {
			return dataDef
		}
	}
	if d := under3gpp[typ]; d != nil && ctx.Udta {
		return d
	}
	if d := std[typ]; d != nil {
		return d
	}
	if ctx.Ilst {
		if id := int64(binary.BigEndian.Uint32([]byte(typ))); id >= 1 && id <= int64(ctx.Keys) {
			return itemDef
		}
	}
	return nil
}

// AllDefs lists every distinct layout together with a type code under which it is used.
func AllDefs() (out []*Def) {
	for _, n := range Std() {
		out = append(out, std[n])
	}
	for _, n := range UdtaTypes {
		out = append(out, under3gpp[n])
	}
	for _, n := range IlstTypes {
		out = append(out, ilstMeta[n])
	}
	out = append(out, ilstFree["mean"], ilstFree["name"], dataDef, itemDef)
	return out
}

// fixed-point notations

func fix1616S(l *L, v int64) (string, bool) {
	if v&0xffff == 0 {
		return strconv.FormatInt(v>>16, 10), true
	}
	return strconv.FormatFloat(float64(v)/65536, 'f', 5, 64), true
}

func fix1616U(l *L, v uint64) (string, bool) {
	if v&0xffff == 0 {
		return strconv.FormatUint(v>>16, 10), true
	}
	return strconv.FormatFloat(float64(v)/65536, 'f', 5, 64), true
}

func fix88S(l *L, v int64) (string, bool) {
	if v&0xff == 0 {
		return strconv.FormatInt(v>>8, 10), true
	}
	return strconv.FormatFloat(float64(v)/256, 'f', 3, 32), true
}

func quoted(l *L, v []uint64) (string, bool) { return "\"" + Mask(bytesOf(v)) + "\"", true }

// counts explored for element counts
var cnt = []Opt{Count, Vals(0, 1, 2), DevVals(3, 5, 17)}
var cnt8 = []Opt{Count, Vals(0, 1, 2), DevVals(3, 5)}

// ver lays out a field whose width depends on the version.
func verU(l *L, name string) {
	if l.Version == 0 {
		l.U(name+"V0", 32)
	} else {
		l.U(name+"V1", 64)
	}
}

func verS(l *L, name string) {
	if l.Version == 0 {
		l.S(name+"V0", 32)
	} else {
		l.S(name+"V1", 64)
	}
}

func sampleEntry(l *L) {
	l.UA("Reserved", 6, 8, Hid)
	l.U("DataReferenceIndex", 16)
}

func fourCC(l *L, name string, opts ...Opt) string {
	return bytesOf(l.UA(name, 4, 8, append(opts, Text)...))
}

// genFourCC makes the four-character code a control field.
func genFourCC(l *L, name string, alts ...string) string {
	if l.Mode != Gen {
		return fourCC(l, name)
	}
	s := alts[l.Ch.Choose(len(alts), l.path+name)]
	v := make([]uint64, 4)
	for i := range v {
		v[i] = uint64(s[i])
		l.put(v[i], 8)
	}
	l.Cur.Set(name, v)
	return s
}

func matrix(l *L) { l.SA("Matrix", 9, 32, Hex) }

func paramSets(l *L, name string, n uint64) {
	l.List(name, int64(n), 0, func() {
		k := l.U("Length", 16, Count, Vals(0, 1, 3), DevVals(256, 257))
		l.Bytes("NALUnit", int(k))
	})
}

func brands(l *L) {
	fourCC(l, "MajorBrand")
	l.U("MinorVersion", 32)
	l.List("CompatibleBrands", -1, 32, func() { fourCC(l, "CompatibleBrand") })
}

// IsHighProfile tells whether an AVC profile has the extended configuration.
func IsHighProfile(p uint64) bool { return p == 100 || p == 110 || p == 122 || p == 144 }

func init() {
	none := func(l *L) {}
	box(none, "dinf", "edts", "mdia", "mfra", "minf", "moof", "moov", "mvex", "schi", "sinf", "stbl", "traf", "trak", "udta",
		"wave", "vttc", "vtte", "ilst")
	box(func(l *L) { l.U("BufferSizeDB", 32); l.U("MaxBitrate", 32); l.U("AvgBitrate", 32) }, "btrt")
	full(v0, nil, func(l *L) {
		n := l.U("EntryCount", 32, cnt...)
		l.UList("ChunkOffset", clampInt(n), 64)
	}, "co64")
	full(v0, nil, func(l *L) {
		n := l.U("EntryCount", 32, cnt...)
		l.UList("ChunkOffset", clampInt(n), 32)
	}, "stco")
	full(v0, nil, func(l *L) {
		n := l.U("EntryCount", 32, cnt...)
		l.UList("SampleNumber", clampInt(n), 32)
	}, "stss")
	box(func(l *L) {
		switch genFourCC(l, "ColourType", "nclx", "rICC", "prof", "nclc", "ncl\x00") {
		case "nclx":
			l.U("ColourPrimaries", 16)
			l.U("TransferCharacteristics", 16)
			l.U("MatrixCoefficients", 16)
			l.B("FullRangeFlag")
			l.U("Reserved", 7)
		case "rICC", "prof":
			l.Rest("Profile")
		default:
			l.Rest("Unknown")
		}
	}, "colr")
	full(v01, nil, func(l *L) {
		for _, n := range []string{"CompositionToDTSShift", "LeastDecodeToDisplayDelta", "GreatestDecodeToDisplayDelta",
			"CompositionStartTime", "CompositionEndTime"} {
			verS(l, n)
		}
	}, "cslg")
	full(v01, nil, func(l *L) {
		n := l.U("EntryCount", 32, cnt...)
		l.List("Entries", int64(n), 64, func() {
			l.U("SampleCount", 32)
			if l.Version == 0 {
				l.U("SampleOffsetV0", 32)
			} else {
				l.S("SampleOffsetV1", 32)
			}
		})
	}, "ctts")
	full(v0, nil, func(l *L) { l.U("EntryCount", 32) }, "dref", "stsd")
	full(v0, []uint64{0, 1}, func(l *L) {
		if l.Flags&1 == 0 {
			l.CStr("Location")
		}
	}, "url ")
	full(v0, []uint64{0, 1}, func(l *L) {
		if l.Flags&1 == 0 {
			l.CStr("Name")
			l.CStr("Location")
		}
	}, "urn ")
	full(v01, nil, func(l *L) {
		n := l.U("EntryCount", 32, cnt...)
		l.List("Entries", int64(n), 0, func() {
			verU(l, "SegmentDuration")
			verS(l, "MediaTime")
			l.S("MediaRateInteger", 16)
			l.S("MediaRateFraction", 16, Hid)
		})
	}, "elst")
	full(v01, nil, func(l *L) {
		if l.Mode == Str || l.Version == 0 {
			l.CStr("SchemeIdUri")
			l.CStr("Value")
		}
		l.U("Timescale", 32)
		if l.Version == 0 {
			l.U("PresentationTimeDelta", 32)
		} else {
			l.U("PresentationTime", 64)
		}
		l.U("EventDuration", 32)
		l.U("Id", 32)
		if l.Mode != Str && l.Version == 1 {
			l.mustTerm = true
			l.CStr("SchemeIdUri")
			l.CStr("Value")
			l.mustTerm = false
		}
		l.Rest("MessageData", Text)
	}, "emsg")
	box(func(l *L) { l.U("FieldCount", 8); l.U("FieldOrdering", 8) }, "fiel")
	box(func(l *L) { l.Rest("Data") }, "free", "skip", "mdat")
	box(func(l *L) { fourCC(l, "DataFormat") }, "frma")
	box(brands, "ftyp", "styp")
	full(v0, nil, func(l *L) {
		pre := l.U("PreDefined", 32, Vals(0, 0x6d686c72), DevVals(1))
		fourCC(l, "HandlerType")
		l.UA("Reserved", 3, 32, Hid)
		if l.Mode == Dec {
			n := l.left() / 8
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(l.get(8))
			}
			if pre != 0 && n >= 2 && n == int(b[0])+1 {
				l.Cur.Set("Name", string(b[1:]))
				l.NonCanonical = "counted text"
				return
			}
			k := 0
			for k < n && b[k] != 0 {
				k++
			}
			if k != n-1 {
				l.NonCanonical = "text not terminated at the end of the box"
			}
			l.Cur.Set("Name", string(b[:k]))
			return
		}
		l.CStr("Name")
	}, "hdlr")
	box(func(l *L) {
		l.U("ConfigurationVersion", 8)
		l.U("GeneralProfileSpace", 2)
		l.B("GeneralTierFlag")
		l.U("GeneralProfileIdc", 5)
		l.BA("GeneralProfileCompatibility", 32)
		l.UA("GeneralConstraintIndicator", 6, 8)
		l.U("GeneralLevelIdc", 8)
		l.U("Reserved1", 4, Hid)
		l.U("MinSpatialSegmentationIdc", 12)
		l.U("Reserved2", 6, Hid)
		l.U("ParallelismType", 2)
		l.U("Reserved3", 6, Hid)
		l.U("ChromaFormatIdc", 2)
		l.U("Reserved4", 5, Hid)
		l.U("BitDepthLumaMinus8", 3)
		l.U("Reserved5", 5, Hid)
		l.U("BitDepthChromaMinus8", 3)
		l.U("AvgFrameRate", 16)
		l.U("ConstantFrameRate", 2)
		l.U("NumTemporalLayers", 2)
		l.U("TemporalIdNested", 2)
		l.U("LengthSizeMinusOne", 2)
		n := l.U("NumOfNaluArrays", 8, cnt8...)
		l.List("NaluArrays", int64(n), 0, func() {
			l.B("Completeness")
			l.B("Reserved")
			l.U("NaluType", 6)
			k := l.U("NumNalus", 16, Count, Vals(0, 1, 2), DevVals(3))
			paramSets(l, "Nalus", k)
		})
	}, "hvcC")
	full(v01, nil, func(l *L) {
		verU(l, "CreationTime")
		verU(l, "ModificationTime")
		l.U("Timescale", 32)
		verU(l, "Duration")
		l.B("Pad", Hid)
		l.UA("Language", 3, 5, Iso)
		l.U("PreDefined", 16)
	}, "mdhd")
	full(v01, nil, func(l *L) { verU(l, "FragmentDuration") }, "mehd")
	std["btrt"].Vers = v0 // declared with a version list although it has no version field
	std["meta"] = &Def{Name: "meta", Vers: v0, Full: true, Ctxs: []Ctx{{}}, Layout: func(l *L) {
		if l.Mode == Dec {
			if l.left() < 32 {
				l.Unspecified = "meta box without room for version and flags"
				l.fail(ErrShort)
			}
			p := l.pos
			if v := l.get(32); v != 0 {
				l.pos = p
				l.NonCanonical = "QuickTime meta box"
				l.Cur.Set("Version", uint64(0))
				l.Cur.Set("Flags", []uint64{0, 0, 0})
				return
			}
			l.pos = p
		}
		if l.Mode == Gen {
			l.Cur.Set("Version", uint64(0))
			l.Cur.Set("Flags", []uint64{0, 0, 0})
			l.put(0, 32)
			return
		}
		l.Full(v0)
	}}
	full(v0, nil, func(l *L) { l.U("SequenceNumber", 32) }, "mfhd")
	full(v0, nil, func(l *L) { l.U("Size", 32) }, "mfro")
	full(v01, nil, func(l *L) {
		verU(l, "CreationTime")
		verU(l, "ModificationTime")
		l.U("Timescale", 32)
		verU(l, "Duration")
		l.S("Rate", 32, FmtS(fix1616S), DevVals(0x00010000, 0x00018000, 0xffff0000, 0xffff8000))
		l.S("Volume", 16)
		l.S("Reserved", 16, Hid)
		l.UA("Reserved2", 2, 32, Hid)
		matrix(l)
		l.SA("PreDefined", 6, 32)
		l.U("NextTrackID", 32)
	}, "mvhd")
	full(v01, []uint64{0, 1}, func(l *L) {
		if l.Flags&1 != 0 {
			fourCC(l, "AuxInfoType")
			l.U("AuxInfoTypeParameter", 32, Hex)
		}
		n := l.U("EntryCount", 32, cnt...)
		if l.Version == 0 {
			l.UList("OffsetV0", clampInt(n), 32)
		} else {
			l.UList("OffsetV1", clampInt(n), 64)
		}
	}, "saio")
	full(v0, []uint64{0, 1}, func(l *L) {
		if l.Flags&1 != 0 {
			fourCC(l, "AuxInfoType")
			l.U("AuxInfoTypeParameter", 32, Hex)
		}
		d := l.U("DefaultSampleInfoSize", 8, Decm, Vals(0, 1, 255))
		n := l.U("SampleCount", 32, cnt...)
		if d == 0 {
			l.UList("SampleInfoSize", clampInt(n), 8, Decm)
		}
	}, "saiz")
	box(func(l *L) {
		l.Opt1("SampleEntry", func() { sampleEntry(l) })
		l.U("PreDefined", 16)
		l.U("Reserved", 16, Hid)
		l.UA("PreDefined2", 3, 32)
		l.U("Width", 16)
		l.U("Height", 16)
		l.U("Horizresolution", 32)
		l.U("Vertresolution", 32)
		l.U("Reserved2", 32, Hid)
		l.U("FrameCount", 16)
		compressorname(l)
		l.U("Depth", 16)
		l.S("PreDefined3", 16)
	}, "mp4v", "avc1", "encv", "hev1", "hvc1", "av01", "vp08", "vp09")
	box(func(l *L) {
		qt := l.Ctx.QT
		if qt && l.Ctx.Wave {
			l.Rest("QuickTimeData")
			return
		}
		l.Opt1("SampleEntry", func() { sampleEntry(l) })
		v := l.U("EntryVersion", 16, Vals(0, 1, 2), DevVals(3, 0xffff, 0x100, 0x200))
		l.UA("Reserved", 3, 16, Hid)
		l.U("ChannelCount", 16)
		l.U("SampleSize", 16)
		l.U("PreDefined", 16)
		l.U("Reserved2", 16, Hid)
		l.U("SampleRate", 32, FmtU(fix1616U), DevVals(48000<<16, 0x8000))
		if qt && v == 1 {
			l.Bytes("QuickTimeData", 16)
		} else if qt && v == 2 {
			l.Bytes("QuickTimeData", 36)
		}
	}, "mp4a", "enca", "ac-3", "ipcm", "fpcm", "Opus")
	for _, n := range []string{"mp4a", "enca", "ac-3", "ipcm", "fpcm", "Opus"} {
		std[n].Ctxs = []Ctx{{}, {QT: true}, {QT: true, Wave: true}, {Wave: true}}
	}
	box(func(l *L) {
		l.U("ConfigurationVersion", 8)
		p := l.U("Profile", 8, Vals(66, 100), DevVals(77, 88, 110, 122, 144, 244, 99, 101))
		l.U("ProfileCompatibility", 8)
		l.U("Level", 8)
		l.U("Reserved", 6, Hid)
		l.U("LengthSizeMinusOne", 2)
		l.U("Reserved2", 3, Hid)
		n := l.U("NumOfSequenceParameterSets", 5, cnt8...)
		paramSets(l, "SequenceParameterSets", n)
		n = l.U("NumOfPictureParameterSets", 8, cnt8...)
		paramSets(l, "PictureParameterSets", n)
		var high bool
		switch l.Mode {
		case Dec:
			high = l.left() >= 32 && IsHighProfile(p)
		case Gen:
			high = IsHighProfile(p) && l.Ch.Choose(2, "high") == 0
		default:
			high, _ = l.Cur.Vals["HighProfileFieldsEnabled"].(bool)
		}
		if l.Mode == Dec || l.Mode == Gen {
			l.Cur.Set("HighProfileFieldsEnabled", high)
		}
		if high {
			if l.Mode == Enc && !IsHighProfile(p) {
				l.fail(ErrShape)
			}
			l.U("Reserved3", 6, Hid)
			l.U("ChromaFormat", 2)
			l.U("Reserved4", 5, Hid)
			l.U("BitDepthLumaMinus8", 3)
			l.U("Reserved5", 5, Hid)
			l.U("BitDepthChromaMinus8", 3)
			n = l.U("NumOfSequenceParameterSetExt", 8, cnt8...)
			paramSets(l, "SequenceParameterSetsExt", n)
		}
	}, "avcC")
	box(func(l *L) { l.U("HSpacing", 32); l.U("VSpacing", 32) }, "pasp")
	box(func(l *L) {
		l.Opt1("SampleEntry", func() { sampleEntry(l) })
		l.CStr("Namespace")
		l.CStr("SchemaLocation")
		l.CStr("AuxiliaryMIMETypes")
	}, "stpp")
	box(func(l *L) {
		l.Opt1("SampleEntry", func() { sampleEntry(l) })
		l.CStr("ContentEncoding")
		l.CStr("MIMEFormat")
	}, "sbtt")
	box(func(l *L) { l.Opt1("SampleEntry", func() { sampleEntry(l) }) }, "wvtt")
	full(v01, nil, func(l *L) {
		l.U("GroupingType", 32)
		if l.Version == 1 {
			l.U("GroupingTypeParameter", 32)
		}
		n := l.U("EntryCount", 32, cnt...)
		l.List("Entries", int64(n), 64, func() { l.U("SampleCount", 32); l.U("GroupDescriptionIndex", 32) })
	}, "sbgp")
	full(v0, []uint64{0, 1}, func(l *L) {
		fourCC(l, "SchemeType")
		l.U("SchemeVersion", 32, Hex)
		if l.Flags&1 != 0 {
			l.Rest("SchemeUri", Text)
		}
	}, "schm")
	full(v0, nil, func(l *L) {
		l.List("Samples", -1, 8, func() {
			l.U("IsLeading", 2)
			l.U("SampleDependsOn", 2)
			l.U("SampleIsDependedOn", 2)
			l.U("SampleHasRedundancy", 2)
		})
	}, "sdtp")
	full(v12, nil, sgpd, "sgpd")
	full(v01, nil, func(l *L) {
		l.U("ReferenceID", 32)
		l.U("Timescale", 32)
		verU(l, "EarliestPresentationTime")
		verU(l, "FirstOffset")
		l.U("Reserved", 16, Hid)
		n := l.U("ReferenceCount", 16, cnt...)
		l.List("References", int64(n), 96, func() {
			l.B("ReferenceType")
			l.U("ReferencedSize", 31)
			l.U("SubsegmentDuration", 32)
			l.B("StartsWithSAP")
			l.U("SAPType", 3, Wide)
			l.U("SAPDeltaTime", 28)
		})
	}, "sidx")
	full(v0, nil, func(l *L) {
		l.S("Balance", 16, FmtS(fix88S), DevVals(0xff00, 0xff80, 0x0180))
		l.U("Reserved", 16, Hid)
	}, "smhd")
	full(v0, nil, func(l *L) {
		n := l.U("EntryCount", 32, cnt...)
		l.List("Entries", int64(n), 96, func() {
			l.U("FirstChunk", 32)
			l.U("SamplesPerChunk", 32)
			l.U("SampleDescriptionIndex", 32)
		})
	}, "stsc")
	full(v0, nil, func(l *L) {
		s := l.U("SampleSize", 32, Vals(0, 7), DevVals(0xffffffff))
		n := l.U("SampleCount", 32, cnt...)
		if s != 0 {
			n = 0
		}
		l.UList("EntrySize", clampInt(n), 32)
	}, "stsz")
	full(v0, nil, func(l *L) {
		n := l.U("EntryCount", 32, cnt...)
		l.List("Entries", int64(n), 64, func() { l.U("SampleCount", 32); l.U("SampleDelta", 32) })
	}, "stts")
	full(v01, nil, func(l *L) { verU(l, "BaseMediaDecodeTime") }, "tfdt")
	tfhdFlags := []uint64{}
	for i := 0; i < 32; i++ {
		var f uint64
		for b, v := range []uint64{1, 2, 8, 0x10, 0x20} {
			if i>>uint(b)&1 == 1 {
				f |= v
			}
		}
		tfhdFlags = append(tfhdFlags, f|uint64(i%3)<<16)
	}
	full(v0, tfhdFlags, func(l *L) {
		l.U("TrackID", 32)
		if l.Flags&1 != 0 {
			l.U("BaseDataOffset", 64)
		}
		if l.Flags&2 != 0 {
			l.U("SampleDescriptionIndex", 32)
		}
		if l.Flags&8 != 0 {
			l.U("DefaultSampleDuration", 32)
		}
		if l.Flags&0x10 != 0 {
			l.U("DefaultSampleSize", 32)
		}
		if l.Flags&0x20 != 0 {
			l.U("DefaultSampleFlags", 32, Hex)
		}
	}, "tfhd")
	full(v01, nil, func(l *L) {
		l.U("TrackID", 32)
		l.U("Reserved", 26, Hid)
		a := l.U("LengthSizeOfTrafNum", 2, Vals(0, 1, 2, 3))
		b := l.U("LengthSizeOfTrunNum", 2, Vals(0, 3), DevVals(1, 2))
		c := l.U("LengthSizeOfSampleNum", 2, Vals(0, 3), DevVals(1, 2))
		n := l.U("NumberOfEntry", 32, cnt...)
		l.List("Entries", int64(n), 0, func() {
			verU(l, "Time")
			verU(l, "MoofOffset")
			l.U("TrafNumber", int(a+1)*8, Wide)
			l.U("TrunNumber", int(b+1)*8, Wide)
			l.U("SampleNumber", int(c+1)*8, Wide)
		})
	}, "tfra")
	full(v01, nil, func(l *L) {
		verU(l, "CreationTime")
		verU(l, "ModificationTime")
		l.U("TrackID", 32)
		l.U("Reserved0", 32, Hid)
		verU(l, "Duration")
		l.UA("Reserved1", 2, 32, Hid)
		l.S("Layer", 16)
		l.S("AlternateGroup", 16)
		l.S("Volume", 16)
		l.U("Reserved2", 16, Hid)
		matrix(l)
		l.U("Width", 32, FmtU(fix1616U), DevVals(1920<<16, 0x00018000))
		l.U("Height", 32, FmtU(fix1616U), DevVals(1080<<16))
	}, "tkhd")
	full(v0, nil, func(l *L) { l.U("TrackID", 32) }, "trep")
	full(v0, nil, func(l *L) {
		l.U("TrackID", 32)
		l.U("DefaultSampleDescriptionIndex", 32)
		l.U("DefaultSampleDuration", 32)
		l.U("DefaultSampleSize", 32)
		l.U("DefaultSampleFlags", 32, Hex)
	}, "trex")
	trunFlags := []uint64{}
	for i := 0; i < 64; i++ {
		trunFlags = append(trunFlags, uint64(i&1)|uint64(i>>1&1)<<2|uint64(i>>2)<<8)
	}
	full(v01, trunFlags, func(l *L) {
		n := l.U("SampleCount", 32, cnt...)
		if l.Flags&1 != 0 {
			l.S("DataOffset", 32)
		}
		if l.Flags&4 != 0 {
			l.U("FirstSampleFlags", 32, Hex)
		}
		l.List("Entries", int64(n), 0, func() {
			if l.Flags&0x100 != 0 {
				l.U("SampleDuration", 32)
			}
			if l.Flags&0x200 != 0 {
				l.U("SampleSize", 32)
			}
			if l.Flags&0x400 != 0 {
				l.U("SampleFlags", 32, Hex)
			}
			if l.Flags&0x800 != 0 {
				if l.Version == 0 {
					l.U("SampleCompositionTimeOffsetV0", 32)
				} else {
					l.S("SampleCompositionTimeOffsetV1", 32)
				}
			}
		})
	}, "trun")
	full(v0, nil, func(l *L) { l.U("Graphicsmode", 16); l.UA("Opcolor", 3, 16) }, "vmhd")

	// AV1, AC-3, VP, Opus, PCM
	box(func(l *L) {
		l.U("Marker", 1, Hid)
		l.U("Version", 7, Hid)
		l.U("SeqProfile", 3)
		l.U("SeqLevelIdx0", 5)
		l.U("SeqTier0", 1)
		l.U("HighBitdepth", 1)
		l.U("TwelveBit", 1)
		l.U("Monochrome", 1)
		l.U("ChromaSubsamplingX", 1)
		l.U("ChromaSubsamplingY", 1)
		l.U("ChromaSamplePosition", 2)
		l.U("Reserved", 3, Hid)
		l.U("InitialPresentationDelayPresent", 1)
		l.U("InitialPresentationDelayMinusOne", 4)
		l.Rest("ConfigOBUs")
	}, "av1C")
	box(func(l *L) {
		l.U("Fscod", 2)
		l.U("Bsid", 5)
		l.U("Bsmod", 3)
		l.U("Acmod", 3)
		l.U("LfeOn", 1)
		l.U("BitRateCode", 5)
		l.U("Reserved", 5, Hid)
	}, "dac3")
	box(func(l *L) {
		l.U("Version", 8, FmtU(func(l *L, v uint64) (string, bool) { return strconv.FormatUint(v, 10), true }))
		n := l.U("OutputChannelCount", 8, Count, Vals(1, 2), DevVals(0, 3, 8, 255))
		l.U("PreSkip", 16)
		l.U("InputSampleRate", 32)
		l.S("OutputGain", 16)
		f := l.U("ChannelMappingFamily", 8, Vals(0, 1), DevVals(255, 2))
		if f != 0 {
			l.U("StreamCount", 8)
			l.U("CoupledCount", 8)
			l.Bytes("ChannelMapping", int(n))
		}
	}, "dOps")
	full(nil, nil, func(l *L) {
		l.U("Profile", 8)
		l.U("Level", 8)
		l.U("BitDepth", 4)
		l.U("ChromaSubsampling", 3)
		l.U("VideoFullRangeFlag", 1)
		l.U("ColourPrimaries", 8)
		l.U("TransferCharacteristics", 8)
		l.U("MatrixCoefficients", 8)
		n := l.U("CodecInitializationDataSize", 16, Count, Vals(0, 1, 3), DevVals(256, 257))
		l.Bytes("CodecInitializationData", int(n))
	}, "vpcC")
	full(v01, nil, func(l *L) { l.U("FormatFlags", 8); l.U("PCMSampleSize", 8) }, "pcmC")

	// esds
	full(v0, nil, func(l *L) {
		l.List("Descriptors", -1, 0, func() {
			tag := l.S("Tag", 8, SVals(3, 4, 5, 6, -1, 0), FmtS(func(l *L, v int64) (string, bool) {
				s, ok := map[int64]string{3: "ESDescr", 4: "DecoderConfigDescr", 5: "DecSpecificInfo", 6: "SLConfigDescr"}[v]
				return s, ok
			}))
			var size uint64
			if tag == 3 || tag == 4 {
				size = l.Varint("Size")
			} else {
				size = l.Varint("Size", Count, Vals(0, 1, 2), DevVals(5, 127, 128, 129))
			}
			switch tag {
			case 3:
				l.Opt1("ESDescriptor", func() {
					l.U("ESID", 16)
					dep := l.B("StreamDependenceFlag", Vals(0, 1))
					url := l.B("UrlFlag", Vals(0, 1))
					ocr := l.B("OcrStreamFlag", Vals(0, 1))
					l.S("StreamPriority", 5)
					if dep {
						l.U("DependsOnESID", 16)
					}
					if url {
						n := l.U("URLLength", 8, Count, Vals(0, 2), DevVals(255))
						l.Bytes("URLString", int(n), Text)
					}
					if ocr {
						l.U("OCRESID", 16)
					}
				})
			case 4:
				l.Opt1("DecoderConfigDescriptor", func() {
					l.U("ObjectTypeIndication", 8)
					l.S("StreamType", 6)
					l.B("UpStream")
					l.B("Reserved")
					l.U("BufferSizeDB", 24)
					l.U("MaxBitrate", 32)
					l.U("AvgBitrate", 32)
				})
			default:
				l.Bytes("Data", clampInt(size))
			}
		})
	}, "esds")

	// WebVTT
	for _, p := range [][2]string{{"vttC", "Config"}, {"vlab", "SourceLabel"}, {"ctim", "CueCurrentTime"}, {"iden", "CueId"},
		{"sttg", "Settings"}, {"payl", "CueText"}, {"vtta", "CueAdditionalText"}} {
		name := p[1]
		box(func(l *L) { l.BoxStr(name) }, p[0])
	}
	box(func(l *L) { l.U("SourceId", 32) }, "vsid")

	// encryption
	full(v01, nil, func(l *L) {
		l.UA("SystemID", 16, 8, Uuid)
		if l.Version != 0 {
			n := l.U("KIDCount", 32, cnt...)
			if l.Mode == Str {
				v, _ := l.Cur.Vals["KIDs"].([]*Obj)
				l.field("KIDs", &opt{}, func() {
					l.w("[")
					for i, o := range v {
						if i > 0 {
							l.w(", ")
						}
						l.w(fmtUUID(o.Vals["KID"].([]uint64)))
					}
					l.w("]")
				})
			} else {
				l.List("KIDs", int64(n), 128, func() { l.UA("KID", 16, 8, Uuid) })
			}
		}
		n := l.S("DataSize", 32, Count, SVals(0, 1, 3))
		if n < 0 {
			l.fail(ErrShape)
		}
		l.Bytes("Data", int(n))
	}, "pssh")
	full(v01, nil, func(l *L) {
		l.U("Reserved", 8, Decm)
		l.U("DefaultCryptByteBlock", 4, Decm)
		l.U("DefaultSkipByteBlock", 4, Decm)
		p := l.U("DefaultIsProtected", 8, Decm, Vals(0, 1), DevVals(2, 255))
		s := l.U("DefaultPerSampleIVSize", 8, Decm, Vals(0, 8), DevVals(1, 16))
		l.UA("DefaultKID", 16, 8, Uuid)
		if p == 1 && s == 0 {
			n := l.U("DefaultConstantIVSize", 8, Decm, Count, Vals(0, 1, 8), DevVals(255))
			l.Bytes("DefaultConstantIV", int(n))
		}
	}, "tenc")

	// metadata
	for _, n := range UdtaTypes {
		d := fullDef(n, v0, nil, func(l *L) {
			l.B("Pad", Hid)
			l.UA("Language", 3, 5, Iso)
			l.Rest("Data", Text)
		})
		d.Ctxs = []Ctx{{Udta: true}, {Udta: true, QT: true}}
		under3gpp[n] = d
	}
	for _, n := range IlstTypes {
		ilstMeta[n] = &Def{Name: n, Layout: none, Ctxs: []Ctx{{Ilst: true}, {Ilst: true, Udta: true, QT: true}}}
	}
	dataLayout := func(l *L) {
		t := l.U("DataType", 32, Vals(0, 1, 13), DevVals(2, 3, 14, 21, 22, 23, 24, 4), FmtU(func(l *L, v uint64) (string, bool) {
			s, ok := map[uint64]string{0: "BINARY", 1: "UTF8", 2: "UTF16", 3: "MAC_STR", 14: "JPEG", 21: "INT", 22: "FLOAT32", 23: "FLOAT64"}[v]
			return s, ok
		}))
		l.U("DataLang", 32)
		l.Rest("Data", FmtB(func(l *L, v []uint64) (string, bool) {
			if t == 1 {
				return quoted(l, v)
			}
			return "", false
		}))
	}
	dataDef = &Def{Name: "data", Layout: dataLayout, Ctxs: []Ctx{{Ilst: true, IlstMeta: true}, {IlstMeta: true, QT: true}}}
	for _, n := range []string{"mean", "name"} {
		ilstFree[n] = &Def{Name: n, Layout: func(l *L) { l.Rest("Data", FmtB(quoted)) },
			Ctxs: []Ctx{{Ilst: true, IlstMeta: true, IlstFree: true}}}
	}
	itemDef = &Def{Name: "\x00\x00\x00\x02", Ctxs: []Ctx{{Ilst: true, Keys: 2}, {Ilst: true, Keys: 3, QT: true}}, Layout: func(l *L) {
		if l.Mode == Str {
			l.field("Version", &opt{}, func() { l.w(strconv.FormatUint(l.Cur.U("Version"), 10)) })
			f := l.Cur.Vals["Flags"].([]uint64)
			l.field("Flags", &opt{}, func() { l.w(fmt.Sprintf("0x%06x", f[0]<<16|f[1]<<8|f[2])) })
		} else {
			l.U("Version", 8)
			l.UA("Flags", 3, 8)
		}
		l.Bytes("ItemName", 4, FmtB(quoted))
		l.Sub("Data", func() { dataLayout(l) })
	}}
	full(nil, nil, func(l *L) {
		n := l.S("EntryCount", 32, Count, SVals(0, 1, 2))
		if n < 0 {
			l.fail(ErrShape)
		}
		l.List("Entries", n, 0, func() {
			k := l.S("KeySize", 32, CountFrom(8), SVals(8, 9, 11))
			if k < 8 {
				l.fail(ErrShape)
			}
			l.Bytes("KeyNamespace", 4, FmtB(quoted))
			l.Bytes("KeyValue", int(k-8), FmtB(quoted))
		})
	}, "keys")
}

func clampInt(n uint64) int {
	if n > math.MaxInt32 {
		return math.MaxInt32
	}
	return int(n)
}

// compressorname is a 32-byte field holding a counted text.
func compressorname(l *L) {
	f := FmtB(func(l *L, v []uint64) (string, bool) {
		if v[0] <= 31 {
			return quoted(l, v[1:v[0]+1])
		}
		return "", false
	})
	if l.Mode != Gen {
		l.UA("Compressorname", 32, 8, f)
		return
	}
	k := []uint64{0, 5, 31, 32, 255}[l.Ch.Choose(5, "compressorname")]
	v := make([]uint64, 32)
	for i := range v {
		v[i] = 0x20 + l.patt("Compressorname", i, 8)%0x5f
	}
	v[0] = k
	if k > 2 {
		if d := l.Ch.Dev(3, "compressorname'"); d > 0 {
			v[2] = []uint64{0x01, 0xff}[d-1]
		}
	}
	for _, e := range v {
		l.put(e, 8)
	}
	l.Cur.Set("Compressorname", v)
}

// sgpd is the sample group description.
func sgpd(l *L) {
	t := genFourCC(l, "GroupingType", "roll", "prol", "alst", "rap ", "tele", "seig")
	defLen := uint64(1)
	noDef := false
	elemLen := 0
	if l.Version == 1 {
		if l.Mode == Gen {
			size := map[string]uint64{"roll": 2, "prol": 2, "rap ": 1, "tele": 1, "alst": 12}[t]
			defLen = l.U("DefaultLength", 32, Vals(size, 0))
		} else {
			defLen = l.U("DefaultLength", 32)
		}
		noDef = defLen == 0
		elemLen = clampInt(defLen)
	}
	if l.Version == 2 {
		l.U("DefaultSampleDescriptionIndex", 32)
	}
	counts := []uint64{0, 1, 2}
	if t == "alst" && l.Version == 2 {
		counts = counts[:2] // without a length, the first entry takes everything to the end of the box
	}
	many := Opt(Count)
	if len(counts) == 2 {
		many = func(*opt) {}
	}
	n := l.U("EntryCount", 32, many, Vals(counts...))
	alst := func() {
		var k, opts uint64
		if l.Mode == Gen {
			// two explored shapes; with a default length, they all have 12 bytes
			if l.Version == 1 && !noDef {
				k = l.U("RollCount", 16, Vals(1, 0, 2))
				opts = 2 - k
			} else {
				k = l.U("RollCount", 16, Vals(0, 1, 2))
				opts = l.genOpts
			}
		} else {
			k = l.U("RollCount", 16)
		}
		l.U("FirstOutputSample", 16)
		l.UList("SampleOffset", int(k), 32)
		m := int64(-1)
		if l.Mode == Gen {
			m = int64(opts)
		}
		l.List("Opts", m, 32, func() { l.U("NumOutputSamples", 16); l.U("NumTotalSamples", 16) })
	}
	switch {
	case (t == "roll" || t == "prol") && !noDef:
		l.SList("RollDistances", clampInt(n), 16)
	case t == "roll" || t == "prol":
		l.List("RollDistancesL", int64(n), 0, func() {
			l.U("DescriptionLength", 32, Vals(2))
			l.S("RollDistance", 16)
		})
	case t == "alst" && !noDef:
		if l.Mode == Gen && l.Version == 2 {
			l.genOpts = uint64(l.Ch.Choose(3, "opts"))
		}
		l.List("AlternativeStartupEntries", int64(n), 0, func() { l.Within(elemLen, alst) })
	case t == "alst":
		l.List("AlternativeStartupEntriesL", int64(n), 0, func() {
			if l.Mode == Gen {
				save := l.out
				nb := l.nbit
				o := l.Cur
				// lay out the entry first to know its length
				l.out, l.nbit = nil, 0
				l.genOpts = uint64(l.Ch.Choose(3, "opts"))
				l.Cur = NewObj()
				alst()
				body, inner := l.out, l.Cur
				l.out, l.nbit, l.Cur = save, nb, o
				l.Cur.Set("DescriptionLength", uint64(len(body)))
				l.put(uint64(len(body)), 32)
				for _, k := range inner.Keys {
					l.Cur.Set(k, inner.Vals[k])
				}
				for _, b := range body {
					l.put(uint64(b), 8)
				}
				return
			}
			k := l.U("DescriptionLength", 32)
			l.Within(clampInt(k), alst)
		})
	case t == "rap ":
		name := "VisualRandomAccessEntries"
		if noDef {
			name += "L"
		}
		l.List(name, int64(n), 0, func() {
			if noDef {
				l.U("DescriptionLength", 32, Vals(1))
			}
			l.B("NumLeadingSamplesKnown")
			l.U("NumLeadingSamples", 7)
		})
	case t == "tele":
		name := "TemporalLevelEntries"
		if noDef {
			name += "L"
		}
		l.List(name, int64(n), 0, func() {
			if noDef {
				l.U("DescriptionLength", 32, Vals(1))
			}
			l.B("LevelIndependentlyDecodable")
			l.U("Reserved", 7, Hid)
		})
	default:
		l.Rest("Unsupported")
	}
}
