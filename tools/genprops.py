#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Decoding a box payload yields exactly the field values on the wire",
 "For every supported box type, decoding a well-formed payload in the context where that type is defined succeeds and returns, for every field of the box's published layout (as selected by its version, flags, counts, discriminators and context), exactly the value encoded at that position. Fields that are not present on the wire are left at their zero value. The reported number of consumed bytes is exactly the length of the laid-out fields, whatever bytes follow.",
 ["inputs","configurations"],"every supported box type x version x optional-flag combination x count/discriminator x context x field value",
 "The unit tests decode one or two hand-picked payloads per box type; a mis-sized, mis-ordered, mis-gated or sign-confused field in an untested version/flag/count/value combination passes them.",
 ["marshaller.go","field.go","box.go","mp4.go","box_types_iso14496_12.go","box_types_iso14496_14.go","box_types_iso14496_30.go","box_types_metadata.go","box_types_3gpp.go","box_types_av1.go","box_types_vp.go","box_types_opus.go","box_types_iso23001_5.go","box_types_iso23001_7.go","box_types_etsi_ts_102_366.go"],
 [("payload decoder","marshaller.go: Unmarshal, UnmarshalAny and helpers"),("field layout declarations","field.go tags, box_types_*.go structs and their dynamic size/length/optional callbacks")],
 observe=["returned box value","returned consumed byte count"])
p("C02","Encoding writes the declared layout and decodes back to the same value",
 "For every supported box type and every value whose lists agree with its count fields, encoding writes exactly the declared layout, reports exactly the number of bytes written, and decoding those bytes gives back an equal value. A list longer than its declared count is written only up to that count. A list at any nesting depth that is shorter than its declared count is reported as an error instead of being written as a corrupt payload.",
 ["inputs","configurations"],"every supported box type x version x flags x counts x field values, incl. lists shorter or longer than their count at every nesting level",
 "Tests encode one sample value per type, so a width, sign, order or error-propagation slip in other values, versions, flags or list lengths is unseen.",
 ["marshaller.go","field.go","box_types_iso14496_12.go","box_types_iso14496_14.go","box_types_metadata.go","box_types_iso23001_7.go"],
 [("payload encoder","marshaller.go: Marshal and helpers"),("per-box write hooks","box_types_*.go OnWriteField")],
 observe=["bytes written","returned byte count","returned error"])
p("C03","Decoding then re-encoding a canonical payload reproduces it byte for byte",
 "Whenever a payload is in canonical form (no data after the last field, text terminated as declared, length integers in their four-byte form, ISO rather than QuickTime header variants), decoding it and encoding the resulting value in the same context gives back exactly the same bytes. Reserved and predefined fields keep whatever value the input carried.",
 ["inputs","configurations"],"every supported box type x version x flags x counts x contexts x field values, including non-standard reserved values",
 "Tests only round-trip the values they list; losslessness must hold for all values including reserved bits tests leave at zero.",
 ["marshaller.go","box_types_iso14496_12.go","box_types_iso14496_14.go","box_types_metadata.go"],
 [("decoder/encoder pair","marshaller.go: Unmarshal + Marshal"),("asymmetric custom hooks","OnReadField/OnWriteField/BeforeUnmarshal in box_types_*.go")])
p("C04","Malformed payloads are refused safely",
 "Decoding any payload that is truncated, or whose counts, lengths or string terminators do not fit into it, never panics, never runs forever, and never allocates memory out of proportion to the bytes actually available. It never succeeds by using bytes beyond the declared payload size: if a fixed-size field or a counted list element is cut off, an error is returned. On success the consumed byte count never exceeds the payload size.",
 ["inputs","fault_sequences"],"every truncation point and every single/double corruption of control fields of every supported box type, with the stream ending at, or continuing past, the payload end",
 "Tests have a few hand-written short inputs; the guarantee is for every cut position and every hostile count in every box type.",
 ["marshaller.go","internal/bitio/read.go","internal/util/io.go","box_types_iso14496_12.go","box_types_metadata.go","box_types_iso14496_14.go"],
 [("overrun and size guards","marshaller.go: readerHasSize, unmarshalSlice, overrun check in Unmarshal"),("custom readers","Hdlr.OnReadName, Emsg.OnReadField, Meta.BeforeUnmarshal")])
p("C05","Box headers are read and written exactly",
 "Reading a box header yields the type, offset, header length, total size and to-end-of-file marker that the header bytes state, in the compact, 64-bit and extends-to-end forms, and leaves the stream positioned at the payload. Writing a header produces the compact form when the size fits and the 64-bit form was not asked for, the 64-bit form otherwise, and the zero-size form for a box that extends to the end; the returned description matches what was written, with the size adjusted to the header actually used. Seeking to a box's start, payload or end lands exactly there.",
 ["inputs","configurations"],"all header forms x boundary sizes (incl. 2^32 boundaries and large offsets) x stream positions x declared header lengths",
 "Tests cover a handful of sizes at small offsets; boundary sizes, offsets beyond 4 GiB and mixed forms are not reached.",
 ["box_info.go"],[("header reader","box_info.go: ReadBoxInfo"),("header writer","box_info.go: WriteBoxInfo"),("seek helpers","box_info.go: SeekToStart/SeekToPayload/SeekToEnd")])
p("C06","Traversal visits every box once, in order, whatever the handler does",
 "Walking a well-formed file calls the handler exactly once for each top-level box and for each child of an expanded box, in file order, depth first, with the correct path, header information, and the parameters passed down by the caller or by the parent's expansion; handler results are returned in order to the expander. This holds regardless of which of the per-box operations (decode payload, copy raw data, expand children) the handler performs, how often, in which order, and where it leaves the stream position. Each operation returns the same correct result whenever it is called, and a handler error stops the walk and is returned.",
 ["inputs","histories","programs"],"all box trees up to a bound x all sequences of per-box handler operations (including seeks, repeats and errors) up to a bound",
 "Tests use fixed handlers that do each operation at most once in the natural order on fixed files; position and memoisation bugs need unusual operation sequences.",
 ["read.go","box_info.go"],[("walker","read.go: ReadBoxStructure, readBoxStructure, readBoxStructureFromInternal"),("handle closures","ReadHandle.ReadPayload/ReadData/Expand")],
 state=[("childrenOffset","where the children of the current box start, memoised by ReadPayload/Expand")],observe=["handler call sequence","operation results"])
p("C07","Boxes are interpreted according to where they occur",
 "The interpretation context of every box visited is determined solely by its position: QuickTime compatibility applies to everything after (and below) a top-level file-type box listing the QuickTime brand, and the wave, item-list, item, free-form-item and user-data markers apply exactly to the descendants of such boxes and never leak to siblings or later boxes. Numbered items are recognised exactly for the indices announced by a preceding sibling keys box. Whether a type is recognised, and with which layout, follows from that context.",
 ["inputs","configurations"],"all nestings and orders of context-setting boxes up to a bound",
 "Tests walk three sample files; leaks need unusual nestings and orders of context-changing boxes.",
 ["read.go","mp4.go","box_info.go","box_types_metadata.go","box_types_3gpp.go"],
 [("context derivation","read.go: readBoxStructureFromInternal and readBoxStructure"),("context-dependent registry lookup","mp4.go: getBoxDef; isUnder* predicates")],state=[("Context","interpretation flags carried from parent to child and between siblings")])
p("C08","Inconsistent box sizes are rejected instead of being misread",
 "A walk that expands a box whose child claims a size smaller than its own header, or larger than the space left in its parent, fails with an error, as does a top-level box whose size is smaller than its header. Bytes left over after the last child that cannot form a header are an error, except in QuickTime-compatible files where they are ignored. A child never causes bytes outside its parent to be visited as boxes.",
 ["inputs","fault_sequences"],"all trees up to a bound x every box's size field x a set of wrong sizes (incl. 0..15, off-by-one, huge, wrapping 64-bit sizes)",
 "Tests try one or two bad sizes; wrap-around sizes and under-header sizes in each position are untested.",
 ["read.go","box_info.go"],[("size checks","read.go: readBoxStructure; box_info.go: ReadBoxInfo")])
p("C09","Path extraction returns exactly the matching boxes",
 "Extracting by one or several paths returns exactly the boxes whose path from the root (or from the given parent) equals one of the requested paths, with the wildcard matching any single type, each once, in file order, with correct header information. No path component may be skipped or partially matched, and an empty list of paths returns nothing while an empty path is an error. Extraction below a parent considers only that parent's descendants.",
 ["inputs","configurations"],"all trees up to a bound x all sets of one or two paths over a small type alphabet incl. wildcard x root/parent starting points",
 "Tests use one tree and a few paths; overlapping path sets, wildcards in each position and repeated types are not covered exhaustively.",
 ["extract.go","read.go","mp4.go"],[("path filter","extract.go: ExtractBoxes, matchPath"),("path comparison","read.go: compareWith; mp4.go: MatchWith")])
p("C10","Extracting with payload gives the same boxes and values as walking",
 "Extraction with payload returns the same boxes, in the same order, as extraction without payload, each paired with the value that decoding that box during a walk of the same file yields, i.e. interpreted in the box's own context. This holds from the root and from a parent box, in QuickTime files, below sound-description wave boxes and below item lists.",
 ["inputs","configurations"],"all context-setting nestings up to a bound x all paths x root/parent starting points",
 "Tests only extract boxes whose interpretation does not depend on context.",
 ["extract.go","read.go"],[("payload extraction","extract.go: ExtractBoxesWithPayload")])
p("C11","Nested box writing produces a well-formed file with correct sizes",
 "For every balanced sequence of starting and ending boxes, writing payload bytes and copying boxes from another file, the produced file is exactly the nesting that was requested: each finished box's header states its real total size, earlier and later bytes are untouched, and the descriptions returned by start and end match the file. If a finished box no longer fits the header form it was started with, finishing it reports an error rather than leaving a silently corrupt size.",
 ["histories","inputs"],"all writer operation sequences up to a depth x header forms x payload sizes (incl. virtual payloads crossing 4 GiB) x starting stream positions",
 "Tests write one fixed file; nesting depth, header kinds, seeks by the caller and 4 GiB crossings are not covered.",
 ["write.go","box_info.go"],[("writer","write.go: Writer.StartBox, EndBox, CopyBox"),("header writer","box_info.go: WriteBoxInfo")],state=[("open box stack","headers whose size is still unknown")])
p("C12","A failing destination is always reported",
 "If any single write or seek on the destination stream fails, or accepts only part of the data, during encoding a payload, writing a header, starting or finishing a box, copying a box, or copying raw payload data, then that operation returns an error. It never reports success for data that was not completely handed to the destination.",
 ["fault_sequences"],"every I/O operation index of every encoding/writing operation over all box types x {error, short write with error, short write without error, seek error}",
 "Tests write only to in-memory buffers that never fail.",
 ["marshaller.go","internal/bitio/write.go","internal/util/io.go","write.go","box_info.go","read.go"],
 [("error propagation on write","marshaller.go marshal*; internal/bitio/write.go; internal/util/io.go WriteString"),("writer","write.go")])
p("C13","A failing source is always reported",
 "If any read or seek on the source stream fails while a header is read, a payload decoded, raw data copied, a box copied, a file walked, boxes extracted, or a file probed, the operation returns an error that carries the source's error, and never reports success with a partial or made-up result. A stream that ends early inside a box that has to be read is likewise reported.",
 ["fault_sequences"],"every I/O operation index of every reading operation over a set of files and box types x {read error, read error with partial data, seek error, premature end}",
 "Tests never inject read or seek failures.",
 ["read.go","box_info.go","marshaller.go","extract.go","probe.go","write.go","internal/bitio/read.go","internal/util/io.go"],
 [("error propagation on read","box_info.go, read.go, marshaller.go, extract.go, probe.go, internal/bitio/read.go")])
p("C14","Results do not depend on how the source delivers its bytes",
 "Decoding, walking, extracting, copying and probing give the same result for every legal reader behaviour: any split of the data into short reads and the final bytes being delivered together with or before the end-of-stream indication. A read that delivers nothing for the moment changes no header and no copied data and never leads to a wrong value (decoding field by field may refuse such a reader). The result never depends on buffering or chunk boundaries.",
 ["schedules","inputs"],"all placements of short reads, empty reads and end-with-data answers up to a bound, over all box types and a set of files",
 "Tests read from in-memory readers that always return full buffers and never combine data with end-of-stream.",
 ["internal/bitio/read.go","internal/util/io.go","marshaller.go","box_info.go","read.go"],
 [("bit reader","internal/bitio/read.go"),("string reader","internal/util/io.go"),("bulk copies","marshaller.go, box_info.go, read.go")])
p("C15","Probing reports the movie and its tracks faithfully",
 "Probing a well-formed file reports the brands, whether the movie header precedes the media data, the movie timescale and duration, and for each track in order its id, timescale, duration, codec, encryption, edit list, chunk offsets with samples per chunk, per-sample duration, composition offset and size, video configuration and dimensions, and audio parameters, exactly as the sample tables state them. A track lacking a mandatory table is reported as an error rather than guessed.",
 ["inputs","configurations"],"all small sample-table shapes (run-length splits, chunk maps, constant/individual sizes, 32/64-bit offsets, versions) x codecs x box orders x missing tables",
 "Tests probe three sample files; run-length boundaries, constant sample size, 64-bit offsets, version-1 headers and missing tables are sampled sparsely or not at all.",
 ["probe.go","extract.go"],[("movie probe","probe.go: Probe, probeTrak")])
p("C16","Probing reports fragments faithfully",
 "Probing a fragmented file reports one entry per movie fragment in file order with its byte offset, track id, decode time, default duration, sample count, total duration, total size and smallest composition offset, computed from the explicit per-sample values where present and from the fragment's defaults otherwise. A fragment without a track fragment header is reported as an error.",
 ["inputs","configurations"],"all combinations of fragment header/run flags and versions x small sample lists x fragment sequences",
 "Tests probe two fragmented samples with fixed flags.",
 ["probe.go"],[("fragment probe","probe.go: probeMoof")])
p("C17","Key-frame search finds exactly the samples containing an IDR picture",
 "For every AVC track description and stream, the key-frame search returns, in increasing order and without duplicates, exactly the indices of the samples that contain at least one IDR unit, honouring the unit length size, chunk offsets and samples per chunk. It terminates with a result or an error on every input, including corrupt unit lengths, and returns nothing for non-AVC tracks.",
 ["inputs"],"all small chunk/sample/unit arrangements x unit length sizes 1..4 x unit types x corrupt lengths (incl. values near 2^32)",
 "Tests use one stream with one arrangement.",
 ["probe.go"],[("IDR search","probe.go: FindIDRFrames")])
p("C18","Bitrate figures are correct and never crash",
 "The average bitrate equals eight times total size times timescale divided by total duration (zero when the duration is zero), for sample lists and for the fragments of the selected track only. The maximum bitrate over fragments is the largest per-fragment bitrate of that track, and over samples of equal duration it is the largest bitrate of any run of samples long enough to cover the requested window (the whole list when it is shorter). All of these return a value for every input, including zero durations.",
 ["inputs"],"all sample/fragment lists up to a length over a small alphabet of sizes and durations x timescales x windows",
 "Tests check a couple of lists; window sliding edge cases and zero durations are untested.",
 ["probe.go"],[("bitrate functions","probe.go: Samples.GetBitrate/GetMaxBitrate, Segments.GetBitrate/GetMaxBitrate")])
p("C19","AAC profile detection follows the audio configuration",
 "For every audio sample description, the reported object type indications follow the decoder configuration bit by bit: the plain object type when the stream is not MPEG-4 audio, otherwise the audio object type (including the escape form), upgraded to spectral-band replication or parametric stereo exactly when the backward-compatible extension signalling is present and switched on. Configurations too short to contain their mandatory fields are reported as errors.",
 ["inputs"],"all audio configurations over the alphabet of decision points (object types, escape, frequency escape, sync words, flags, lengths)",
 "Tests check a dozen configurations; the decision tree has many more branches and truncation points.",
 ["probe.go"],[("AAC decision tree","probe.go: detectAACProfile, getAudioObjectType")])
p("C20","Text rendering shows exactly the decoded values",
 "For every supported box value, the textual rendering lists exactly the visible fields present for its version, flags and context, in declared order, as Name=value with each value's actual content in the field's notation (decimal, hexadecimal, fixed-point, language code, UUID, quoted text with unprintable characters masked, nested lists and structures). Hidden and constant fields are omitted. The indented form carries the same content with one field per line.",
 ["inputs","configurations"],"every supported box type x version x flags x counts x context x field values",
 "Tests compare one rendering per type.",
 ["string.go","internal/util/string.go","box_types_iso14496_12.go","box_types_iso14496_14.go","box_types_metadata.go","box_types_iso23001_7.go"],
 [("renderer","string.go: Stringify, StringifyWithIndent"),("per-box rendering","StringifyField methods; internal/util/string.go")])
p("C21","Bit-level reading and writing is exact for every operation sequence",
 "For every sequence of bit, multi-bit and byte operations, the bit writer emits exactly the concatenation of the given bits, most significant first, and the bit reader returns exactly the corresponding bits of its source; whole-byte operations and relative seeks are refused in the middle of a byte and otherwise act on the current byte position, and an absolute seek discards pending bits. What is written with any sequence of widths can be read back with any other.",
 ["histories","inputs"],"all operation sequences up to a depth over widths 0..65, byte reads/writes and seeks, against a bit-array model",
 "Tests run one fixed sequence.",
 ["internal/bitio/read.go","internal/bitio/write.go"],[("bit reader","internal/bitio/read.go"),("bit writer","internal/bitio/write.go")],state=[("pending octet/width","bits of the current byte not yet consumed or flushed")])
p("C22","User-defined boxes are encoded and decoded as their declarations say",
 "A box type registered by an application is decoded, encoded and rendered according to its declared layout for every combination of the documented field declarations (order, bit size, length, optional by flag, by version or dynamic, signed, boolean, text, variable-length integer, arrays, lists, nested structures and pointers, dynamic size and length, embedded extensions). The most recently registered definition applicable in the current context is the one used, version lists are honoured, and unregistered types are reported as unknown.",
 ["programs","inputs","configurations"],"all struct declarations from a field alphabet up to a length x versions x flags x values; all registration sequences up to a depth x contexts",
 "Tests define a few ad-hoc structs.",
 ["mp4.go","field.go","marshaller.go","string.go","box.go","anytype.go"],[("registry","mp4.go: AddBoxDef*, getBoxDef, New, IsSupported*"),("tag interpretation","field.go, marshaller.go")])
p("C23","Independent operations can run concurrently",
 "Any number of goroutines decoding, encoding, walking, extracting, probing and rendering, each on its own streams and values, obtain exactly the results they would obtain alone, under every interleaving, without data races. No operation's outcome depends on what another goroutine is doing at the same time.",
 ["schedules"],"all interleavings at I/O and callback boundaries of 2-3 concurrent operations up to a preemption bound, for all pairs from an operation alphabet, plus a race-detector pass",
 "Tests are strictly sequential.",
 ["mp4.go","marshaller.go","field.go","string.go","read.go","probe.go"],[("shared definition tables","mp4.go: boxMap and field descriptors"),("per-call state","marshaller/unmarshaller/stringifier structs")],state=[("boxMap","definitions shared by all calls")])
p("C24","The edit tool changes only what was asked",
 "Without options, editing a well-formed file in canonical form reproduces it byte for byte, including unknown boxes, media data and header forms. Dropping box types removes exactly the boxes of those types that are reached, with all enclosing sizes corrected and nothing else changed, and setting the decode time changes exactly that value in every track-fragment decode-time box. A decode time that does not fit, or a file that cannot be processed completely, makes the tool fail with an error message and a non-zero exit status, never with a crash.",
 ["inputs","configurations"],"all small trees x drop sets x decode-time values x box versions",
 "There are few tests of the command-line tools, on sample files only.",
 ["cmd/mp4tool/internal/edit/edit.go","write.go","read.go"],[("edit tool","cmd/mp4tool/internal/edit/edit.go: Main, editFile")])
p("C25","The divide tool splits fragments by track without loss",
 "Dividing a fragmented file writes, for every supported track, an initialization file holding the file-level and movie boxes with only that track's description and correct sizes, and one segment file per fragment of that track, numbered in order, holding that fragment's header and media data byte for byte. The playlists list exactly those segments in order with durations computed from the fragment's sample durations. A file with an unexpected box at the top level or directly below the movie box, or with impossible box sizes, makes the tool fail with an error message and non-zero exit status, never with a crash.",
 ["inputs","configurations"],"all small fragment sequences over one video and/or one audio track (plain and encrypted) x movie-box orders x duration encodings",
 "Only one sample file is exercised.",
 ["cmd/mp4tool/internal/divide/divide.go"],[("divide tool","cmd/mp4tool/internal/divide/divide.go: Main, divide")])
p("C26","The dump tool shows every box truthfully",
 "Dumping a file prints one line per box, in file order, indented by depth, with the box type, its size (and offset on request, in decimal or hexadecimal), and, as selected by the options, the full rendering of its fields or raw bytes, or an explicit abbreviation notice. Boxes with unknown types or unsupported versions are labelled as such and do not stop the dump. Malformed files end with an error message and non-zero exit status, never with a crash.",
 ["inputs","configurations"],"all small trees x option combinations x malformed sizes",
 "Tests compare the dump of one sample file with a few options.",
 ["cmd/mp4tool/internal/dump/dump.go","cmd/mp4tool/internal/util/util.go"],[("dump tool","cmd/mp4tool/internal/dump/dump.go: Main, dump")])
p("C27","The extract and pssh tools output exactly the requested boxes",
 "Extracting a box type outputs the complete bytes of every box of that type that is reached in the tree, concatenated in file order, and nothing else. The pssh listing prints, for every protection box directly below the movie and movie-fragment boxes in file order, its offset, size, version, flags, system id, data size and the exact base64 of its bytes. Malformed files end with an error message and non-zero exit status, never with a crash.",
 ["inputs","configurations"],"all small trees with repeated/nested/unknown types x requested type; all pssh versions and positions; malformed sizes",
 "Tests exercise one sample each.",
 ["cmd/mp4tool/internal/extract/extract.go","cmd/mp4tool/internal/psshdump/psshdump.go","cmd/mp4tool/internal/util/util.go"],[("extract tool","cmd/mp4tool/internal/extract/extract.go"),("pssh tool","cmd/mp4tool/internal/psshdump/psshdump.go")])
p("C28","Flag and brand sets behave as sets",
 "For every history of setting, adding and removing flags on a box with version and flags, the flags read back are exactly the 24-bit set the history implies, a flag query answers whether any of the asked bits is set, the version is unaffected, and the encoded header carries exactly those bits. For every history of adding and removing brands on a file-type box, a brand is reported present exactly if it was added (or initially present) and not removed since, removal removes all copies and no other brand, and adding never creates a duplicate.",
 ["histories"],"all operation sequences up to a depth over a small alphabet of flags and brands from several initial states, explored to a fixpoint of reachable states",
 "Tests run one short sequence.",
 ["box.go","box_types_iso14496_12.go"],[("flag operations","box.go: FullBox.SetFlags/AddFlag/RemoveFlag/CheckFlag/GetFlags"),("brand operations","box_types_iso14496_12.go: Ftyp.AddCompatibleBrand/RemoveCompatibleBrand/HasCompatibleBrand")],state=[("flags","24-bit set"),("brands","ordered list with possible initial duplicates")])
p("C29","Unsupported versions and unknown types are reported distinctly and harmlessly",
 "For every box type that declares supported versions, decoding accepts exactly those versions; any other version is reported with the dedicated unsupported-version error and leaves the stream at the start of the payload. A type that is not defined in the current context is reported with the dedicated not-found error and does not consume input. The support queries (type, version, version list, creation) agree with this behaviour for every type, version and context.",
 ["inputs","configurations"],"all box types x all 256 versions x all contexts",
 "Tests try one unsupported version of one box.",
 ["mp4.go","marshaller.go"],[("version gate","marshaller.go: unmarshalStruct/Unmarshal"),("registry queries","mp4.go: IsSupported, IsSupportedVersion, GetSupportedVersions, New")])
p("C30","Every operation terminates on every input",
 "Walking, extracting, probing and decoding arbitrary byte sequences always finishes with a result or an error after a number of steps and an amount of memory in proportion to the input, and never panics. No sequence of header fields, such as zero, tiny, huge or wrapping sizes in any position, can make the library loop or revisit the same box.",
 ["inputs"],"all byte files that are sequences of header/field tokens from a hostile alphabet up to a length; all token substitutions in real files",
 "Tests contain no adversarial files.",
 ["read.go","box_info.go","marshaller.go","probe.go","extract.go"],[("progress of the walker","read.go: readBoxStructure"),("header validation","box_info.go: ReadBoxInfo"),("list decoding loops","marshaller.go: unmarshalSlice")])
p("C31","Version-independent accessors return the value that is on the wire",
 "For every box that offers accessors hiding the 32/64-bit or signed/unsigned variants of a field, the accessor returns the value present for the box's version, sign- or zero-extended as declared, for every entry index. Fixed-point accessors return exactly the stored number divided by its scale, and their integer forms the integral part as the arithmetic shift of the stored number. Accessors of space-separated lists return exactly the words of the stored text in order.",
 ["inputs","configurations"],"all accessors x versions x boundary values x entry indices",
 "Tests check single values.",
 ["box_types_iso14496_12.go"],[("accessors","box_types_iso14496_12.go: Get* methods")])
p("C32","The probe tool's report reflects the file",
 "The report printed by the probe tool states the brands, start-up layout, timescales, durations, and per track the codec string, encryption, dimensions, sample, chunk and key-frame counts and bitrates that follow from the file's tables, or from its fragments when the sample tables are empty, in both output formats. A file that cannot be probed makes the tool fail with a non-zero exit status and an error message.",
 ["inputs","configurations"],"all small movie/fragment shapes x codecs x both formats",
 "Tests compare a report of one sample.",
 ["cmd/mp4tool/internal/probe/probe.go","probe.go"],[("probe tool","cmd/mp4tool/internal/probe/probe.go: Main, buildReport")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        assert x["statement"].count(". ")<=2,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
