//go:build go1.22

package main

import "github.com/abema/go-mp4/internal/zzverif/mc"

func main() {
	mc.Main([]*mc.Check{
		{ID: "C01", Units: c01, Rule: "for every supported type in every context where it is defined: every combination of version, flags, counts (0..2) and discriminators, with every field at its boundary values one (thorough: two) at a time, times what follows the fields; every text and list at 40 lengths up to 70000; and every payload of up to 5 (7) bytes over {0,1,2,255}; each decoded by the real code and compared field by field with an independent layout model; the default payloads with any byte in any place and any two of 12 (22) bytes in any two places in a row"},
		{ID: "C02", Units: c02, Rule: "every generated value (see C01), with each list grown or shrunk by one and absent fields set, every text and list at lengths up to 70000; encoded by the real code and compared byte by byte with the layout model, then decoded back; any byte, and any of 12 (22) pairs of bytes, in any place"},
		{ID: "C03", Units: c03, Rule: "every generated payload, every payload with one (two) bytes replaced by 5 values each, and every small payload; those in canonical form are decoded and re-encoded; the default payloads with any byte in any place and any two of 12 (22) bytes in any two places in a row"},
		{ID: "C04", Units: c04, Rule: "every truncation, every single (double) byte replacement, every 32-bit window replaced by 8 extreme values, and every small payload, of every type, followed by nothing, zeros or text; outcome compared with the layout model; operations and memory bounded; any byte, and any of 12 (22) pairs of bytes, in any place"},
		{ID: "C20", Units: c20, Rule: "every generated value (see C01) (long texts and lists included) rendered with 4 indentations and compared with the notation model; any byte, and any of 12 (22) pairs of bytes, in any place of a payload"},
		{ID: "C29", Units: c29, Rule: "every type code (supported, context-bound, neighbours, unknown) in all 64 contexts times 5 key counts, all 256 versions; types registered with every list of up to 4 (5) of 6 versions in any order"},
		{ID: "C06", Units: c06, Rule: "every forest of up to 2 boxes with every script of up to 2 operations at every visit; every forest of up to 4 (5) boxes with 1 (2) visits deviating from the default operation; every script of up to 4 (6) operations on one box with children; the sample files; and walks from a given box; every handler call and operation result monitored against an independent reading of the file; every operation on boxes whose visit is over; chains of up to 257 boxes, rows of up to 4097 boxes and boxes of up to 1 MB (bulky files) with an unusual operation at the ends and in the middle; what a handler was told is the same after its Expand"},
		{ID: "C07", Units: c07, Rule: "every forest of up to 4 (5) boxes over 21 kinds of context-setting and context-dependent boxes, every filling of an item-list skeleton, and every forest of up to 5 (6) sound descriptions and wave boxes; context, support and decoded value of every box compared with the reference; bulky files (as C06)"},
		{ID: "C08", Units: c08, Rule: "every forest of up to 4 boxes with the size of one (two) boxes replaced by each of 26 values in both header forms, and with 0..17 bytes left over after the children of any box; every handler call and outcome compared with the reference; a wrong size in bulky files (as C06); containers of up to 1 TB whose children do or do not add up"},
		{ID: "C09", Units: c09, Rule: "every forest of up to 3 (4) boxes over 5 kinds with every path of up to 3 components over 7 (incl. the wildcard and an absent type), every list of up to 2 paths of up to 2 components, every list of 3 short paths; deep chains with paths one edit away; the sample files; each from the root and from every box as parent; every extraction after another one from the same parent; bulky files (as C06), up to 300 paths"},
		{ID: "C10", Units: c10, Rule: "every forest of up to 4 (5) boxes over 15 context-setting and context-dependent kinds, item lists and sound descriptions in place, and the sample files; each single path, all paths at once and wildcard paths, from the root and from every box as parent; values compared with the layout model in the box's own context; bulky files (as C06), up to 300 paths"},
		{ID: "C05", Units: c05, Rule: "every header of 25 compact sizes or 26 64-bit sizes, 7 types, 13 stream offsets up to the largest, cut at every byte or followed by 4 amounts of data; every pair of header bytes at every pair of values; every description of 20 sizes, 3 header lengths, to-end or not written at every offset and read back; seeking to the parts of boxes at 9 offsets, of 13 sizes and 3 header lengths in streams of 5 lengths"},
		{ID: "C11", Units: c11, Rule: "every sequence of up to 5 (7) start/end/write/copy/patch operations, also into existing content; every sequence of up to 5 (6) with every header form and 1 (2) unusual initial sizes; every sequence of up to 7 (8) operations with seeks back and forth inside the open box; boxes of sizes around 2^32 nested at several offsets; compared byte by byte with a model of the file; bulky files (as C06), copies of up to 4 MB"},
		{ID: "C12", Units: c12, Rule: "for every type with every version, flags, counts and discriminators, for every writer program of up to 4 (5) operations, every header form, and the raw data of every box of the sample files: every single write or seek made to fail with nothing or half transferred; data of up to 1 MB; destinations that take only part of the data with or without an error"},
		{ID: "C13", Units: c13, Rule: "for every type (as C12), every forest of up to 2 (3) boxes with 6 kinds of operations on it, the sample files and a key-frame search: every single read or seek made to fail, once or for good, with nothing or half transferred; and every length at which the file may end early; the first requests refused; the same operation again after a failure; long tables and texts; copies of known boxes from a source that ends early"},
		{ID: "C14", Units: c14, Rule: "for every type, malformed payloads, forests, sample files and a key-frame search: 18 chunk sizes, and 1 (2) reads anywhere shortened in 3 ways, with the end of the stream delivered along with or after the last bytes; reads that deliver nothing first, in turn or anywhere; bulky files and long tables, whose reads are delivered in chunks up to 64 kB"},
		{ID: "C15", Units: c15, Rule: "movies of 0-3 tracks with every field and table at boundary values, two (three) departures from the plain movie at a time; every combination of up to 3 chunks, stsc, stts, ctts and stsz tables with up to 2 (3) entries each; every set of missing tables of one and two tracks; every byte of the codec configuration; the report compared with the tables the file was built from; edit lists of every small shape; tables far behind other data"},
		{ID: "C16", Units: c16, Rule: "fragments with every combination of tfhd, tfdt and trun flags and up to 3 samples; per-sample durations and offsets over 3 values each, sizes and defaults at boundary values one (two) at a time; every sequence of up to 3 fragments of 5 (7) sorts; fragments and data at distances around the powers of two"},
		{ID: "C17", Units: c17, Rule: "every stream of up to 3 samples of up to 2 (3) units over 7 (9) kinds, every division into chunks, every unit length size; chunk layout varied 1 (2) ways; every corrupt sample of up to 6 (7) bytes over 4 values; wrapping lengths, sizes and offsets; files probed first; samples that end inside a unit must be refused"},
		{ID: "C18", Units: c18, Rule: "every list of up to 4 (5) samples and fragments over boundary sizes and durations; every list of up to 7 (8) equal durations with every window; any durations; track ids 0 and 2^32-1"},
		{ID: "C19", Units: c19, Rule: "every audio configuration of up to 2 bytes; every path through the syntax of the configuration, cut or extended; all object types and descriptor combinations; every byte and bit of known configurations changed; compared with a bit-by-bit reference through the report of Probe; other descriptors in front of and behind the configuration"},
		{ID: "C22", Units: c22, Rule: "2938 struct declarations (all of up to 2 fields over 39 field forms, of 3 fields over 11) with every version, flag set, dynamic length, size and presence, decoded, encoded, rendered, cut, followed by more, and with bytes changed; every width of every kind at every distance from a byte boundary; 15 hand-written declarations (three of them under the same name) with nesting, extension, hooks and texts; every history of up to 2 (3) registrations over 3 payloads, 6 applicabilities, 3 version lists in 6 contexts"},
		{ID: "C28", Units: c28, Rule: "every history of up to 3 (5) set, add, remove and version operations over 10 values on two boxes, of up to 2 operations on every type in every supported version; every value of each byte of the flags; every initial brand list of up to 4 (5) entries with every history of up to 4 (5) additions and removals; compared with set models after every operation; lists of up to 300 (65537) brands"},
		{ID: "C30", Units: c30, Rule: "every sequence of up to 4 (5) words over 20 sizes and types; every sequence of up to 3 headers over 13 types and 15 sizes in both forms; three files and the sample files with any 32 bits (thorough: two places) replaced by each of 12 values, and with any stretch left out; any chunk and sample tables for the key-frame search; every operation of the library on each, its steps, visits, bytes read and memory monitored; 15 things in numbers of 2000 and 16000 under 8 operations, whose memory must grow along; 136 operations on 8000 and 64000 of something, whose processor time must not grow with the square"},
		{ID: "C31", Units: c31, Rule: "every layout of the boxes with accessors (both versions, flag combinations, number widths), 0-3 (4) entries, fields at 12 values two (three) at a time, every accessor for every entry in both orders; every integral and fractional half of 16.16 numbers, every 8.8 balance; every list text of up to 7 (9) characters; lists of up to 70000 entries"},
	})
}
