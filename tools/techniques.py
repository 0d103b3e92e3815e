T["C01"]=("exhaustive enumeration of box values within a deviation bound, executed on the real decoder and compared with an executable layout model","all versions, flags, counts 0-2 and discriminators; every field at boundary values, one (thorough: two) at a time; every small payload over a 4-letter alphabet")
T["C02"]=("exhaustive enumeration of box values within a deviation bound, executed on the real encoder and compared with an executable layout model","as C01, times every list lengthened or shortened")
T["C03"]=("exhaustive enumeration of payloads within a deviation bound, decoded and re-encoded by the real code","generated, byte-changed and small payloads in canonical form")
T["C04"]=("exhaustive enumeration of malformed payloads (every truncation, every byte and word replacement within a bound) executed on the real decoder with step and memory monitors","outcome compared with an executable layout model")
T["C20"]=("exhaustive enumeration of box values within a deviation bound, rendered by the real code and compared with an executable notation model","as C01, times four indentations")
T["C29"]=("exhaustive enumeration of types, contexts and versions on the real code against an executable definition table","all 64 contexts x 5 key counts x all types and neighbours; all 256 versions")
T["C05"]=("exhaustive enumeration of headers (all size forms, boundary sizes, offsets, cuts) executed on the real reader and writer and compared with an executable header model","all header bytes pairwise; sizes and offsets at every boundary")
T["C06"]=("exhaustive exploration of all handler behaviours over all small box forests on the real traversal, every handler call monitored against an independent parse","forests up to 4 (5) boxes, operation scripts up to 4 (6)")
T["C07"]=("exhaustive enumeration of all small box forests over context-setting and context-dependent kinds, every box's interpretation compared with a reference state machine","forests up to 4 (5) boxes over 21 kinds")
T["C08"]=("exhaustive enumeration of size corruptions of all small box forests, every handler call and outcome compared with a reference reader","1 (2) corrupted boxes, 26 sizes, both header forms")
T["C09"]=("exhaustive enumeration of forests times path lists, results of the real extraction compared with a reference path matcher","forests up to 3 (4) boxes, paths up to 3 components, up to 3 paths")
T["C10"]=("exhaustive enumeration of forests, paths and parents, extraction with payload compared with the walk's boxes and a layout model","forests up to 4 (5) boxes over 15 kinds")
T["C11"]=("exhaustive exploration of all operation histories of the box writer up to a depth on the real code, the whole file compared with a byte model after every history","histories up to 5 (7) operations; boxes beyond 2^32 on a sparse stream")
T["C12"]=("exhaustive fault injection: every single destination fault of every writing scenario on the real code","every write or seek failing with nothing or part transferred")
T["C13"]=("exhaustive fault injection: every single source fault and every early end of every reading scenario on the real code","every read or seek failing once or for good")
T["C14"]=("exhaustive exploration of delivery schedules: every chunk size and every 1 (2) shortened reads of every reading scenario on the real code","result compared with undisturbed delivery")
T["C15"]=("exhaustive enumeration of movie descriptions within a deviation bound, the real Probe's report compared with the tables the file was built from","0-3 tracks, 2 (3) departures; all small table combinations; all sets of missing tables")
T["C16"]=("exhaustive enumeration of fragment descriptions (all flag combinations, small sample lists, fragment sequences), the real Probe's report compared with the reference","up to 3 samples and 3 fragments")
T["C17"]=("exhaustive enumeration of small NAL-unit streams, chunk layouts and corruptions, the real key-frame search compared with a reference scanner","up to 3 samples of 2 (3) units; corrupt samples up to 6 (7) bytes")
T["C18"]=("exhaustive enumeration of sample and fragment lists over boundary values, the real bit-rate functions compared with exact integer arithmetic","lists up to 4 (5), equal durations up to 7 (8)")
T["C19"]=("exhaustive enumeration of audio configurations, the real Probe's profile compared with a bit-by-bit reference","every configuration of up to 2 bytes; every syntax path within 3 departures")
T["C28"]=("exhaustive exploration of all histories of set operations up to a depth on the real boxes, compared with set models after every operation","flag histories up to 3 (5), brand histories up to 4 (5) on every list of up to 4 (5) brands")
T["C30"]=("exhaustive enumeration of malformed inputs within a bound, every library operation run on each under step, visit, byte and memory monitors","all short word sequences, header sequences, word changes and cuts of files")
T["C31"]=("exhaustive enumeration of payloads within a deviation bound and of all fixed-point halves, every accessor of the decoded box compared with the bytes","both versions, 0-3 (4) entries, 12 values per field two (three) at a time")
T["C22"]=("exhaustive enumeration of struct declarations over a field alphabet, of field widths and alignments, and of registration histories, executed on the real codec and registry and compared with executable layout and registry models","2938 declarations, all widths, 12 hand-written declarations, histories up to 2 (3) registrations")
T["C21"]=("exhaustive enumeration of operation sequences up to a depth on the real bit reader and writer, compared with a bit-list model after every operation","sequences up to 3 (4) operations over 33 operations and up to 6 (8) over fewer; all compositions of 11 (13) bits read back by all compositions")
T["C23"]=("exhaustive exploration of all interleavings at stream operations and callbacks up to a switch bound of all pairs and triples of operations on the real code under a controlled scheduler, each result compared with the one obtained alone; every pair also under the race detector with a scheduler it does not see","35 operations, all types; 1-2 (2-3) switches")
T["C24"]=("exhaustive enumeration of box forests, options and corruptions, each edited by the real tool in a scratch directory and compared byte by byte with a reference edit","forests up to 3 (4) boxes, drop sets up to 2 types, 9 decode times")
T["C25"]=("exhaustive enumeration of fragment sequences, duration encodings and box arrangements, each divided by the real tool in a scratch directory, every output file compared with the reference","up to 4 (5) fragments, 12 track sets, 24x24 duration encodings")
T["C26"]=("exhaustive enumeration of box forests, types, options and corruptions, each dumped by the real tool and compared line by line with a reference rendering","forests up to 3 (4) boxes over 15 kinds, all types, 19 sizes")
T["C27"]=("exhaustive enumeration of box forests, requested types and corruptions, output of the real tool compared byte by byte with a reference walk","forests up to 3 (4) boxes over 17 kinds; nested up to 4 (5)")
T["C32"]=("exhaustive enumeration of movie and fragment descriptions within a deviation bound, the real tool's parsed report compared with the tables the file was built from","0-3 tracks, 2 (3) departures; up to 3 (4) samples; both formats")
