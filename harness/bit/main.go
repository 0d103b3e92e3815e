//go:build go1.22

// Command bit decides the property of bit-level reading and writing.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/abema/go-mp4/internal/bitio"
	"github.com/abema/go-mp4/internal/zzverif/mc"
)

func depth(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// ---- bit lists

type bits []byte // one element per bit

func (b bits) bytes() []byte { // whole bytes only
	out := make([]byte, len(b)/8)
	for i := range out {
		for j := 0; j < 8; j++ {
			out[i] = out[i]<<1 | b[8*i+j]
		}
	}
	return out
}

func fromBytes(p []byte) (b bits) {
	for _, c := range p {
		for j := 7; j >= 0; j-- {
			b = append(b, c>>uint(j)&1)
		}
	}
	return b
}

// packed right-aligns bits in the fewest bytes.
func (b bits) packed() []byte {
	n := (len(b) + 7) / 8
	return append(make(bits, n*8-len(b)), b...).bytes()
}

var errSource = errors.New("source failure")

// source is a stream with faults.
type source struct {
	data    []byte
	pos     int
	eofWith bool // the end is reported along with the last byte
	failAt  int  // position at which reading fails, -1 never
}

func (s *source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.failAt >= 0 && s.pos >= s.failAt {
		return 0, errSource
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	end := len(s.data)
	if s.failAt >= 0 && s.failAt < end {
		end = s.failAt
	}
	n := copy(p, s.data[s.pos:end])
	s.pos += n
	if s.eofWith && s.pos == len(s.data) {
		return n, io.EOF
	}
	return n, nil
}

func (s *source) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(s.pos)
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, errSource
	}
	s.pos = int(off)
	return off, nil
}

// ---- reading

var widths = []uint{0, 1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 24, 33, 64, 65}

type seekOp struct {
	off    int64
	whence int
}

var seeks = []seekOp{{0, io.SeekCurrent}, {1, io.SeekCurrent}, {-1, io.SeekCurrent}, {0, io.SeekStart}, {1, io.SeekStart}, {3, io.SeekStart}, {0, io.SeekEnd}, {-2, io.SeekEnd}, {-1, io.SeekStart}, {-100, io.SeekEnd}, {-100, io.SeekCurrent}}

var sources = [][]byte{{0xb5, 0x63, 0xd5}, {0x01, 0xfe, 0x80, 0x7f, 0xaa, 0x55, 0x3c, 0xc3, 0x5a, 0xff}, {0xff}, {}}

func readBody(max int, ws []uint, reads []int, sks []seekOp, srcs [][]byte) func(x *mc.X) {
	return func(x *mc.X) {
		si := x.Choose(len(srcs), "source")
		src := &source{data: srcs[si], failAt: -1}
		sort := x.Choose(3, "delivery")
		src.eofWith = sort == 1
		if sort == 2 {
			src.failAt = len(src.data) - 1
			if src.failAt < 0 {
				x.Skip()
			}
		}
		seekable := x.Choose(2, "seekable") == 1
		var r bitio.Reader
		var rs bitio.ReadSeeker
		if seekable {
			rs = bitio.NewReadSeeker(src)
			r = rs
		} else {
			r = bitio.NewReader(struct{ io.Reader }{src})
		}
		all := fromBytes(src.data)
		end := len(all) // bits that can be delivered
		var endErr error = io.EOF
		if src.failAt >= 0 {
			end, endErr = src.failAt*8, errSource
		}
		p := 0 // bit position
		lost := false
		n := 1 + x.Choose(max, "ops")
		nop := 1 + len(ws) + len(reads)
		if seekable {
			nop += len(sks)
		}
		x.Describe("source %x delivery %d", src.data, sort)
		for i := 0; i < n; i++ {
			op := x.Choose(nop, "op")
			if lost && op < 1+len(ws)+len(reads) {
				x.Skip() // what follows a failed read is not specified, except after an absolute seek
			}
			switch {
			case op <= len(ws): // a bit, or several
				w := uint(1)
				var got []byte
				var err error
				if op == 0 {
					var b bool
					b, err = r.ReadBit()
					got = []byte{0}
					if b {
						got[0] = 1
					}
					x.Describe("ReadBit = %v, %v", b, err)
				} else {
					w = ws[op-1]
					got, err = r.ReadBits(w)
					x.Describe("ReadBits(%d) = %x, %v", w, got, err)
				}
				avail := end - p
				if avail < 0 {
					avail = 0
				}
				if int(w) > avail {
					x.Outcome("short", w)
					if !errors.Is(err, endErr) {
						x.Fail("read:end", "%d bits of %d: error %v, want %v", w, avail, err, endErr)
					}
					lost = true
					continue
				}
				if err != nil {
					x.Fail("read:error", "%d bits of %d: %v", w, avail, err)
				}
				if w == 0 {
					if len(got) != 0 {
						x.Fail("read:bits", "no bits: got %x", got)
					}
					continue
				}
				if want := all[p : p+int(w)].packed(); !bytes.Equal(got, want) {
					x.Fail("read:bits", "bits %d to %d: got %x, want %x", p, p+int(w), got, want)
				}
				p += int(w)
				x.Outcome("bits", w, p%8)
			case op < 1+len(ws)+len(reads):
				k := reads[op-1-len(ws)]
				buf := bytes.Repeat([]byte{0xee}, k)
				m, err := r.Read(buf)
				x.Describe("Read(%d) = %d %x, %v", k, m, buf, err)
				if p%8 != 0 {
					x.Outcome("refused")
					if !errors.Is(err, bitio.ErrInvalidAlignment) || m != 0 {
						x.Fail("read:alignment", "bytes read in the middle of a byte: n=%d, %v", m, err)
					}
					continue
				}
				avail := (end - p) / 8
				if avail <= 0 {
					if m != 0 || !errors.Is(err, endErr) {
						x.Fail("read:end", "bytes read at the end: n=%d, %v, want %v", m, err, endErr)
					}
					x.Outcome("end")
					continue
				}
				want := k
				if want > avail {
					want = avail
				}
				if m != want || !bytes.Equal(buf[:m], all[p:p+8*m].bytes()) || err != nil && !errors.Is(err, io.EOF) {
					x.Fail("read:bytes", "at byte %d: n=%d %x, %v", p/8, m, buf[:m], err)
				}
				p += 8 * m
				x.Outcome("bytes", m)
			default:
				s := sks[op-1-len(ws)-len(reads)]
				at, err := rs.Seek(s.off, s.whence)
				x.Describe("Seek(%d, %d) = %d, %v", s.off, s.whence, at, err)
				if lost && s.whence == io.SeekCurrent {
					x.Skip()
				}
				if s.whence == io.SeekCurrent && p%8 != 0 {
					x.Outcome("refused")
					if !errors.Is(err, bitio.ErrInvalidAlignment) {
						x.Fail("seek:alignment", "relative seek in the middle of a byte: %d, %v", at, err)
					}
					continue
				}
				to := s.off
				switch s.whence {
				case io.SeekCurrent:
					to += int64(p / 8)
				case io.SeekEnd:
					to += int64(len(src.data))
				}
				if to < 0 {
					x.Outcome("bad seek")
					if !errors.Is(err, errSource) {
						x.Fail("seek:error", "seek before the start: %d, %v", at, err)
					}
					continue // pending bits stay
				}
				if err != nil || at != to {
					x.Fail("seek:position", "seek gave %d, %v, want %d", at, err, to)
				}
				p, lost = int(to)*8, false
				x.Outcome("seek", s.whence)
			}
			x.State(si, sort, p, seekable)
		}
		// what is left comes out unchanged
		if !lost && p <= end {
			for ; p < end; p++ {
				b, err := r.ReadBit()
				if err != nil || b != (all[p] == 1) {
					x.Fail("read:rest", "bit %d: %v, %v", p, b, err)
				}
			}
			if _, err := r.ReadBit(); !errors.Is(err, endErr) {
				x.Fail("read:end", "a bit after the end: %v, want %v", err, endErr)
			}
		}
	}
}

// ---- writing

type sink struct {
	buf    []byte
	failAt int
}

func (s *sink) Write(p []byte) (int, error) {
	if s.failAt >= 0 && len(s.buf)+len(p) > s.failAt {
		return 0, errSource
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

type writeOp struct {
	kind byte // b: one bit; w: several; p: bytes
	w    uint
	data []byte
}

func writeOps(ws []uint, nbytes int) (out []writeOp) {
	out = append(out, writeOp{'b', 0, nil}, writeOp{'b', 1, nil})
	for _, w := range ws {
		for _, pat := range [][]byte{{0xa5, 0x5c, 0x93, 0x6e, 0xd1, 0x2b, 0x74, 0xe8, 0x39, 0xc6}, {0x5a, 0xa3, 0x6c, 0x91, 0x2e, 0xd4, 0x8b, 0x17, 0xc6, 0x39}} {
			n := int(w+7) / 8
			out = append(out, writeOp{'w', w, pat[:n]}) // leading bits beyond the width are not part of the value
			out = append(out, writeOp{'w', w, pat[:n+1]})
		}
	}
	for k := 1; k <= nbytes; k++ {
		out = append(out, writeOp{'p', 0, []byte{0x81, 0x7e, 0xf0}[:k]})
	}
	return out
}

func writeBody(max int, ops []writeOp, faults bool) func(x *mc.X) {
	return func(x *mc.X) {
		s := &sink{failAt: -1}
		if faults {
			s.failAt = x.Choose(6, "fault")
		}
		w := bitio.NewWriter(s)
		var want bits
		n := 1 + x.Choose(max, "ops")
		for i := 0; i < n; i++ {
			op := ops[x.Choose(len(ops), "op")]
			var add bits
			var err error
			switch op.kind {
			case 'b':
				err = w.WriteBit(op.w == 1)
				add = bits{byte(op.w)}
			case 'w':
				in := append([]byte{}, op.data...)
				err = w.WriteBits(in, op.w)
				add = fromBytes(op.data)
				add = add[len(add)-int(op.w):]
				if !bytes.Equal(in, op.data) {
					x.Fail("write:argument", "the data given was changed")
				}
			case 'p':
				var m int
				m, err = w.Write(op.data)
				if len(want)%8 != 0 {
					x.Describe("Write(%x) mid-byte: %d, %v", op.data, m, err)
					x.Outcome("refused")
					if !errors.Is(err, bitio.ErrInvalidAlignment) || m != 0 {
						x.Fail("write:alignment", "bytes written in the middle of a byte: n=%d, %v", m, err)
					}
					continue
				}
				add = fromBytes(op.data)
				if err == nil && m != len(op.data) {
					x.Fail("write:count", "n=%d of %d", m, len(op.data))
				}
			}
			x.Describe("%c width %d data %x: %v", op.kind, op.w, op.data, err)
			want = append(want, add...)
			if s.failAt >= 0 && len(want)/8 > s.failAt {
				x.Outcome("fault")
				if !errors.Is(err, errSource) {
					x.Fail("write:fault", "the destination failed but the operation returned %v", err)
				}
				if !bytes.Equal(s.buf, want.bytes()[:len(s.buf)]) {
					x.Fail("write:bytes", "wrote %x, want a beginning of %x", s.buf, want.bytes())
				}
				return
			}
			if err != nil {
				x.Fail("write:error", "%v", err)
			}
			if !bytes.Equal(s.buf, want.bytes()) {
				x.Fail("write:bytes", "wrote %x, want %x and %d more bits", s.buf, want.bytes(), len(want)%8)
			}
			x.Outcome(len(want) % 8)
		}
		x.State(s.failAt, []byte(want))
	}
}

// composition splits n into parts.
func composition(x *mc.X, n int, label string) (out []int) {
	for n > 0 {
		k := 1 + x.Choose(n, label)
		out = append(out, k)
		n -= k
	}
	return out
}

func roundBody(n int, values [][]byte) func(x *mc.X) {
	return func(x *mc.X) {
		v := fromBytes(values[x.Choose(len(values), "value")])[:n]
		ws, rs := composition(x, n, "write"), composition(x, n, "read")
		var buf bytes.Buffer
		w := bitio.NewWriter(&buf)
		at := 0
		x.Describe("bits %v written as %v, read as %v", v, ws, rs)
		for _, k := range ws {
			if err := w.WriteBits(v[at:at+k].packed(), uint(k)); err != nil {
				x.Fail("round:write", "%v", err)
			}
			at += k
		}
		for ; at%8 != 0; at++ {
			if err := w.WriteBit(true); err != nil {
				x.Fail("round:write", "%v", err)
			}
		}
		x.State(v, fmt.Sprint(ws, rs))
		x.Outcome(len(ws), len(rs))
		r := bitio.NewReader(&buf)
		at = 0
		for _, k := range rs {
			got, err := r.ReadBits(uint(k))
			if want := v[at : at+k].packed(); err != nil || !bytes.Equal(got, want) {
				x.Fail("round:read", "bits %d to %d: got %x (%v), want %x", at, at+k, got, err, want)
			}
			at += k
		}
	}
}

func c21(tier string) []*mc.Unit {
	few := []seekOp{{0, io.SeekCurrent}, {1, io.SeekStart}, {-1, io.SeekEnd}, {-1, io.SeekStart}}
	vals := [][]byte{{0xa7, 0x35}, {0x58, 0xca}, {0xff, 0xff}, {0, 0}}
	return []*mc.Unit{
		{Name: "reading", Weight: 3, Body: readBody(depth(tier, 3, 4), widths, []int{1, 2, 3, 11}, seeks, sources)},
		{Name: "reading-deep", Weight: 3, Body: readBody(depth(tier, 6, 8), []uint{3, 8, 13}, []int{1}, few, [][]byte{{0x1d, 0xb2, 0x74, 0x8f}})},
		{Name: "writing", Weight: 2, Body: writeBody(depth(tier, 3, 4), writeOps([]uint{0, 1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 33, 64, 65}, 3), false)},
		{Name: "writing-deep", Weight: 2, Body: writeBody(depth(tier, 6, 7), append(writeOps([]uint{3, 13}, 1), writeOp{'w', 8, []byte{0xc6}}), false)},
		{Name: "write-faults", Body: writeBody(depth(tier, 4, 5), append(writeOps([]uint{5, 17}, 2), writeOp{'w', 8, []byte{0xc6}}), true)},
		{Name: "round-trips", Weight: 2, Body: roundBody(depth(tier, 11, 13), vals)},
		{Name: "wide", Weight: 2, Body: wideBody(wide[:depth(tier, 25, len(wide))])},
		{Name: "wider", Body: func(x *mc.X) {
			if tier == "thorough" {
				x.Skip()
			}
			wideBody([]int{32769, 65537, 65543})(x)
		}},
		{Name: "blocks", Body: blockBody},
		{Name: "round-trips-values", Body: roundBody(8, allBytes())},
	}
}

// pieces delivers a source in pieces.
type pieces struct {
	source
	chunk int
}

func (p *pieces) Read(b []byte) (int, error) {
	if p.chunk > 0 && len(b) > p.chunk {
		b = b[:p.chunk]
	}
	return p.source.Read(b)
}

// pattern is a sequence without short periods.
func pattern(n int) []byte {
	out := make([]byte, n)
	v := uint32(0x9d2c5681)
	for i := range out {
		v = v*1664525 + 1013904223
		out[i] = byte(v >> 24)
	}
	return out
}

var wide = []int{66, 71, 72, 73, 127, 128, 129, 255, 256, 257, 511, 512, 513, 519, 520, 521, 800, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 65543}

// wideBody reads or writes many bits at once, from any position in a byte.
func wideBody(widths []int) func(x *mc.X) {
	return func(x *mc.X) {
		w := widths[x.Choose(len(widths), "width")]
		skew := x.Choose(8, "skew")
		after := x.Choose(10, "after")
		if x.Choose(2, "direction") == 1 {
			var buf bytes.Buffer
			wr := bitio.NewWriter(&buf)
			extra := x.Choose(2, "longer data")
			all := fromBytes(pattern((skew + w + after + 7) / 8))
			x.Describe("write %d, %d and %d bits", skew, w, after)
			x.State(w, skew, after, extra)
			var done bits
			put := func(b bits, extra int) {
				d := append(bytes.Repeat([]byte{0x5a}, extra), b.packed()...)
				in := append([]byte{}, d...)
				if err := wr.WriteBits(d, uint(len(b))); err != nil {
					x.Fail("write:error", "%v", err)
				}
				if !bytes.Equal(in, d) {
					x.Fail("write:argument", "the data given was changed")
				}
				done = append(done, b...)
				if !bytes.Equal(buf.Bytes(), done.bytes()) {
					x.Fail("write:bytes", "%d bits in front, %d bits: wrote other bytes than given", skew, len(b))
				}
			}
			put(all[:skew], 0)
			put(all[skew:skew+w], extra)
			put(all[skew+w:skew+w+after], 0)
			x.Outcome(buf.Len())
			return
		}
		chunks := []int{0, 1, 2, 63, 64, 65, 511, 512, 4096}
		// the source holds all, or ends inside or just behind the bits asked for
		total := (skew+w+after+7)/8 + []int{0, 3, -1, -2, -w / 16}[x.Choose(5, "length")]
		if total < 1 {
			x.Skip()
		}
		src := &pieces{source{data: pattern(total), failAt: -1}, chunks[x.Choose(len(chunks), "chunk")]}
		src.eofWith = x.Choose(2, "eager end") == 1
		var r bitio.Reader
		if x.Choose(2, "seekable") == 1 {
			r = bitio.NewReadSeeker(src)
		} else {
			r = bitio.NewReader(struct{ io.Reader }{src})
		}
		all := fromBytes(src.data)
		x.Describe("read %d, %d and %d bits of %d bytes in pieces of %d", skew, w, after, total, src.chunk)
		x.State(w, skew, after, total, src.chunk, src.eofWith)
		at := 0
		for _, n := range []int{skew, w, after, len(all)} {
			if n == len(all) {
				n = len(all) - at
			}
			got, err := r.ReadBits(uint(n))
			if n > len(all)-at {
				x.Outcome("short")
				if !errors.Is(err, io.EOF) {
					x.Fail("read:end", "%d bits of %d: %v", n, len(all)-at, err)
				}
				return
			}
			if err != nil || !bytes.Equal(got, all[at:at+n].packed()) {
				x.Fail("read:bits", "bits %d to %d of %d are wrong (error %v)", at, at+n, len(all), err)
			}
			at += n
		}
		x.Outcome("read")
		if _, err := r.ReadBit(); !errors.Is(err, io.EOF) {
			x.Fail("read:end", "a bit after the end: %v", err)
		}
	}
}

// blockBody reads or writes many bytes at once, on a byte boundary reached in any way.
func blockBody(x *mc.X) {
	lens := []int{4, 7, 8, 9, 63, 64, 65, 255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65537, 300000}
	n := lens[x.Choose(len(lens), "length")]
	parts := composition(x, 8, "bits in front")
	if len(parts) > 3 {
		x.Skip()
	}
	data := pattern(n + 9)
	x.Describe("%v bits, then %d bytes", parts, n)
	all := fromBytes(data)
	if x.Choose(2, "direction") == 1 {
		var buf bytes.Buffer
		w := bitio.NewWriter(&buf)
		at := 0
		for _, k := range parts {
			if err := w.WriteBits(all[at:at+k].packed(), uint(k)); err != nil {
				x.Fail("write:error", "%v", err)
			}
			at += k
		}
		in := append([]byte{}, data...)
		m, err := w.Write(data[1 : 1+n])
		if err != nil || m != n || !bytes.Equal(in, data) || !bytes.Equal(buf.Bytes(), data[:1+n]) {
			x.Fail("write:bytes", "%d bytes written: n=%d, %v", n, m, err)
		}
		x.State(n, fmt.Sprint(parts))
		x.Outcome(n)
		return
	}
	src := &pieces{source{data: data, failAt: -1}, []int{0, 1, 512, 4096}[x.Choose(4, "chunk")]}
	var r bitio.Reader
	if x.Choose(2, "seekable") == 1 {
		r = bitio.NewReadSeeker(src)
	} else {
		r = bitio.NewReader(struct{ io.Reader }{src})
	}
	at := 0
	for _, k := range parts {
		got, err := r.ReadBits(uint(k))
		if err != nil || !bytes.Equal(got, all[at:at+k].packed()) {
			x.Fail("read:bits", "bits %d to %d: %x, %v", at, at+k, got, err)
		}
		at += k
	}
	buf := make([]byte, n)
	m, err := io.ReadFull(r, buf)
	if err != nil || m != n || !bytes.Equal(buf, data[1:1+n]) {
		x.Fail("read:bytes", "%d bytes read: n=%d, %v", n, m, err)
	}
	rest, err := r.ReadBits(64)
	if err != nil || !bytes.Equal(rest, data[1+n:]) {
		x.Fail("read:bytes", "after %d bytes: %x, %v, want %x", n, rest, err, data[1+n:])
	}
	x.State(n, fmt.Sprint(parts), src.chunk)
	x.Outcome(n)
}

func allBytes() (out [][]byte) {
	for i := 0; i < 256; i++ {
		out = append(out, []byte{byte(i)})
	}
	return out
}

func main() {
	mc.Main([]*mc.Check{{ID: "C21", Units: c21, Rule: "every sequence of up to 3 (4) operations over 15 widths, byte reads and 11 seeks on 4 sources with 3 sorts of delivery; of up to 6 (8) over fewer; every sequence of up to 3 (4) writes over 14 widths with 4 forms of data each, of up to 6 (7) over fewer, with the destination failing at every byte; every way to write 11 (13) bits times every way to read them; compared with a bit list; widths of up to 65543 bits, blocks of up to 300000 bytes"}})
}
