//go:build go1.22

package ref

import (
	"encoding/binary"
	"errors"
)

// Node is one box of a file, found by an independent reading of its bytes.
type Node struct {
	Type     string
	Off      uint64
	Size     uint64
	Hdr      uint64
	EOF      bool
	Ctx      Ctx // context the box itself is interpreted in
	ChildCtx Ctx
	Path     []string
	Def      *Def
	Dec      Decoded // payload, when the type is defined
	Children []*Node
	// ChildErr is the error met after the last of Children when the box is expanded.
	ChildErr error
	// Beyond tells that the declared end lies behind the end of the file.
	Beyond bool
	Parent *Node
}

// Errors of a walk.
var (
	ErrSize     = errors.New("impossible box size")
	ErrTrailing = errors.New("bytes left over")
	ErrNotFound = errors.New("type not defined")
)

// File is a parsed file.
type File struct {
	Data []byte
	Top  []*Node
	Err  error
	// Tail tells that fewer than 8 bytes follow the last top-level box.
	Tail bool
}

// Parse reads the box structure of a file. Every box whose type is defined is expanded.
func Parse(data []byte) *File {
	f := &File{Data: data}
	f.Top, f.Err = parseLevel(f, 0, uint64(len(data)), true, nil, nil, Ctx{}, 0)
	return f
}

// ExpandErr is what expanding the box runs into, nil if all its children are fine.
func (n *Node) ExpandErr() error {
	if n.Def == nil {
		return ErrNotFound
	}
	if n.Dec.Err != nil {
		return n.Dec.Err
	}
	return n.ChildErr
}

// Unspecified tells that the reference has no opinion about the payload of the box.
func (n *Node) Unspecified() bool {
	return n.Def != nil && n.Dec.Unspecified != "" || n.Beyond
}

// DeepErr is the first error met when the box and everything below is expanded.
func (n *Node) DeepErr() error {
	if n.Def == nil {
		return nil
	}
	if n.Dec.Err != nil {
		return n.Dec.Err
	}
	for _, c := range n.Children {
		if err := c.DeepErr(); err != nil {
			return err
		}
	}
	return n.ChildErr
}

// Payload is the part of the file after the header.
func (f *File) Payload(n *Node) []byte {
	end := n.Off + n.Size
	if end > uint64(len(f.Data)) {
		end = uint64(len(f.Data))
	}
	return f.Data[n.Off+n.Hdr : end]
}

func parseLevel(f *File, off, end uint64, root bool, parent *Node, path []string, ctx Ctx, depth int) (out []*Node, err error) {
	data := f.Data
	total := uint64(len(data))
	for {
		left := end - off
		if root && off >= total {
			return out, nil
		}
		if root && left < 8 {
			f.Tail = true
			return out, nil
		}
		if !root && left < 8 {
			break
		}
		if off+8 > total {
			return out, ErrShort
		}
		n := &Node{Off: off, Hdr: 8, Ctx: ctx, Parent: parent}
		n.Size = uint64(binary.BigEndian.Uint32(data[off:]))
		n.Type = string(data[off+4 : off+8])
		switch n.Size {
		case 0:
			n.EOF = true
			n.Size = total - off
		case 1:
			if off+16 > total {
				return out, ErrShort
			}
			n.Hdr = 16
			n.Size = binary.BigEndian.Uint64(data[off+8:])
		}
		if n.Size < n.Hdr || n.Size > 1<<63-1-off {
			return out, ErrSize
		}
		if !root && n.Size > left {
			return out, ErrSize
		}
		n.Path = append(append(make([]string, 0, len(path)+1), path...), n.Type)
		n.Beyond = off+n.Size > total
		n.Def = Lookup(n.Type, ctx)
		if n.Def != nil {
			n.Dec = Decode(n.Def, ctx, f.Payload(n))
		}
		if n.Type == "ftyp" && root || n.Type == "keys" {
			if n.Dec.Err != nil {
				return out, n.Dec.Err // the box is not even visited
			}
			if n.Beyond && n.Type == "ftyp" {
				return out, ErrShort // the list of brands reaches to the end of the box
			}
		}
		if n.Type == "ftyp" && root && hasBrand(n.Dec.Val, "qt  ") {
			n.Ctx.QT = true
		}
		if n.Type == "keys" {
			n.Ctx.Keys = int(n.Dec.Val.Vals["EntryCount"].(int64))
		}
		// re-read in the context that includes the box itself
		if n.Ctx != ctx {
			n.Def = Lookup(n.Type, n.Ctx)
			if n.Def != nil {
				n.Dec = Decode(n.Def, n.Ctx, f.Payload(n))
			}
		}
		n.ChildCtx = Below(n.Type, n.Ctx)
		if n.Def != nil && n.Dec.Err == nil && depth < 20000 {
			if n.Dec.Unspecified == "" {
				n.Children, n.ChildErr = parseLevel(f, n.Off+n.Hdr+uint64(n.Dec.N), n.Off+n.Size, false, n, n.Path, n.ChildCtx, depth+1)
			}
		}
		out = append(out, n)
		if n.Ctx.QT {
			ctx.QT = true
		}
		if n.Type == "keys" {
			ctx.Keys = n.Ctx.Keys
		}
		off += n.Size
	}
	if off != end && !ctx.QT {
		return out, ErrTrailing
	}
	return out, nil
}

// Below is the context inside of a box.
func Below(typ string, c Ctx) Ctx {
	switch {
	case typ == "wave":
		c.Wave = true
	case typ == "ilst":
		c.Ilst = true
	case c.Ilst && !c.IlstMeta && isIlstType(typ):
		c.IlstMeta = true
		c.IlstFree = c.IlstFree || typ == "----"
	case typ == "udta":
		c.Udta = true
	}
	return c
}

func isIlstType(t string) bool {
	for _, n := range IlstTypes {
		if n == t {
			return true
		}
	}
	return false
}

func hasBrand(o *Obj, b string) bool {
	for _, e := range o.Vals["CompatibleBrands"].([]*Obj) {
		v := e.Vals["CompatibleBrand"].([]uint64)
		if byte(v[0]) == b[0] && byte(v[1]) == b[1] && byte(v[2]) == b[2] && byte(v[3]) == b[3] {
			return true
		}
	}
	return false
}

// Walk visits the nodes depth first.
func Walk(ns []*Node, f func(*Node)) {
	for _, n := range ns {
		f(n)
		Walk(n.Children, f)
	}
}

// Forms of a header.
const (
	Compact = iota
	Large
	ToEOF
)

// Box is a box to be written.
type Box struct {
	Type   string
	Form   int
	Fields []byte
	Kids   []*Box
	Trail  []byte
	// SizeField overrides the size that is written when non-nil.
	SizeField *uint64
}

// B makes a box.
func B(typ string, fields []byte, kids ...*Box) *Box {
	return &Box{Type: typ, Fields: fields, Kids: kids}
}

// Len is the length of the box when laid out.
func (b *Box) Len() uint64 {
	n := uint64(8 + len(b.Fields) + len(b.Trail))
	if b.Form == Large {
		n += 8
	}
	for _, k := range b.Kids {
		n += k.Len()
	}
	return n
}

// Bytes lays the box out.
func (b *Box) Bytes() []byte {
	return b.appendTo(nil)
}

func (b *Box) appendTo(out []byte) []byte {
	at, hdr := len(out), 8
	if b.Form == Large {
		hdr = 16
	}
	out = append(out, make([]byte, hdr)...)
	copy(out[at+4:], b.Type)
	out = append(out, b.Fields...)
	for _, k := range b.Kids {
		out = k.appendTo(out)
	}
	out = append(out, b.Trail...)
	size := uint64(len(out) - at)
	if b.SizeField != nil {
		size = *b.SizeField
	}
	switch b.Form {
	case Compact:
		binary.BigEndian.PutUint32(out[at:], uint32(size))
	case Large:
		binary.BigEndian.PutUint32(out[at:], 1)
		binary.BigEndian.PutUint64(out[at+8:], size)
	}
	return out
}

// Cat lays out a sequence of boxes.
func Cat(bs ...*Box) []byte {
	var out []byte
	for _, b := range bs {
		out = b.appendTo(out)
	}
	return out
}
