//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"github.com/abema/go-mp4"
	"github.com/abema/go-mp4/internal/zzverif/ref"
)

func toCtx(c ref.Ctx) mp4.Context {
	return mp4.Context{
		IsQuickTimeCompatible:       c.QT,
		QuickTimeKeysMetaEntryCount: c.Keys,
		UnderWave:                   c.Wave,
		UnderIlst:                   c.Ilst,
		UnderIlstMeta:               c.IlstMeta,
		UnderIlstFreeMeta:           c.IlstFree,
		UnderUdta:                   c.Udta,
	}
}

func btype(s string) mp4.BoxType { return mp4.BoxType{s[0], s[1], s[2], s[3]} }

// fill sets the fields of a structure from a reference value.
func fill(v reflect.Value, o *ref.Obj) {
	for _, k := range o.Keys {
		f := v.FieldByName(k)
		if !f.IsValid() {
			panic("harness: no field " + k + " in " + v.Type().String())
		}
		fillVal(f, o.Vals[k])
	}
}

func fillVal(f reflect.Value, val interface{}) {
	switch x := val.(type) {
	case uint64:
		f.SetUint(x)
	case int64:
		f.SetInt(x)
	case bool:
		f.SetBool(x)
	case string:
		f.SetString(x)
	case []uint64:
		if f.Kind() == reflect.Slice {
			f.Set(reflect.MakeSlice(f.Type(), len(x), len(x)))
		}
		for i, e := range x {
			f.Index(i).SetUint(e)
		}
	case []int64:
		if f.Kind() == reflect.Slice {
			f.Set(reflect.MakeSlice(f.Type(), len(x), len(x)))
		}
		for i, e := range x {
			f.Index(i).SetInt(e)
		}
	case []bool:
		if f.Kind() == reflect.Slice {
			f.Set(reflect.MakeSlice(f.Type(), len(x), len(x)))
		}
		for i, e := range x {
			f.Index(i).SetBool(e)
		}
	case *ref.Obj:
		if f.Kind() == reflect.Ptr {
			f.Set(reflect.New(f.Type().Elem()))
			f = f.Elem()
		}
		fill(f, x)
	case []*ref.Obj:
		if f.Kind() == reflect.Slice {
			f.Set(reflect.MakeSlice(f.Type(), len(x), len(x)))
		}
		for i, e := range x {
			v := f.Index(i)
			if v.Kind() == reflect.Ptr {
				v.Set(reflect.New(v.Type().Elem()))
				v = v.Elem()
			}
			fill(v, e)
		}
	default:
		panic(fmt.Sprintf("harness: value %T", val))
	}
}

// build makes the Go value of a box.
func build(typ string, ctx ref.Ctx, o *ref.Obj) (mp4.IBox, error) {
	b, err := btype(typ).New(toCtx(ctx))
	if err != nil {
		return nil, err
	}
	fill(reflect.ValueOf(b).Elem(), o)
	return b, nil
}

func skipEmbedded(t reflect.Type) bool {
	switch t.Name() {
	case "Box", "AnyTypeBox", "BaseCustomFieldObject":
		return true
	}
	return false
}

// diff compares a decoded structure with the reference value; "" means equal.
func diff(v reflect.Value, o *ref.Obj) string {
	used := map[string]bool{}
	if d := diffStruct(v, o, used); d != "" {
		return d
	}
	for _, k := range o.Keys {
		if !used[k] {
			return fmt.Sprintf("field %s does not exist", k)
		}
	}
	return ""
}

func diffStruct(v reflect.Value, o *ref.Obj, used map[string]bool) string {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i)
		if ft.PkgPath != "" {
			continue
		}
		fv := v.Field(i)
		want, has := o.Vals[ft.Name]
		if ft.Anonymous && ft.Type.Kind() == reflect.Struct && !has {
			if skipEmbedded(ft.Type) {
				continue
			}
			if d := diffStruct(fv, o, used); d != "" {
				return d
			}
			continue
		}
		if !has {
			if !isZero(fv) {
				return fmt.Sprintf("%s is not on the wire but was set to %v", ft.Name, fv.Interface())
			}
			continue
		}
		used[ft.Name] = true
		if d := diffVal(fv, want); d != "" {
			return ft.Name + ": " + d
		}
	}
	return ""
}

func isZero(v reflect.Value) bool {
	if v.Kind() == reflect.Slice {
		return v.Len() == 0
	}
	if v.Kind() == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && !isZero(v.Field(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

func diffVal(f reflect.Value, want interface{}) string {
	switch w := want.(type) {
	case uint64:
		if f.Uint() != w {
			return fmt.Sprintf("got %#x, want %#x", f.Uint(), w)
		}
	case int64:
		if f.Int() != w {
			return fmt.Sprintf("got %d, want %d", f.Int(), w)
		}
	case bool:
		if f.Bool() != w {
			return fmt.Sprintf("got %v, want %v", f.Bool(), w)
		}
	case string:
		if f.String() != w {
			return fmt.Sprintf("got %q, want %q", f.String(), w)
		}
	case []uint64:
		if f.Len() != len(w) {
			return fmt.Sprintf("got %d elements, want %d", f.Len(), len(w))
		}
		for i, e := range w {
			if f.Index(i).Uint() != e {
				return fmt.Sprintf("[%d]: got %#x, want %#x", i, f.Index(i).Uint(), e)
			}
		}
	case []int64:
		if f.Len() != len(w) {
			return fmt.Sprintf("got %d elements, want %d", f.Len(), len(w))
		}
		for i, e := range w {
			if f.Index(i).Int() != e {
				return fmt.Sprintf("[%d]: got %d, want %d", i, f.Index(i).Int(), e)
			}
		}
	case []bool:
		if f.Len() != len(w) {
			return fmt.Sprintf("got %d elements, want %d", f.Len(), len(w))
		}
		for i, e := range w {
			if f.Index(i).Bool() != e {
				return fmt.Sprintf("[%d]: got %v, want %v", i, f.Index(i).Bool(), e)
			}
		}
	case *ref.Obj:
		if f.Kind() == reflect.Ptr {
			if f.IsNil() {
				return "missing"
			}
			f = f.Elem()
		}
		return diff(f, w)
	case []*ref.Obj:
		if f.Len() != len(w) {
			return fmt.Sprintf("got %d elements, want %d", f.Len(), len(w))
		}
		for i, e := range w {
			v := f.Index(i)
			if v.Kind() == reflect.Ptr {
				if v.IsNil() {
					return fmt.Sprintf("[%d]: missing", i)
				}
				v = v.Elem()
			}
			if d := diff(v, e); d != "" {
				return fmt.Sprintf("[%d].%s", i, d)
			}
		}
	default:
		panic(fmt.Sprintf("harness: value %T", want))
	}
	return ""
}

func diffBox(b mp4.IBox, o *ref.Obj) string { return diff(reflect.ValueOf(b).Elem(), o) }

// sameObj compares two reference values.
func sameObj(a, b *ref.Obj) bool {
	if len(a.Keys) != len(b.Keys) {
		return false
	}
	for k, v := range a.Vals {
		w, ok := b.Vals[k]
		if !ok || !sameVal(v, w) {
			return false
		}
	}
	return true
}

func sameVal(v, w interface{}) bool {
	switch x := v.(type) {
	case *ref.Obj:
		y, ok := w.(*ref.Obj)
		return ok && sameObj(x, y)
	case []*ref.Obj:
		y, ok := w.([]*ref.Obj)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameObj(x[i], y[i]) {
				return false
			}
		}
		return true
	case []uint64:
		y, ok := w.([]uint64)
		return ok && (len(x) == 0 && len(y) == 0 || reflect.DeepEqual(x, y))
	case []int64:
		y, ok := w.([]int64)
		return ok && (len(x) == 0 && len(y) == 0 || reflect.DeepEqual(x, y))
	}
	return reflect.DeepEqual(v, w)
}

// pad makes a stream with the payload at offset pre followed by post.
func pad(pre int, payload, post []byte) *bytes.Reader {
	b := make([]byte, 0, pre+len(payload)+len(post))
	for i := 0; i < pre; i++ {
		b = append(b, byte(0xe0+i))
	}
	b = append(b, payload...)
	b = append(b, post...)
	r := bytes.NewReader(b)
	r.Seek(int64(pre), io.SeekStart)
	return r
}

func pos(s io.Seeker) int64 {
	p, err := s.Seek(0, io.SeekCurrent)
	if err != nil {
		return -1
	}
	return p
}

func short(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("%x... (%d bytes)", b[:96], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func printable(t string) string {
	for i := 0; i < len(t); i++ {
		if t[i] < 0x20 || t[i] > 0x7e {
			return fmt.Sprintf("%x", t)
		}
	}
	return t
}
