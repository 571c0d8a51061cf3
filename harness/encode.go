package main

import (
	"bytes"
	"fmt"
	"hash/maphash"
	"reflect"
	"strings"
)

// Encoding depends on the object only: it leaves the object as it was, and
// gives the same when repeated.

type marshaler interface{ Marshal() ([]byte, error) }

func encoded(x marshaler) ([]byte, error) { return encodedBy(x, x.Marshal) }

// encodedBy: f encodes x
func encodedBy(x any, f func() ([]byte, error)) ([]byte, error) {
	before := snapshot(x)
	b, err := f()
	first := bytes.Clone(b)
	again, err2 := f()
	if snapshot(x) != before || (err == nil) != (err2 == nil) ||
		(err == nil && (!bytes.Equal(first, again) || !bytes.Equal(first, b))) {
		if w := watching(); w != nil {
			w.altered = true
		}
	}
	return b, err
}

var snapSeed = maphash.MakeSeed()

// snapshot describes what the object shows to its user.
func snapshot(x any) string {
	var b strings.Builder
	snap(&b, reflect.ValueOf(x), 0)
	return b.String()
}

func snap(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 40 {
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "*%s", v.Elem().Type())
		snap(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteByte('{')
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				snap(b, v.Field(i), depth+1)
				b.WriteByte(',')
			}
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "%d[", v.Len())
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			d := v.Bytes()
			fmt.Fprintf(b, "%x", maphash.Bytes(snapSeed, d[:min(len(d), 1<<16)]))
		} else {
			for i := range v.Len() {
				snap(b, v.Index(i), depth+1)
				b.WriteByte(',')
			}
		}
		b.WriteByte(']')
	case reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		fmt.Fprint(b, v.Interface())
	}
}
