package checks

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"
)

// dump describes a value and everything it points to, including the memory
// between the length and the capacity of its slices; equal dumps mean nothing a
// caller could observe has changed.
func dump(v interface{}) string {
	d := dumper{spare: true}
	d.to(&d.b, reflect.ValueOf(v), 0)
	return d.b.String()
}

// dumpVal describes only the value: no capacities, nothing behind a slice's end.
func dumpVal(v interface{}) string {
	d := dumper{}
	d.to(&d.b, reflect.ValueOf(v), 0)
	return d.b.String()
}

type dumper struct {
	b     strings.Builder
	spare bool
}

var timeType = reflect.TypeOf(time.Time{})
var bigType = reflect.TypeOf(big.Int{})

// Unexported members of gm's own types are no part of what a caller sees.
const gmPath = "github.com/ZZMarquis/gm"

func (d *dumper) to(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 40 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Type() == timeType && v.CanInterface() {
		t := v.Interface().(time.Time)
		n, off := t.Zone()
		fmt.Fprintf(b, "time(%d.%d %s%d)", t.Unix(), t.Nanosecond(), n, off)
		return
	}
	if v.Type() == bigType && v.CanAddr() && v.Addr().CanInterface() {
		fmt.Fprintf(b, "%x", v.Addr().Interface().(*big.Int))
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		d.to(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name())
		b.WriteByte('{')
		own := strings.HasPrefix(v.Type().PkgPath(), gmPath)
		for i := 0; i < v.NumField(); i++ {
			if own && !v.Type().Field(i).IsExported() {
				continue
			}
			b.WriteString(v.Type().Field(i).Name)
			b.WriteByte(':')
			d.to(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		w := v
		if d.spare {
			fmt.Fprintf(b, "[%d/%d:", v.Len(), v.Cap())
			w = v.Slice(0, v.Cap())
		} else {
			fmt.Fprintf(b, "[%d:", v.Len())
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := 0; i < w.Len(); i++ {
				fmt.Fprintf(b, "%02x", w.Index(i).Uint())
			}
		} else {
			for i := 0; i < w.Len(); i++ {
				d.to(b, w.Index(i), depth+1)
				b.WriteByte(',')
			}
		}
		b.WriteByte(']')
	case reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			d.to(b, v.Index(i), depth+1)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprint(b, v.Kind())
	case reflect.Map:
		fmt.Fprintf(b, "map[%d]", v.Len())
	default:
		fmt.Fprint(b, v.Kind())
	}
}

// dumpDiff shows where two dumps first differ.
func dumpDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 60
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("...%s... became ...%s...", cut(a), cut(b))
}
