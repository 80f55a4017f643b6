package checks

import (
	"math/big"
	"net/url"
	"reflect"
	"time"
)

// clone is a deep copy through exported fields, pointers, slices and interfaces.
func clone(v interface{}) interface{} {
	return cloneVal(reflect.ValueOf(v)).Interface()
}

func cloneVal(v reflect.Value) reflect.Value {
	switch x := v.Interface().(type) {
	case *big.Int:
		if x != nil {
			return reflect.ValueOf(new(big.Int).Set(x))
		}
	case *url.URL:
		if x != nil {
			u := *x
			return reflect.ValueOf(&u)
		}
	case time.Time:
		return v
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			n := reflect.New(v.Type().Elem())
			n.Elem().Set(cloneVal(v.Elem()))
			return n
		}
	case reflect.Interface:
		if !v.IsNil() {
			n := reflect.New(v.Type()).Elem()
			n.Set(cloneVal(v.Elem()))
			return n
		}
	case reflect.Slice:
		if !v.IsNil() {
			n := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
			for i := 0; i < v.Len(); i++ {
				n.Index(i).Set(cloneVal(v.Index(i)))
			}
			return n
		}
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n.Field(i).Set(cloneVal(v.Field(i)))
			}
		}
		return n
	}
	return v
}

// scribble is the owner of a structure reusing all the memory it reaches: bytes,
// numbers, strings and flags in slices and behind pointers. What it is itself
// made of stays.
func scribble(v interface{}) {
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	for i := 0; i < rv.NumField(); i++ {
		if rv.Type().Field(i).IsExported() {
			scribbleVal(rv.Field(i), false)
		}
	}
}

func scribbleVal(v reflect.Value, inside bool) {
	switch x := v.Interface().(type) {
	case *big.Int:
		if x != nil {
			x.Add(x, one)
			spoilInt(x)
		}
		return
	case *url.URL:
		if x != nil {
			x.Path += "/changed"
		}
		return
	case time.Time:
		if inside && v.CanSet() {
			v.Set(reflect.ValueOf(x.Add(time.Hour)))
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scribbleVal(v.Elem(), true)
		}
	case reflect.Interface:
		if !v.IsNil() && inside && v.CanSet() {
			if _, ok := v.Elem().Interface().(string); ok {
				v.Set(reflect.ValueOf("changed"))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribbleVal(v.Index(i), true)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribbleVal(v.Field(i), inside)
			}
		}
	default:
		if !inside || !v.CanSet() {
			return
		}
		switch {
		case v.CanInt():
			v.SetInt(v.Int() ^ 5)
		case v.CanUint():
			v.SetUint(v.Uint() ^ 5)
		case v.Kind() == reflect.String:
			v.SetString(v.String() + "x")
		case v.Kind() == reflect.Bool:
			v.SetBool(!v.Bool())
		}
	}
}
