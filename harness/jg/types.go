// Package jg generates JSON documents for destination types and judges them
// with a small reference model of what a destination accepts.
package jg

import (
	"encoding"
	"encoding/json"
	"reflect"
	"strings"
	"sync"
	"unicode"

	jd "github.com/romshark/jscan-experimental-decoder"
	"verif/harness/sp"
)

var (
	tJSON   = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
	tText   = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
	tNumber = reflect.TypeOf(jd.Number(""))
	tJNum   = reflect.TypeOf(json.Number(""))
	spPkg   = reflect.TypeOf(sp.UJ{}).PkgPath()
)

// IsJSONU tells whether values of (non-pointer) type t are decoded by UnmarshalJSON.
func IsJSONU(t reflect.Type) bool {
	return t.Kind() != reflect.Pointer && t.Kind() != reflect.Interface && reflect.PointerTo(t).Implements(tJSON)
}

// IsTextU tells whether values of (non-pointer) type t are decoded by UnmarshalText.
func IsTextU(t reflect.Type) bool {
	return t.Kind() != reflect.Pointer && t.Kind() != reflect.Interface && !reflect.PointerTo(t).Implements(tJSON) &&
		reflect.PointerTo(t).Implements(tText)
}

// IsTextKey tells whether map keys of type t are decoded by UnmarshalText.
func IsTextKey(t reflect.Type) bool { return reflect.PointerTo(t).Implements(tText) }

// IsNumber tells whether t is the Number type of the decoder or of encoding/json.
func IsNumber(t reflect.Type) bool { return t == tNumber || t == tJNum }

// Field is a decodable struct field.
type Field struct {
	Name   string
	Index  int
	Quoted bool
	Type   reflect.Type
}

var fieldCache sync.Map

// Fields lists the decodable fields of a struct type without embedded fields,
// by the documented rules of encoding/json.
func Fields(t reflect.Type) []Field {
	if c, ok := fieldCache.Load(t); ok {
		return c.([]Field)
	}
	var fs []Field
	tagged := map[string]int{} // how many fields have the name in their tag
	isTagged := map[int]bool{}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if !sf.IsExported() {
			continue
		}
		tag := sf.Tag.Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		name := parts[0]
		if !validTag(name) {
			name = sf.Name
		} else {
			tagged[name]++
			isTagged[i] = true
		}
		f := Field{Name: name, Index: i, Type: sf.Type}
		for _, o := range parts[1:] {
			if o == "string" {
				ft := sf.Type
				if ft.Name() == "" && ft.Kind() == reflect.Pointer {
					ft = ft.Elem()
				}
				f.Quoted = QuotableKind(ft.Kind())
			}
		}
		fs = append(fs, f)
	}
	// Of fields with the same name the only tagged one remains, if there is one.
	kept := fs[:0]
	for _, f := range fs {
		if n := tagged[f.Name]; n == 0 || n == 1 && isTagged[f.Index] {
			kept = append(kept, f)
		}
	}
	fs = kept
	fieldCache.Store(t, fs)
	return fs
}

// QuotableKind tells whether the string option applies to kind k.
func QuotableKind(k reflect.Kind) bool {
	switch k {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

func validTag(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		switch {
		case strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c):
		case !unicode.IsLetter(c) && !unicode.IsDigit(c):
			return false
		}
	}
	return true
}

// Lookup finds the field for a decoded key: exact first, then the first
// case-insensitive match.
func Lookup(fs []Field, key string, caseInsensitive bool) *Field {
	for i := range fs {
		if fs[i].Name == key {
			return &fs[i]
		}
	}
	if caseInsensitive {
		for i := range fs {
			if strings.EqualFold(fs[i].Name, key) {
				return &fs[i]
			}
		}
	}
	return nil
}

// Feat summarises what occurs in a type.
type Feat struct {
	JSONU, TextU, Any, Map, TextKey, Struct, Slice, Array, Ptr, Recur, Quoted, Number, Float, Int, Str, Bytes, EmptyStruct bool
	StdU                                                                                                                   bool
	QuotedPtr                                                                                                              bool
	Depth                                                                                                                  int
	Size                                                                                                                   uintptr // of the largest type
	// shapes the string option is ignored on, etc. may be added here
}

var featCache sync.Map

// FeatOf analyses a type.
func FeatOf(t reflect.Type) Feat {
	if c, ok := featCache.Load(t); ok {
		return c.(Feat)
	}
	var f Feat
	onPath := map[reflect.Type]bool{}
	done := map[reflect.Type]bool{}
	var walk func(t reflect.Type, d int)
	walk = func(t reflect.Type, d int) {
		if d > f.Depth {
			f.Depth = d
		}
		if t.Size() > f.Size {
			f.Size = t.Size()
		}
		if onPath[t] {
			f.Recur = true
			return
		}
		if done[t] {
			return
		}
		if IsJSONU(t) {
			f.JSONU = true
			if t.PkgPath() != spPkg {
				f.StdU = true
			}
			return
		}
		if IsTextU(t) {
			f.TextU = true
			if t.PkgPath() != spPkg {
				f.StdU = true
			}
			return
		}
		onPath[t] = true
		defer func() { onPath[t] = false; done[t] = true }()
		switch t.Kind() {
		case reflect.Pointer:
			f.Ptr = true
			walk(t.Elem(), d+1)
		case reflect.Slice:
			f.Slice = true
			if t.Elem().Kind() == reflect.Uint8 {
				f.Bytes = true
			}
			walk(t.Elem(), d+1)
		case reflect.Array:
			f.Array = true
			walk(t.Elem(), d+1)
		case reflect.Map:
			f.Map = true
			if IsTextKey(t.Key()) {
				f.TextKey = true
				if t.Key().PkgPath() != spPkg {
					f.StdU = true
				}
			}
			walk(t.Elem(), d+1)
		case reflect.Interface:
			f.Any = true
		case reflect.Struct:
			f.Struct = true
			if t.NumField() == 0 {
				f.EmptyStruct = true
			}
			for _, fd := range Fields(t) {
				if fd.Quoted {
					f.Quoted = true
					if fd.Type.Kind() == reflect.Pointer {
						f.QuotedPtr = true
					}
				}
				walk(fd.Type, d+1)
			}
		case reflect.String:
			if IsNumber(t) {
				f.Number = true
			} else {
				f.Str = true
			}
		case reflect.Float32, reflect.Float64:
			f.Float = true
		case reflect.Bool:
		default:
			f.Int = true
		}
	}
	walk(t, 0)
	featCache.Store(t, f)
	return f
}
