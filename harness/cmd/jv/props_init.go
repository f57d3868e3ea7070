package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan/v2"
	"verif/harness/hv"
	"verif/harness/jg"
	"verif/harness/orc"
	"verif/harness/pbt"
	"verif/harness/sp"
)

// initVerdict is what the model says about a destination type.
type initVerdict struct {
	unsupported bool
	stringTag   bool // a string option where it cannot apply
	unclear     bool // embedded fields, whose treatment is not part of the property
}

var initVerdicts = map[reflect.Type]initVerdict{}

func verdictOf(t reflect.Type) initVerdict {
	if v, ok := initVerdicts[t]; ok {
		return v
	}
	var v initVerdict
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Kind() == reflect.Interface {
			v.unsupported = v.unsupported || t.NumMethod() > 0
			return
		}
		if jg.IsJSONU(t) || jg.IsTextU(t) {
			return
		}
		if t.PkgPath() == reflect.TypeOf(sp.UJ{}).PkgPath() && strings.HasPrefix(t.Name(), "Bad") {
			v.unsupported = true
			return
		}
		switch t.Kind() {
		case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.Uintptr, reflect.UnsafePointer:
			v.unsupported = true
		case reflect.Pointer, reflect.Slice:
			walk(t.Elem())
		case reflect.Array:
			if t.Len() > 0 {
				walk(t.Elem())
			}
		case reflect.Map:
			if !jg.IsTextKey(t.Key()) {
				switch t.Key().Kind() {
				case reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
					reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				default:
					v.unsupported = true
				}
			}
			walk(t.Elem())
		case reflect.Struct:
			visible := map[int]bool{}
			for _, f := range jg.Fields(t) {
				visible[f.Index] = true
			}
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				if f.Anonymous {
					v.unclear = true
				}
				if !f.IsExported() || f.Tag.Get("json") == "-" {
					continue
				}
				if !visible[i] {
					// Never decoded into, because another field has its name.
					v.unclear = v.unclear || !harmless(f.Type) || f.Tag.Get("json") != "" && strings.HasSuffix(f.Tag.Get("json"), ",string")
					continue
				}
				walk(f.Type)
				for _, o := range strings.Split(f.Tag.Get("json"), ",")[1:] {
					if o != "string" {
						continue
					}
					ft := f.Type
					if ft.Kind() == reflect.Pointer && ft.Name() == "" {
						ft = ft.Elem()
					}
					switch {
					case jg.IsJSONU(ft), jg.IsTextU(ft), jg.IsNumber(ft):
						// Nobody says whether these can have the option.
						v.unclear = v.unclear || jg.QuotableKind(ft.Kind())
						v.stringTag = true
					case !jg.QuotableKind(ft.Kind()):
						v.stringTag = true
					}
				}
			}
		}
	}
	walk(t)
	initVerdicts[t] = v
	return v
}

// harmless tells whether t is supported whoever looks at it.
func harmless(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return true
	}
	return false
}

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "destination types with unsupported types planted at random depths, string options on arbitrary fields, embedded fields, and all supported types, with random init options, nil and non-nil destinations, valid and malformed input, by NewDecoder and Unmarshal of both input kinds; the verdict is compared with a reflection model; non-trivial: the type is unsupported or has a misplaced string option, or the destination is nil",
		Run:  initialize,
	})
}

func initialize(e *Env, s *pbt.Src) *Res {
	r := &Res{}
	var h hv.H
	if s.P(750) {
		h = pbt.Pick(s, hv.Bad)
	} else {
		h = e.pick(s, "all", anyType)
	}
	v := verdictOf(h.T())
	io := jd.DefaultInitOptions
	disallow := s.P(500)
	if disallow || s.P(300) {
		io = &jd.InitOptions{DisallowStringTagOptOnUnsupportedTypes: disallow}
	}
	var text []byte
	switch {
	case !v.unsupported && s.P(700):
		c := mild(s)
		if s.P(300) {
			c = faulty(s, c)
		}
		text = printDoc(s, jg.Doc(s, h.T(), c))
	case s.P(500):
		g := &jg.Gen{S: s, C: jg.Cfg{Dup: 30, Esc: 30}}
		text = printDoc(s, g.Any(0, 3))
	default:
		text = mutate(s, []byte(pbt.Pick(s, []string{`{"A":1}`, `null`, `[[],{}]`, ``, `"x"`, `1`})))
	}
	isNil := s.P(250)
	p := h.New()
	if isNil {
		p = h.Nil()
	}
	str := s.P(500)
	var out Out
	var initErr error
	unm := s.P(350)
	r.Key = docKey(h, text, uint64(b2i(disallow)), uint64(b2i(isNil)), uint64(b2i(unm)))
	r.desc = func() string {
		return fmt.Sprintf("%s: Unmarshal=%v string=%v %+v nil=%v %s => init error %v, %v", h.Name(), unm, str, *io, isNil, clip(text, 300), initErr, out)
	}
	func() {
		defer guardPanic(&out)
		noteCall("initialization", h.Name(), text, nil)
		switch {
		case unm && str:
			out.Idx, out.Err = -2, h.UnmarshalS(string(text), p)
		case unm:
			out.Idx, out.Err = -2, h.UnmarshalB(text, p)
		case str:
			var d hv.Dec[string]
			if d, initErr = h.NewS(jscan.NewTokenizer[string](8, 32), io); initErr == nil {
				out.Idx, out.Err = d(string(text), p, jd.DefaultOptions)
			}
		default:
			var d hv.Dec[[]byte]
			if d, initErr = h.NewB(jscan.NewTokenizer[[]byte](8, 32), io); initErr == nil {
				out.Idx, out.Err = d(text, p, jd.DefaultOptions)
			}
		}
	}()
	r.NonTrivial = v.unsupported || v.stringTag || isNil
	if v.unsupported {
		r.Counts = append(r.Counts, "unsupported")
	}
	if v.stringTag {
		r.Counts = append(r.Counts, "misplaced string option")
	}
	if isNil {
		r.Counts = append(r.Counts, "nil destination")
	}
	if out.Panic != "" {
		r.Fail = "panic: " + out.Panic
		return r
	}
	if v.unclear {
		r.Counts = append(r.Counts, "unclear")
		return r
	}
	if unm {
		switch {
		case isNil && out.Err != jd.ErrNilDest:
			r.Fail = fmt.Sprintf("Unmarshal into nil: %v", out)
		case v.unsupported && out.Err == nil:
			r.Fail = "Unmarshal into an unsupported type reports success"
		case out.Err == jd.ErrStringTagOptionOnUnsupportedType:
			r.Fail = "Unmarshal reports a misplaced string option"
		case !isNil && !v.unsupported && string(text) == "null" && out.Err != nil && !mayFailOnNull(h.T()):
			r.Fail = fmt.Sprintf("Unmarshal of null: %v", out)
		}
		return r
	}
	switch {
	case v.unsupported && initErr == nil:
		r.Fail = "a decoder for an unsupported type was created"
	case v.unsupported:
		if initErr == jd.ErrStringTagOptionOnUnsupportedType && !(disallow && v.stringTag) {
			r.Fail = "ErrStringTagOptionOnUnsupportedType for another problem"
		}
	case disallow && v.stringTag:
		if initErr != jd.ErrStringTagOptionOnUnsupportedType {
			r.Fail = fmt.Sprintf("misplaced string option: init error %v, want ErrStringTagOptionOnUnsupportedType", initErr)
		}
	case initErr != nil:
		r.Fail = fmt.Sprintf("no decoder for a supported type: %v", initErr)
	case isNil && out.Err != jd.ErrNilDest:
		r.Fail = fmt.Sprintf("decoding into nil: %v", out)
	case !isNil && out.Err == jd.ErrNilDest:
		r.Fail = "ErrNilDest for a non-nil destination"
	}
	if r.Fail == "" && initErr == nil && !isNil && v.stringTag && out.Err == nil && !jg.FeatOf(h.T()).Number {
		r.Fail = stringTagIgnored(h, text, p)
	}
	return r
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// mayFailOnNull tells whether a null at the root reaches an unmarshaler.
func mayFailOnNull(t reflect.Type) bool { return jg.IsJSONU(t) }

// stringTagIgnored checks a value decoded for a type with string options that
// have no effect.
func stringTagIgnored(h hv.H, text []byte, p any) string {
	rv := reflect.New(h.R())
	if err := json.Unmarshal(text, rv.Interface()); err != nil {
		return fmt.Sprintf("accepted, but encoding/json says %v", err)
	}
	if diff := orc.Eq(deref(p), rv.Elem()); diff != "" {
		return fmt.Sprintf("a string option without effect changes the value: decoded to %s, encoding/json gives %s; difference at %s", show(deref(p)), show(rv.Elem()), diff)
	}
	return ""
}
