package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	jd "github.com/romshark/jscan-experimental-decoder"
	"verif/harness/hv"
	"verif/harness/jg"
	"verif/harness/orc"
	"verif/harness/pbt"
	"verif/harness/sp"
)

// mild makes documents that are mostly acceptable but otherwise irregular.
func mild(s *pbt.Src) jg.Cfg {
	c := jg.Cfg{Null: 60, Dup: 30, Unknown: 50, Case: 60, Esc: 60, Empty: 60, Lone: 30, Skip: 150, Long: 30}
	switch s.W(6, 3, 1) {
	case 1:
		c.Budget = 120
	case 2:
		c.Budget = 500
	}
	switch s.W(5, 1, 1, 1) {
	case 1:
		c.Null = 300
	case 2:
		c = jg.Cfg{Budget: c.Budget}
	case 3:
		c.Esc, c.Unknown, c.Dup = 300, 200, 200
	}
	return c
}

// faulty adds faults of all kinds at a random rate.
func faulty(s *pbt.Src, c jg.Cfg) jg.Cfg {
	r := pbt.Pick(s, []int{20, 60, 150})
	w := func() int {
		if s.P(350) {
			return r
		}
		return 0
	}
	c.Mismatch, c.Overflow, c.BadQ, c.BadKey, c.Err = w(), w(), w(), w(), w()
	if c.Mismatch+c.Overflow+c.BadQ+c.BadKey+c.Err == 0 {
		c.Mismatch = r
	}
	return c
}

// dcase is a document for a destination, decoded once.
type dcase struct {
	e    *Env
	h    hv.H
	doc  *jg.Node
	text []byte
	opt  *jd.DecodeOptions
	mode int
	p    any           // the destination, a *T
	rv   reflect.Value // the *R of encoding/json
	pre  string
	out  Out
	jerr error
	fill *orc.Filler
}

func (e *Env) newCase(s *pbt.Src, h hv.H, c jg.Cfg) *dcase {
	d := &dcase{e: e, h: h, opt: jd.DefaultOptions}
	d.doc = jg.Doc(s, h.T(), c)
	d.text = printDoc(s, d.doc)
	d.p = h.New()
	d.rv = reflect.New(h.R())
	return d
}

// prefill gives both destinations the same random contents.
func (d *dcase) prefill(s *pbt.Src, spare bool) {
	d.fill = &orc.Filler{S: s, Depth: s.Range(2, 7), Budget: 60, Spare: spare, WithCanaries: true}
	d.fill.Fill(deref(d.p))
	orc.Copy(d.rv.Elem(), deref(d.p))
	d.pre = show(deref(d.p))
}

func (d *dcase) run() {
	in := append([]byte(nil), d.text...)
	d.out = d.e.exec(d.h, d.mode, in, d.p, d.opt)
}

func (d *dcase) runJSON() { d.jerr = json.Unmarshal(d.text, d.rv.Interface()) }

func (d *dcase) desc() string {
	pre := ""
	if d.pre != "" {
		pre = " into " + d.pre
	}
	o := ""
	if d.opt != nil && *d.opt != (jd.DecodeOptions{}) {
		o = fmt.Sprintf(" with %+v", *d.opt)
	}
	return fmt.Sprintf("%s: %s of %s%s%s => %v", d.h.Name(), modeName[d.mode], clip(d.text, 1500), pre, o, d.out)
}

func (d *dcase) res() *Res {
	return &Res{Key: docKey(d.h, d.text, pbt.HashBytes(d.pre)), desc: d.desc}
}

// compare holds the outcome against encoding/json: the value if the decode
// succeeded and, if verdict is set, the verdict.
func (d *dcase) compare(r *Res, verdict bool) {
	switch {
	case d.out.Panic != "":
		r.Fail = "panic: " + d.out.Panic
	case d.out.Err == nil && d.jerr != nil:
		r.Fail = fmt.Sprintf("decoded without error to %s but encoding/json reports %v", show(deref(d.p)), d.jerr)
	case d.out.Err != nil && d.jerr == nil:
		if verdict {
			r.Fail = fmt.Sprintf("%v, but encoding/json decodes it to %s", d.out, show(d.rv.Elem()))
		}
	case d.out.Err == nil:
		if diff := orc.Eq(deref(d.p), d.rv.Elem()); diff != "" {
			r.Fail = fmt.Sprintf("decoded to %s, encoding/json gives %s; difference at %s", show(deref(d.p)), show(d.rv.Elem()), diff)
		} else if d.out.Idx != -1 && d.out.Idx != -2 {
			r.Fail = fmt.Sprintf("success with error index %d", d.out.Idx)
		}
	}
}

func init() {
	sp.Rec = false
	register(&Prop{
		ID:   "C01",
		Rule: "documents generated for a destination type (duplicate, unknown, case-varied and escaped members, nulls, surplus elements, whitespace) decoded into a zero value and compared with encoding/json; non-trivial: decoded without error with at least 3 values in the document",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "all", anyType)
			d := e.newCase(s, h, mild(s))
			d.mode = pickMode(s, d.opt)
			d.run()
			d.runJSON()
			r := d.res()
			d.compare(r, false)
			r.NonTrivial = d.out.Err == nil && d.doc.Count() >= 3
			if d.out.Err == nil && r.Fail == "" && s.P(300) {
				m := jg.Model{Text: d.text, NoRun: true}
				m.Run(d.doc, h.T())
				if !jg.HasRepeats(d.doc, d.opt) {
					if err := jg.Check(d.doc, h.T(), deref(d.p), false, d.opt); err != nil {
						r.Fail = "decoded to " + show(deref(d.p)) + " but " + err.Error()
					}
				}
			}
			return r
		},
	})
	register(&Prop{
		ID:   "C02",
		Rule: "documents with wrong types, out-of-range numbers, bad quoted values and keys and failing unmarshalers planted at random rates; the verdict is compared with encoding/json; non-trivial: at least 2 values in the document (a class per verdict is counted)",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "all", anyType)
			c := mild(s)
			if !s.P(150) {
				c = faulty(s, c)
			}
			c.StdBad = 100
			d := e.newCase(s, h, c)
			if s.P(200) {
				d.prefill(s, false)
			}
			d.mode = pickMode(s, d.opt)
			d.run()
			d.runJSON()
			r := d.res()
			r.Counts = []string{"accepted"}
			if d.jerr != nil {
				r.Counts = []string{"rejected"}
			}
			if d.out.Panic != "" || (d.out.Err == nil) != (d.jerr == nil) {
				r.Fail = fmt.Sprintf("%v, but encoding/json says: %v", d.out, d.jerr)
			}
			r.NonTrivial = d.doc.Count() >= 2
			return r
		},
	})
	register(&Prop{
		ID:   "C03",
		Rule: "valid documents damaged by truncation, insertion, deletion, replacement, duplication and swapping of bytes, trailing data, bad literals, bad escapes, deep nesting (200000 levels now and then), or entirely random bytes, for every type and option set; non-trivial: the text is not valid JSON by encoding/json's scanner (valid ones are compared with encoding/json)",
		Notes: []string{
			"validity is that of encoding/json.Valid",
		},
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "all", anyType)
			c := mild(s)
			if s.P(300) {
				c = faulty(s, c)
			}
			if s.Intn(10000) == 9999 {
				return deep(e, s, h, c)
			}
			d := e.newCase(s, h, c)
			d.text = mutate(s, d.text)
			if s.P(200) {
				d.prefill(s, false)
			}
			if s.P(300) {
				d.opt = pickOpt(s)
			}
			d.mode = pickMode(s, d.opt)
			d.run()
			r := d.res()
			valid := json.Valid(d.text)
			r.NonTrivial = !valid
			switch {
			case d.out.Panic != "":
				r.Fail = "panic: " + d.out.Panic
			case !valid && d.out.Err == nil:
				r.Fail = "malformed input accepted, decoded to " + show(deref(d.p))
			case d.out.Err != nil && d.out.Idx != -2 && (d.out.Idx < 0 || d.out.Idx > len(d.text)):
				r.Fail = fmt.Sprintf("%v: error index outside the input of %d bytes", d.out, len(d.text))
			}
			if !valid {
				r.Counts = []string{"malformed"}
			}
			return r
		},
	})
	register(&Prop{
		ID:   "C04",
		Rule: "documents decoded into destinations filled with random contents (pointers, maps, slices with spare capacity, any) and compared with encoding/json doing the same on a deep copy; non-trivial: decoded without error with at least 2 values into contents that are not all zero",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "all", anyType)
			c := mild(s)
			c.Null = pbt.Pick(s, []int{80, 0, 250})
			d := e.newCase(s, h, c)
			d.prefill(s, s.P(400))
			zero := deref(d.p).IsZero()
			d.mode = pickMode(s, d.opt)
			idT, idR := ident{}, ident{}
			idT.collect(deref(d.p), "v", true)
			idR.collect(d.rv.Elem(), "v", true)
			d.run()
			d.runJSON()
			r := d.res()
			d.compare(r, false)
			if r.Fail == "" && d.out.Err == nil {
				r.Fail = sameIdentity(idT, idR, deref(d.p), d.rv.Elem(), true)
			}
			r.NonTrivial = d.out.Err == nil && d.doc.Count() >= 2 && !zero
			return r
		},
	})
}

// pickOpt chooses decode options.
func pickOpt(s *pbt.Src) *jd.DecodeOptions {
	o := &jd.DecodeOptions{DisallowUnknownFields: s.P(350), DisableFieldNameUnescaping: s.P(350), DisableCaseInsensitiveMatching: s.P(350)}
	if *o == (jd.DecodeOptions{}) {
		return jd.DefaultOptions
	}
	return o
}

var junk = []string{
	"{", "}", "[", "]", ",", ":", "\"", "null", "true", "false", "nul", "tru", "0", "-", "1", ".", "e", "+", "\\", "\\u12", "\\x", "\x00", "\x1f", "\xff",
	"\xc3", " ", "\n", "//", "/**/", "'", "\"a\":", "[[", "{{", "]]", "}}", "\"\"", ",,", "NaN", "01", "1.", "\t\t", "\ufeff", "é", "{}", "[]", "\"\\ud800\"",
}

// mutate damages a text.
func mutate(s *pbt.Src, text []byte) []byte {
	b := append([]byte(nil), text...)
	if s.P(30) { // deep nesting
		n := []int{s.Range(50, 3000), s.Range(1000, 9000)}[s.W(10, 1)]
		l := pbt.Pick(s, []string{"[", "{\"a\":", "[{\"Next\":", "{\"Kids\":[", "{\"M\":{\"\":"})
		if n > 4500 {
			n /= bytes.Count([]byte(l), []byte("[")) + bytes.Count([]byte(l), []byte("{")) // encoding/json allows 10000 levels
		}
		b = bytes.Repeat([]byte(l), n)
		if s.P(600) { // closed
			var cl []byte
			for i := len(l) - 1; i >= 0; i-- {
				switch l[i] {
				case '[':
					cl = append(cl, ']')
				case '{':
					cl = append(cl, '}')
				}
			}
			b = append(b, pbt.Pick(s, []string{"1", "null", "{}", "[]", "[1,2]", "\"\""})...)
			b = append(b, bytes.Repeat(cl, n)...)
			if s.P(300) { // somewhere inside
				b[s.Intn(len(b))] = pbt.Pick(s, []byte("]},:[{0 \""))
			}
		}
		return b
	}
	if s.P(40) { // random bytes
		n := s.Intn(40)
		b = b[:0]
		for i := 0; i < n; i++ {
			if s.P(700) {
				b = append(b, "{}[],:\"\\0123456789-+.eEtrufalsn \n\tAaVv"[s.Intn(38)])
			} else {
				b = append(b, byte(s.Intn(256)))
			}
		}
		return b
	}
	for k := s.W(10, 3, 1) + 1; k > 0; k-- {
		n := len(b)
		at := 0
		if n > 0 {
			at = s.Intn(n)
		}
		switch s.W(3, 3, 3, 3, 2, 2, 2, 2) {
		case 0: // truncate
			b = b[:at]
		case 1: // insert
			j := pbt.Pick(s, junk)
			b = append(b[:at], append([]byte(j), b[at:]...)...)
		case 2: // delete
			if n > 0 {
				e := at + 1 + s.Intn(3)
				if e > n {
					e = n
				}
				b = append(b[:at], b[e:]...)
			}
		case 3: // replace
			if n > 0 {
				const repl = "{}[],:\"\\0123456789-+.eEtfn \x00\x7f\x80"
				b[at] = repl[s.Intn(len(repl))]
			}
		case 4: // trailing
			b = append(b, pbt.Pick(s, junk)...)
		case 5: // duplicate a part
			e := at + s.Intn(8)
			if e > n {
				e = n
			}
			b = append(b[:e], append(append([]byte(nil), b[at:e]...), b[e:]...)...)
		case 6: // swap
			if n > 1 && at+1 < n {
				b[at], b[at+1] = b[at+1], b[at]
			}
		default: // random byte
			if n > 0 {
				b[at] = byte(s.Intn(256))
			}
		}
	}
	return b
}

// ident maps the paths of pointers, maps and slices to where they point.
type ident map[string]uintptr

func (m ident) collect(v reflect.Value, path string, slices bool) {
	t := v.Type()
	if jg.IsJSONU(t) || jg.IsTextU(t) || len(m) > 2000 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if t.Elem().Size() > 0 {
			m[path] = v.Pointer()
		}
		m.collect(v.Elem(), "*"+path, slices)
	case reflect.Map:
		if v.IsNil() {
			return
		}
		m[path] = v.Pointer()
		for it := v.MapRange(); it.Next(); {
			m.collect(it.Value(), path+"["+orc.Show(it.Key(), 100)+"]", slices)
		}
	case reflect.Slice:
		if v.Len() > 0 && t.Elem().Size() > 0 && slices {
			m[path] = v.Pointer()
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			m.collect(v.Index(i), fmt.Sprintf("%s[%d]", path, i), slices)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			m.collect(v.Field(i), path+"."+t.Field(i).Name, slices)
		}
	}
}

// sameIdentity tells whether the decoder reused the same pointees, maps (and
// slice arrays) as encoding/json did.
func sameIdentity(beforeT, beforeR ident, t, r reflect.Value, slices bool) string {
	at, ar := ident{}, ident{}
	at.collect(t, "v", slices)
	ar.collect(r, "v", slices)
	for path, old := range beforeT {
		x, ok1 := at[path]
		y, ok2 := ar[path]
		oldR, ok3 := beforeR[path]
		if !ok1 || !ok2 || !ok3 {
			continue
		}
		if (x == old) != (y == oldR) {
			return fmt.Sprintf("what %s refers to was reused: %v, by encoding/json: %v", path, x == old, y == oldR)
		}
	}
	return ""
}

// ownStorage tells whether distinct positions of a decoded value share what
// they refer to.
func ownStorage(v reflect.Value) string {
	m := ident{}
	m.collect(v, "v", true)
	seen := map[uintptr]string{}
	for path, p := range m {
		if o, ok := seen[p]; ok {
			// A pointer to an array and a slice of it do not occur; a pointer to a
			// struct and the first field's own pointee cannot coincide.
			return fmt.Sprintf("%s and %s share storage", o, path)
		}
		seen[p] = path
	}
	return ""
}
