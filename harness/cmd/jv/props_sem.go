package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"

	jd "github.com/romshark/jscan-experimental-decoder"
	"verif/harness/hv"
	"verif/harness/jg"
	"verif/harness/orc"
	"verif/harness/pbt"
	"verif/harness/sp"
)

// judge compares outcome, error kind and index with the model's first fault.
func (d *dcase) judge(r *Res) jg.Fault {
	m := jg.Model{Opt: *d.opt, Text: d.text}
	f := m.Run(d.doc, d.h.T())
	switch {
	case d.out.Panic != "":
		r.Fail = "panic: " + d.out.Panic
	case f.Kind == jg.None && d.out.Err != nil:
		r.Fail = fmt.Sprintf("%v, but the destination accepts the document", d.out)
	case f.Kind != jg.None && d.out.Err == nil:
		r.Fail = fmt.Sprintf("no error, but the value or key at %d cannot be accepted (%v)", f.Node.Pos, f.Kind)
	case f.Kind == jg.None:
		if d.out.Idx != -1 && d.out.Idx != -2 {
			r.Fail = fmt.Sprintf("success with error index %d", d.out.Idx)
		}
	default:
		if d.out.Idx != -2 && d.out.Idx != f.Node.Pos {
			r.Fail = fmt.Sprintf("%v, but the first value or key that cannot be accepted is at %d (%v)", d.out, f.Node.Pos, f.Kind)
		}
		switch f.Kind {
		case jg.FloatRange, jg.Base64:
		case jg.Callback:
			if d.out.Err != f.Err && (reflect.TypeOf(d.out.Err) != reflect.TypeOf(f.Err) || d.out.Err.Error() != f.Err.Error()) {
				r.Fail = fmt.Sprintf("%v, but the unmarshaler returned %v", d.out, f.Err)
			}
		default:
			if kind(d.out.Err) != f.Kind.String() {
				r.Fail = fmt.Sprintf("%v, want %v at %d", d.out, f.Kind, f.Node.Pos)
			}
		}
	}
	return f
}

// numberMethods holds the methods of all Numbers in v against those of
// encoding/json's Number.
func numberMethods(v reflect.Value, d int) string {
	if d > 12 {
		return ""
	}
	switch v.Kind() {
	case reflect.String:
		if !v.CanInterface() {
			return ""
		}
		n, ok := v.Interface().(jd.Number)
		if !ok {
			return ""
		}
		j := json.Number(n)
		i1, e1 := n.Int64()
		i2, e2 := j.Int64()
		f1, e3 := n.Float64()
		f2, e4 := j.Float64()
		if n.String() != j.String() || i1 != i2 || (e1 == nil) != (e2 == nil) ||
			math.Float64bits(f1) != math.Float64bits(f2) || (e3 == nil) != (e4 == nil) {
			return fmt.Sprintf("Number %q: String %q, Int64 %d %v, Float64 %v %v; json.Number: %d %v, %v %v", string(n), n.String(), i1, e1, f1, e3, i2, e2, f2, e4)
		}
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			return numberMethods(v.Elem(), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if m := numberMethods(v.Field(i), d+1); m != "" {
				return m
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len() && i < 50; i++ {
			if m := numberMethods(v.Index(i), d+1); m != "" {
				return m
			}
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if m := numberMethods(it.Value(), d+1); m != "" {
				return m
			}
		}
	}
	return ""
}

// dup0 removes irregularities that make the value depend on several members.
func dup0(c jg.Cfg) jg.Cfg {
	c.Dup = 0
	return c
}

func isStructy(t reflect.Type, f jg.Feat) bool { return f.Struct }

// scalarRun is the common part of the properties about scalars: the outcome is
// judged by the model and the value by the document itself and by encoding/json.
func scalarRun(e *Env, s *pbt.Src, h hv.H, c jg.Cfg) (*dcase, *Res) {
	d := e.newCase(s, h, c)
	d.mode = pickMode(s, d.opt)
	d.run()
	r := d.res()
	f := d.judge(r)
	if r.Fail == "" && f.Kind == jg.None {
		if !jg.HasRepeats(d.doc, d.opt) {
			if err := jg.Check(d.doc, h.T(), deref(d.p), false, d.opt); err != nil {
				r.Fail = fmt.Sprintf("decoded to %s but %v", show(deref(d.p)), err)
			}
		}
		d.runJSON()
		if r.Fail == "" && d.jerr == nil {
			d.compare(r, false)
		}
	}
	if f.Kind != jg.None {
		r.Counts = []string{f.Kind.String()}
	} else {
		r.Counts = []string{"accepted"}
	}
	return d, r
}

func count(d *dcase, k string) int {
	n := 0
	d.doc.Walk(func(x *jg.Node) {
		for i := range k {
			if x.K == k[i] {
				n++
			}
		}
	})
	return n
}

func init() {
	register(&Prop{
		ID:   "C08",
		Rule: "documents with at most a few planted faults, decoded with random options; success, error index and error kind are compared with a reference model that walks the document in order; non-trivial: the model finds a fault that is not the root value (classes count the kinds)",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "all", anyType)
			c := mild(s)
			if !s.P(100) {
				c = faulty(s, c)
			}
			c.StdBad = 50
			d := e.newCase(s, h, c)
			if s.P(150) {
				d.prefill(s, false)
			}
			if s.P(400) {
				d.opt = pickOpt(s)
			}
			d.mode = pickMode(s, d.opt)
			d.run()
			r := d.res()
			f := d.judge(r)
			r.NonTrivial = f.Kind != jg.None && f.Node != d.doc
			if f.Kind != jg.None {
				r.Counts = []string{f.Kind.String()}
			}
			return r
		},
	})
	register(&Prop{
		ID:   "C09",
		Rule: "documents for types holding integers in every context, with literals at, near and beyond the bounds of the type, of any digit count and sign; values and verdicts are checked by arbitrary precision arithmetic; non-trivial: the document holds a number (or key) with at least 2 digits",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pickShallow(s, "ints", 4, func(t reflect.Type, f jg.Feat) bool { return f.Int && !f.StdU })
			c := jg.Cfg{Null: 20, Skip: 100, Overflow: pbt.Pick(s, []int{0, 60, 200}), BadKey: pbt.Pick(s, []int{0, 0, 60}), BadQ: pbt.Pick(s, []int{0, 0, 60}), Long: 60, Budget: 30}
			_, r := scalarRun(e, s, h, c)
			r.NonTrivial = bytes.ContainsAny(lastText(r), "123456789")
			return r
		},
	})
	register(&Prop{
		ID:   "C10",
		Rule: "documents for types holding float32, float64, any or Number in every context, with literals of all forms: short and long integers, halfway cases, subnormals, huge and tiny exponents, negative zero; values are compared bit by bit with strconv and literally for Number; non-trivial: the document holds at least one number",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pickShallow(s, "floats", 4, func(t reflect.Type, f jg.Feat) bool {
				return (f.Float || f.Number || f.Any) && !f.StdU
			})
			c := jg.Cfg{Null: 20, Skip: 100, Overflow: pbt.Pick(s, []int{0, 0, 80}), BadQ: pbt.Pick(s, []int{0, 100}), Long: 60, Budget: 30, Empty: 20}
			d, r := scalarRun(e, s, h, c)
			r.NonTrivial = count(d, "#") > 0
			if r.Fail == "" && d.out.Err == nil {
				r.Fail = numberMethods(deref(d.p), 0)
			}
			return r
		},
	})
	register(&Prop{
		ID:   "C11",
		Rule: "documents for types holding strings, string keys, any, text unmarshalers and field names, with escapes of every form at every position, surrogate pairs, lone surrogates, control characters and lengths up to hundreds of bytes; values are compared with the text the generator encoded; non-trivial: the document holds a string with an escape",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pickShallow(s, "strings", 4, func(t reflect.Type, f jg.Feat) bool {
				return (f.Str || f.Any || f.TextU || f.Map || f.TextKey) && !f.StdU
			})
			c := jg.Cfg{Null: 10, Skip: 100, Esc: pbt.Pick(s, []int{30, 200, 700, 0}), Lone: pbt.Pick(s, []int{0, 60, 200}), Long: 120, Budget: 25, Empty: 20, Unknown: 50, Huge: 12}
			d, r := scalarRun(e, s, h, c)
			r.NonTrivial = bytes.IndexByte(d.text, '\\') >= 0
			return r
		},
	})
	register(&Prop{
		ID:   "C12",
		Rule: "objects for struct types whose keys are exact names, case variants (with letters of other byte length), near misses, escaped spellings, duplicates and unknown names, under every combination of options; the value must be what encoding/json makes of the document rewritten to exact names by an independent model; non-trivial: at least one key selects a field by case folding, needs unescaping or is unknown",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "structs", isStructy)
			c := jg.Cfg{Null: 20, Dup: 80, Unknown: 150, Case: pbt.Pick(s, []int{0, 200, 600}), Esc: pbt.Pick(s, []int{0, 30, 200}), Skip: 150, Budget: 40, Empty: 20}
			d := e.newCase(s, h, c)
			if s.P(700) {
				d.opt = pickOpt(s)
			}
			d.mode = pickMode(s, d.opt)
			d.run()
			r := d.res()
			f := d.judge(r)
			if r.Fail != "" || f.Kind != jg.None {
				return r
			}
			special := 0
			exact := d.doc.Clone()
			exact.Walk(func(x *jg.Node) {
				if x.ST == nil {
					return
				}
				fs := jg.Fields(x.ST)
				var keys, kids []*jg.Node
				for i, k := range x.Keys {
					fd := jg.Select(fs, k, d.opt)
					if fd == nil {
						special++
						continue
					}
					if k.Lit != `"`+fd.Name+`"` {
						special++
					}
					keys = append(keys, jg.Quote(fd.Name))
					kids = append(kids, x.Kids[i])
				}
				x.Keys, x.Kids = keys, kids
			})
			// Raw values keep their text because both are printed compactly.
			d.jerr = json.Unmarshal(jg.Print(exact, nil), d.rv.Interface())
			if jg.FeatOf(h.T()).JSONU && bytes.ContainsAny(d.text, " \n\t\r") {
				return r
			}
			if d.jerr == nil {
				if diff := orc.Eq(deref(d.p), d.rv.Elem()); diff != "" {
					r.Fail = fmt.Sprintf("decoded to %s, the document rewritten to exact names gives %s; difference at %s", show(deref(d.p)), show(d.rv.Elem()), diff)
				}
			}
			r.NonTrivial = special > 0
			return r
		},
	})
	register(&Prop{
		ID:   "C13",
		Rule: "a document and the same document with members of unknown names and arbitrary (deeply nested, empty, large) values inserted at random places of the objects decoded into structs: equal outcome, and ErrUnknownField at the first one with DisallowUnknownFields; non-trivial: at least one member was inserted",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "structs", isStructy)
			c := jg.Cfg{Null: 40, Skip: 200, Budget: 40, Empty: 100, Case: 30, Dup: 20}
			if s.P(200) {
				c = faulty(s, c)
			}
			d := e.newCase(s, h, c)
			d.text = jg.Print(d.doc, nil)
			m := jg.Model{Text: d.text, NoRun: true}
			m.Run(d.doc, h.T())
			base := clone(d.p)
			if s.P(200) {
				d.prefill(s, false)
				base = clone(d.p)
			}
			d.mode = pickMode(s, d.opt)
			d.run()
			r := d.res()
			inserted := 0
			g := &jg.Gen{S: s, C: jg.Cfg{Esc: 50, Lone: 30, Long: 30, Dup: 30}}
			ext := d.doc.Clone()
			ext.Walk(func(x *jg.Node) {
				if x.ST == nil {
					return
				}
				fs := jg.Fields(x.ST)
				for i := len(x.Keys); i >= 0; i-- {
					for n := s.W(50, 20, 3); n > 0; n-- {
						k, v := g.Unknown(fs), g.Any(0, s.W(2, 3, 3, 2, 1))
						if s.P(10) {
							v = g.Chain(fs)
						}
						x.Keys = append(x.Keys[:i], append([]*jg.Node{k}, x.Keys[i:]...)...)
						x.Kids = append(x.Kids[:i], append([]*jg.Node{v}, x.Kids[i:]...)...)
						inserted++
					}
				}
			})
			if inserted == 0 {
				return r
			}
			r.NonTrivial = true
			text2 := jg.Print(ext, nil)
			d2 := &dcase{e: e, h: h, doc: ext, text: text2, opt: jd.DefaultOptions, mode: d.mode, p: clone(base), pre: d.pre}
			r.desc = func() string { return d.desc() + " versus " + d2.desc() }
			r.Key = docKey(h, text2)
			d2.run()
			if d.out.Panic+d2.out.Panic != "" {
				r.Fail = "panic: " + d.out.Panic + d2.out.Panic
			} else if (d.out.Err == nil) != (d2.out.Err == nil) || kind(d.out.Err) != kind(d2.out.Err) {
				r.Fail = fmt.Sprintf("%v without the unknown members, %v with them", d.out, d2.out)
			} else if diff := orc.Eq(deref(d.p), deref(d2.p)); diff != "" && d.out.Err == nil {
				r.Fail = fmt.Sprintf("%s without the unknown members, %s with them: %s", show(deref(d.p)), show(deref(d2.p)), diff)
			}
			if r.Fail != "" {
				return r
			}
			d3 := &dcase{e: e, h: h, doc: ext, text: text2, opt: &jd.DecodeOptions{DisallowUnknownFields: true}, mode: d.mode & 3, p: clone(base), pre: d.pre}
			d3.run()
			if f := d3.judge(r); f.Kind == jg.UnknownField {
				r.Counts = append(r.Counts, "disallowed")
			}
			if r.Fail != "" {
				r.desc = d3.desc
				return r
			}
			// Without unknown members the option has no effect.
			strict := jg.Model{Opt: *d3.opt, Text: d.text, NoRun: true}
			if strict.Run(d.doc, h.T()); strict.KeyUnknown > 0 {
				return r
			}
			d4 := &dcase{e: e, h: h, doc: d.doc, text: d.text, opt: d3.opt, mode: d.mode & 3, p: clone(base), pre: d.pre}
			d4.run()
			if diff := sameOut(d.out, d4.out); diff != "" {
				r.Fail, r.desc = "DisallowUnknownFields changes a document without unknown members: "+diff, d4.desc
			} else if diff := orc.Eq(deref(d.p), deref(d4.p)); diff != "" {
				r.Fail, r.desc = "DisallowUnknownFields changes a document without unknown members: "+diff, d4.desc
			}
			return r
		},
	})
	register(&Prop{
		ID:   "C14",
		Rule: "objects with repeated and differently escaped keys decoded into nil, empty and filled maps of all key kinds and value types; compared with encoding/json and (for nil maps) with the document itself, then every entry is looked up and the map is extended and emptied; non-trivial: a map of at least 2 document keys was decoded",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "maps", func(t reflect.Type, f jg.Feat) bool { return f.Map })
			c := jg.Cfg{Null: 60, Dup: pbt.Pick(s, []int{0, 150, 400}), Esc: pbt.Pick(s, []int{0, 100}), Skip: 100, Budget: pbt.Pick(s, []int{40, 150}), Empty: 60, Lone: 20, Long: 80, BadKey: pbt.Pick(s, []int{0, 0, 0, 60})}
			d := e.newCase(s, h, c)
			if s.P(500) {
				d.prefill(s, false)
			}
			d.mode = pickMode(s, d.opt)
			d.run()
			d.runJSON()
			r := d.res()
			d.compare(r, true)
			if r.Fail != "" || d.out.Err != nil {
				return r
			}
			if d.pre == "" {
				m := jg.Model{Text: d.text, NoRun: true}
				m.Run(d.doc, h.T())
				if !jg.HasRepeats(d.doc, d.opt) {
					if err := jg.Check(d.doc, h.T(), deref(d.p), false, d.opt); err != nil {
						r.Fail = fmt.Sprintf("decoded to %s but %v", show(deref(d.p)), err)
					}
				}
			}
			d.doc.Walk(func(x *jg.Node) { r.NonTrivial = r.NonTrivial || x.K == '{' && x.ST == nil && len(x.Keys) >= 2 })
			if r.Fail == "" {
				r.Fail = exerciseMaps(s, deref(d.p), 0)
			}
			return r
		},
	})
	register(&Prop{
		ID:   "C15",
		Rule: "documents of random depth (up to thousands of levels) and branching for 38 recursive type shapes and their compositions, valid and faulty, into zero and filled destinations, by reused and fresh decoders; compared with encoding/json, errors with the model; non-trivial: the document is at least 4 levels deep",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "recur", func(t reflect.Type, f jg.Feat) bool { return f.Recur })
			c := jg.Cfg{Null: pbt.Pick(s, []int{40, 200, 0}), Dup: 15, Unknown: 30, Case: 20, Esc: 20, Empty: pbt.Pick(s, []int{60, 250}), Skip: pbt.Pick(s, []int{100, 400}),
				Budget: pbt.Pick(s, []int{30, 100, 300}), Depth: pbt.Pick(s, []int{6, 12, 40})}
			if s.P(40) {
				c.Depth, c.Budget, c.Skip, c.Null = 600, 1500, 500, 20
			}
			fault := s.P(200)
			if fault {
				c = faulty(s, c)
			}
			d := e.newCase(s, h, c)
			if s.P(12) && c.Depth <= 40 {
				// Repeat a few levels very often.
				if outer, ways := d.doc.Pumpable(); len(outer) > 0 {
					i := s.Intn(len(outer))
					if n := s.Range(50, pbt.Pick(s, []int{300, 1200, 4000})); n*len(ways[i]) < 4500 {
						outer[i].Pump(ways[i], n)
						d.text = printDoc(s, d.doc)
						if d.doc.Count() > 40000 {
							return &Res{Key: docKey(h, d.text)}
						}
					}
				}
			}
			if s.P(250) {
				d.prefill(s, s.P(300))
			}
			d.mode = pickMode(s, d.opt)
			d.run()
			d.runJSON()
			r := d.res()
			d.compare(r, true)
			if r.Fail == "" && fault {
				d.judge(r)
			}
			if dp := d.doc.Depth(); dp >= 4 {
				r.NonTrivial = true
				if dp >= 50 {
					r.Counts = append(r.Counts, pbt.If(dp >= 500, "500 levels or more", "50 levels or more"))
				}
			}
			return r
		},
	})
	register(&Prop{
		ID:   "C16",
		Rule: "documents for types with JSON and text unmarshalers of all kinds (structs, scalars, slices, maps, arrays, value and pointer receivers, map keys) in every context, some failing; the log of calls and their arguments is compared with the model's, the value with encoding/json, the error with the one returned; non-trivial: at least 2 calls",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "unmarshalers", func(t reflect.Type, f jg.Feat) bool { return f.JSONU || f.TextU || f.TextKey })
			c := jg.Cfg{Null: 120, Dup: 60, Esc: pbt.Pick(s, []int{0, 150}), Skip: 100, Budget: pbt.Pick(s, []int{25, 80}), Empty: 60, Lone: 30, Unknown: 30, Case: 20, Long: 30}
			if s.P(250) {
				c.Err = 100
			}
			if s.P(150) {
				c.Mismatch = 60
			}
			if s.P(100) {
				c.StdBad = 300
			}
			d := e.newCase(s, h, c)
			if s.P(300) {
				d.prefill(s, false)
			}
			d.mode = pickMode(s, d.opt)
			sp.ResetLog(true)
			d.run()
			got := sp.Calls
			sp.ResetLog(true)
			r := d.res()
			f := d.judge(r)
			want := sp.Calls
			sp.ResetLog(false)
			if r.Fail != "" {
				return r
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				r.Fail = fmt.Sprintf("calls %q, want %q", got, want)
				return r
			}
			r.NonTrivial = len(got) >= 2
			if f.Kind == jg.None {
				d.runJSON()
				if d.jerr == nil {
					d.compare(r, false)
				}
			} else if f.Kind == jg.Callback {
				r.Counts = []string{"callback error"}
			}
			return r
		},
	})
	register(&Prop{
		ID:   "C17",
		Rule: "documents for struct types with the string tag option on every scalar kind (and pointers to them): correct quoted literals in all spellings, unquoted values, partial, padded and out-of-range contents, null; judged by the model, checked against the document and encoding/json; non-trivial: a quoted field is present",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "quoted", func(t reflect.Type, f jg.Feat) bool { return f.Quoted && !f.StdU })
			c := jg.Cfg{Null: 40, Skip: pbt.Pick(s, []int{0, 300, 600}), BadQ: pbt.Pick(s, []int{0, 100, 300}), Esc: pbt.Pick(s, []int{0, 40, 200}), Mismatch: pbt.Pick(s, []int{0, 0, 60}), Budget: 25, Lone: 30, Overflow: pbt.Pick(s, []int{0, 0, 60})}
			if s.P(300) {
				d := e.newCase(s, h, c)
				d.prefill(s, false)
				d.mode = pickMode(s, d.opt)
				d.run()
				d.runJSON()
				r := d.res()
				d.compare(r, true)
				r.NonTrivial = d.doc.Count() > 1
				return r
			}
			d, r := scalarRun(e, s, h, c)
			r.NonTrivial = d.doc.Count() > 1
			return r
		},
	})
	register(&Prop{
		ID:   "C20",
		Rule: "a document printed compactly and again with random whitespace, escapes and (second relation) with the members of all objects permuted; equal values, and equal errors at corresponding places for whitespace and escapes, equal verdicts for permutations; non-trivial: at least 3 values in the document",
		Run:  formatting,
	})
	register(&Prop{
		ID:   "C22",
		Rule: "documents of arbitrary shape decoded into any and into containers of any, empty or holding values of various dynamic types; compared with the document's canonical dynamic value and with encoding/json; non-trivial: at least 3 values in the document",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pickShallow(s, "any", 6, func(t reflect.Type, f jg.Feat) bool { return f.Any && !f.StdU })
			c := jg.Cfg{Null: 40, Dup: 60, Esc: pbt.Pick(s, []int{0, 100}), Skip: 100, Budget: pbt.Pick(s, []int{20, 60, 200}), Empty: 60, Lone: 30, Long: 40, Depth: pbt.Pick(s, []int{3, 6, 12}), Unknown: 30, Overflow: pbt.Pick(s, []int{0, 0, 0, 30})}
			d := e.newCase(s, h, c)
			if s.P(400) {
				d.prefill(s, false)
			}
			d.mode = pickMode(s, d.opt)
			d.run()
			d.runJSON()
			r := d.res()
			d.compare(r, true)
			if r.Fail == "" && d.out.Err == nil && d.pre == "" {
				m := jg.Model{Text: d.text, NoRun: true}
				m.Run(d.doc, h.T())
				if !jg.HasRepeats(d.doc, d.opt) {
					if err := jg.Check(d.doc, h.T(), deref(d.p), false, d.opt); err != nil {
						r.Fail = fmt.Sprintf("decoded to %s but %v", show(deref(d.p)), err)
					}
				}
			}
			r.NonTrivial = d.doc.Count() >= 3 && d.out.Err == nil
			return r
		},
	})
	register(&Prop{
		ID:   "C24",
		Rule: "arrays of 0 to 40 elements decoded into nil, shorter, longer and spare-capacity slices and into arrays of other lengths, nested and of every element type; compared with encoding/json (reuse of the backing array included) and for zero destinations with the document; non-trivial: an array of at least 2 elements was decoded",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pickShallow(s, "lists", 6, func(t reflect.Type, f jg.Feat) bool { return (f.Slice || f.Array) })
			c := jg.Cfg{Null: pbt.Pick(s, []int{0, 60, 250}), Dup: 40, Skip: 60, Budget: pbt.Pick(s, []int{30, 80}), Empty: 100, Long: pbt.Pick(s, []int{40, 300}), Mismatch: pbt.Pick(s, []int{0, 0, 0, 30})}
			d := e.newCase(s, h, c)
			if s.P(600) {
				d.prefill(s, s.P(400))
			}
			idT, idR := ident{}, ident{}
			idT.collect(deref(d.p), "v", true)
			idR.collect(d.rv.Elem(), "v", true)
			d.mode = pickMode(s, d.opt)
			d.run()
			d.runJSON()
			r := d.res()
			d.compare(r, true)
			if r.Fail == "" && d.out.Err == nil {
				r.Fail = sameIdentity(idT, idR, deref(d.p), d.rv.Elem(), true)
				if d.pre == "" && r.Fail == "" {
					m := jg.Model{Text: d.text, NoRun: true}
					m.Run(d.doc, h.T())
					if !jg.HasRepeats(d.doc, d.opt) {
						if err := jg.Check(d.doc, h.T(), deref(d.p), false, d.opt); err != nil {
							r.Fail = fmt.Sprintf("decoded to %s but %v", show(deref(d.p)), err)
						}
					}
				}
			}
			if r.Fail == "" && d.fill != nil {
				r.Fail = d.fill.Intact()
			}
			d.doc.Walk(func(x *jg.Node) { r.NonTrivial = r.NonTrivial || x.K == '[' && len(x.Kids) >= 2 })
			return r
		},
	})
	register(&Prop{
		ID:   "C25",
		Rule: "documents rich in nulls decoded through pointers, maps, slices and any, into zero and filled destinations; compared with encoding/json including which pointees, maps and backing arrays were reused, and no two positions may share storage; non-trivial: the document holds a null or the destination held a pointer, and decoding succeeds",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pickShallow(s, "pointers", 7, func(t reflect.Type, f jg.Feat) bool { return f.Ptr })
			c := jg.Cfg{Null: pbt.Pick(s, []int{100, 300, 500, 0}), Dup: 60, Skip: 100, Budget: pbt.Pick(s, []int{20, 80}), Empty: 60, Mismatch: pbt.Pick(s, []int{0, 0, 0, 30})}
			d := e.newCase(s, h, c)
			if s.P(600) {
				d.prefill(s, false)
			}
			idT, idR := ident{}, ident{}
			idT.collect(deref(d.p), "v", true)
			idR.collect(d.rv.Elem(), "v", true)
			d.mode = pickMode(s, d.opt)
			d.run()
			d.runJSON()
			r := d.res()
			d.compare(r, true)
			if r.Fail == "" && d.out.Err == nil {
				if r.Fail = sameIdentity(idT, idR, deref(d.p), d.rv.Elem(), true); r.Fail == "" {
					r.Fail = ownStorage(deref(d.p))
				}
				r.NonTrivial = count(d, "n") > 0 || len(idT) > 0
			}
			return r
		},
	})
}

func lastText(r *Res) []byte {
	if r.desc == nil {
		return nil
	}
	return []byte(r.desc())
}

// exerciseMaps looks up every entry of the maps in v, adds entries and deletes
// them again.
func exerciseMaps(s *pbt.Src, v reflect.Value, depth int) string {
	t := v.Type()
	if jg.IsJSONU(t) || jg.IsTextU(t) || depth > 6 {
		return ""
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return ""
		}
		return exerciseMaps(s, v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len() && i < 8; i++ {
			if m := exerciseMaps(s, v.Index(i), depth+1); m != "" {
				return m
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !t.Field(i).IsExported() {
				continue
			}
			if m := exerciseMaps(s, v.Field(i), depth+1); m != "" {
				return m
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return ""
		}
		keys := v.MapKeys()
		want := map[string]string{}
		for i, k := range keys {
			e := v.MapIndex(k)
			if !e.IsValid() {
				return fmt.Sprintf("key %s of a %v cannot be looked up", orc.Show(k, 100), t)
			}
			if i < 8 {
				if m := exerciseMaps(s, e, depth+1); m != "" {
					return m
				}
			}
			want[orc.Show(k, 1000)] = orc.Show(e, 400)
		}
		if len(keys) != v.Len() || len(want) != v.Len() {
			return fmt.Sprintf("map of length %d has %d keys, %d distinct", v.Len(), len(keys), len(want))
		}
		f := orc.Filler{S: s, Depth: 1, Budget: 20}
		for i := 0; i < 12; i++ {
			k := reflect.New(t.Key()).Elem()
			switch k.Kind() {
			case reflect.String:
				k.SetString(fmt.Sprintf("added%d", i))
			default:
				f.Fill(k)
			}
			if v.MapIndex(k).IsValid() {
				continue
			}
			v.SetMapIndex(k, reflect.Zero(t.Elem()))
			defer v.SetMapIndex(k, reflect.Value{})
		}
		for it := v.MapRange(); it.Next(); {
			if w, ok := want[orc.Show(it.Key(), 1000)]; ok && w != orc.Show(it.Value(), 400) {
				return fmt.Sprintf("entry %s of a %v changed when entries were added", orc.Show(it.Key(), 100), t)
			}
		}
		for _, k := range keys {
			e := v.MapIndex(k)
			v.SetMapIndex(k, reflect.Value{})
			if v.MapIndex(k).IsValid() {
				return fmt.Sprintf("key %s of a %v is still there after delete", orc.Show(k, 100), t)
			}
			v.SetMapIndex(k, e)
		}
	}
	return ""
}

func formatting(e *Env, s *pbt.Src) *Res {
	h := e.pick(s, "all", anyType)
	c := mild(s)
	c.Budget = 60
	if s.P(250) {
		c = faulty(s, c)
	}
	d := e.newCase(s, h, c)
	d.text = jg.Print(d.doc, nil)
	m := jg.Model{Text: d.text, NoRun: true}
	m.Run(d.doc, h.T())
	base := d.p
	d.p = clone(base)
	d.mode = pickMode(s, d.opt)
	d.run()
	r := d.res()
	r.NonTrivial = d.doc.Count() >= 3
	if d.out.Panic != "" {
		r.Fail = "panic: " + d.out.Panic
		return r
	}
	// Whitespace and escapes, except inside values handed over as raw text.
	v := d.doc.Clone()
	esc := pbt.Pick(s, []int{0, 100, 600})
	var vary func(n *jg.Node)
	vary = func(n *jg.Node) {
		if n.Raw {
			*n = jg.Node{K: '#', Lit: string(jg.Print(n, nil)), Raw: true}
			return
		}
		if n.K == '"' && esc > 0 && jg.WellFormed(n.Str) {
			n.Lit = jg.QuoteEsc(s, n.Str, esc).Lit
		}
		for _, k := range n.Keys {
			if esc > 0 && jg.WellFormed(k.Str) {
				k.Lit = jg.QuoteEsc(s, k.Str, esc).Lit
			}
		}
		for _, k := range n.Kids {
			vary(k)
		}
	}
	vary(v)
	text2 := jg.Print(v, jg.RandWS(s, s.Range(1, 2), v))
	d2 := &dcase{e: e, h: h, doc: v, text: text2, opt: d.opt, mode: d.mode, p: clone(base)}
	d2.run()
	r.desc = func() string { return d.desc() + " versus " + d2.desc() }
	pos := map[int]int{}
	var zip func(a, b *jg.Node)
	zip = func(a, b *jg.Node) {
		pos[a.Pos] = b.Pos
		if b.Raw {
			return
		}
		for i := range a.Kids {
			if len(a.Keys) > 0 {
				pos[a.Keys[i].Pos] = b.Keys[i].Pos
			}
			zip(a.Kids[i], b.Kids[i])
		}
	}
	zip(d.doc, v)
	switch {
	case d2.out.Panic != "":
		r.Fail = "panic: " + d2.out.Panic
	case kind(d.out.Err) != kind(d2.out.Err):
		r.Fail = fmt.Sprintf("%v, but with other whitespace and escapes %v", d.out, d2.out)
	case d.out.Err != nil && d.out.Idx != -2 && pos[d.out.Idx] != d2.out.Idx:
		r.Fail = fmt.Sprintf("%v, but with other whitespace and escapes %v, which is another place", d.out, d2.out)
	case d.out.Err == nil:
		if diff := orc.Eq(deref(d.p), deref(d2.p)); diff != "" {
			r.Fail = fmt.Sprintf("%s, but with other whitespace and escapes %s: %s", show(deref(d.p)), show(deref(d2.p)), diff)
		}
	}
	if r.Fail != "" || jg.Repeats(d.doc) || jg.FeatOf(h.T()).TextKey {
		return r
	}
	// Order of members.
	w := d.doc.Clone()
	w.Walk(func(n *jg.Node) {
		if n.K == '{' && !n.Raw {
			for i := len(n.Keys) - 1; i > 0; i-- {
				j := s.Intn(i + 1)
				n.Keys[i], n.Keys[j] = n.Keys[j], n.Keys[i]
				n.Kids[i], n.Kids[j] = n.Kids[j], n.Kids[i]
			}
		}
	})
	d3 := &dcase{e: e, h: h, doc: w, text: jg.Print(w, nil), opt: d.opt, mode: d.mode, p: clone(base)}
	if hasRawObject(d.doc) {
		return r
	}
	d3.run()
	switch {
	case d3.out.Panic != "":
		r.Fail = "panic: " + d3.out.Panic
	case (d.out.Err == nil) != (d3.out.Err == nil):
		r.Fail = fmt.Sprintf("%v, but with permuted members %v", d.out, d3.out)
	case d.out.Err == nil:
		if diff := orc.Eq(deref(d.p), deref(d3.p)); diff != "" {
			r.Fail = fmt.Sprintf("%s, but with permuted members %s: %s", show(deref(d.p)), show(deref(d3.p)), diff)
		}
	}
	if r.Fail != "" {
		r.desc = func() string { return d.desc() + " versus " + d3.desc() }
	}
	return r
}

// hasRawObject tells whether an object is handed to an unmarshaler as raw text.
func hasRawObject(n *jg.Node) bool {
	if n.Raw {
		o := false
		n.Walk(func(x *jg.Node) { o = o || x.K == '{' && len(x.Kids) > 1 })
		return o
	}
	for _, k := range n.Kids {
		if hasRawObject(k) {
			return true
		}
	}
	return false
}
