package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"

	jd "github.com/romshark/jscan-experimental-decoder"
	"verif/harness/jg"
	"verif/harness/orc"
	"verif/harness/pbt"
)

func init() {
	register(&Prop{
		ID:   "C32",
		Rule: "documents with faults of all kinds decoded into zero and randomly filled destinations: fields of structs and entries of maps no key up to the error selects and elements behind the error are unchanged; the same document with everything behind the error replaced (as many elements and members as before) fails equally and leaves an equal destination; then a valid document is decoded into what the failed decode left, and compared with encoding/json doing so; non-trivial: the decode fails and at least one value precedes or follows the error",
		Run:  failing,
	})
	register(&Prop{
		ID:   "C33",
		Rule: "random values (numbers of all sizes, arbitrary text, nil and empty containers, or what encoding/json decodes from a generated document) written by encoding/json, compact, indented or without HTML escaping, decoded and written again: the texts must be equal, and so must be the decoded value and the one encoding/json decodes; left out are values encoding/json cannot write or read back itself; non-trivial: at least 20 bytes",
		Run:  roundTrip,
	})
}

// behind replaces what follows the node fault of n and counts it.
func behind(s *pbt.Src, g *jg.Gen, n, fault *jg.Node, seen *bool) (count int) {
	if n == fault {
		*seen = true
		return 0
	}
	if *seen {
		*n = *g.Any(0, s.W(6, 2, 2))
		return 1
	}
	for i, kid := range n.Kids {
		if len(n.Keys) > 0 {
			if *seen && s.P(300) {
				n.Keys[i] = g.Any(0, 0)
				if n.Keys[i].K != '"' {
					n.Keys[i] = jg.Quote("k")
				}
			}
			if n.Keys[i] == fault {
				*seen = true
			}
		}
		count += behind(s, g, kid, fault, seen)
	}
	return count
}

// find returns the path (indexes of children) from n to fault, which may be a key.
func find(n, fault *jg.Node) ([]int, bool) {
	if n == fault {
		return nil, true
	}
	for i, kid := range n.Kids {
		if len(n.Keys) > 0 && n.Keys[i] == fault {
			return []int{i}, true
		}
		if p, ok := find(kid, fault); ok {
			return append([]int{i}, p...), true
		}
	}
	return nil, false
}

// unselected compares what no element or key up to the fault selects with
// what it was.
func (d *dcase) unselected(n *jg.Node, path []int, was, now reflect.Value, at string) (int, string) {
	for was.Kind() == reflect.Pointer {
		if n.K == 'n' || was.IsNil() || now.IsNil() {
			return 0, ""
		}
		was, now = was.Elem(), now.Elem()
	}
	if len(path) == 0 {
		return 0, ""
	}
	switch k := was.Kind(); {
	case n.K == '[' && (k == reflect.Array || k == reflect.Slice):
		// Elements behind the one with the error.
		same, i := 0, path[0]
		for j := i + 1; j < was.Len() && j < now.Len(); j++ {
			same++
			if diff := orc.Eq(was.Index(j), now.Index(j)); diff != "" {
				return 0, fmt.Sprintf("the error is in element %d of %s, but element %d changed: %s", i, at, j, diff)
			}
		}
		if i < was.Len() && i < now.Len() {
			m, diff := d.unselected(n.Kids[i], path[1:], was.Index(i), now.Index(i), fmt.Sprintf("%s[%d]", at, i))
			return same + m, diff
		}
		return same, ""
	case n.K == '{' && k == reflect.Map && was.Type().Key().Kind() == reflect.String && !jg.IsTextKey(was.Type().Key()) && !was.IsNil() && !now.IsNil():
		// Entries with no key up to the error.
		same, keys := 0, map[string]bool{}
		for i := 0; i <= path[0]; i++ {
			keys[n.Keys[i].Str] = true
		}
		for it := was.MapRange(); it.Next(); {
			if keys[it.Key().String()] {
				continue
			}
			same++
			v := now.MapIndex(it.Key())
			if !v.IsValid() {
				return 0, fmt.Sprintf("%s: the entry %q is gone", at, it.Key())
			}
			if diff := orc.Eq(it.Value(), v); diff != "" {
				return 0, fmt.Sprintf("%s: no key before the error is %q, but the entry changed: %s", at, it.Key(), diff)
			}
		}
		for it := now.MapRange(); it.Next(); {
			if !keys[it.Key().String()] && !was.MapIndex(it.Key()).IsValid() {
				return 0, fmt.Sprintf("%s: no key before the error is %q, but there is an entry", at, it.Key())
			}
		}
		return same, ""
	case n.ST == nil || n.ST != was.Type() || k != reflect.Struct:
		return 0, ""
	}
	fs := jg.Fields(n.ST)
	var selected []*jg.Field
	for i := 0; i <= path[0]; i++ {
		if f := jg.Select(fs, n.Keys[i], d.opt); f != nil {
			selected = append(selected, f)
		}
	}
	same := 0
	for i := 0; i < was.NumField(); i++ {
		hit := false
		for _, f := range selected {
			hit = hit || f.Index == i
		}
		if name := was.Type().Field(i).Name; !hit && name != "_" {
			same++
			if diff := orc.Eq(was.Field(i), now.Field(i)); diff != "" {
				return 0, fmt.Sprintf("field %s.%s isn't selected by a key before the error, but it changed: %s", at, name, diff)
			}
		}
	}
	f := jg.Select(fs, n.Keys[path[0]], d.opt)
	if f == nil || f.Quoted || n.Keys[path[0]] == nil {
		return same, ""
	}
	for _, o := range selected[:len(selected)-1] {
		if o.Index == f.Index {
			return same, "" // decoded before
		}
	}
	m, diff := d.unselected(n.Kids[path[0]], path[1:], was.Field(f.Index), now.Field(f.Index), at+"."+f.Name)
	return same + m, diff
}

func failing(e *Env, s *pbt.Src) *Res {
	h := e.pick(s, "all", anyType)
	c := faulty(s, mild(s))
	if s.P(500) {
		c.Mismatch = 100
	}
	d := e.newCase(s, h, c)
	if s.P(500) {
		d.opt = pickOpt(s)
	}
	if s.P(600) {
		d.prefill(s, s.P(300))
	}
	base := clone(d.p)
	m := jg.Model{Opt: *d.opt, Text: d.text}
	f := m.Run(d.doc, h.T())
	r := d.res()
	r.Key = docKey(h, d.text, pbt.HashBytes(d.pre), 1)
	if f.Kind == jg.None {
		return r
	}
	d.mode = pickMode(s, d.opt)
	d.run()
	path, ok := find(d.doc, f.Node)
	if !ok {
		panic("fault not found")
	}
	if d.out.Panic != "" {
		r.Fail = "panic: " + d.out.Panic
		return r
	}
	if d.out.Err == nil {
		return r // reported by C02
	}
	// Fields not reached.
	same, diff := d.unselected(d.doc, path, deref(base), deref(d.p), "v")
	if diff != "" {
		r.Fail = diff
		return r
	}
	if same > 0 {
		r.Counts = append(r.Counts, "unreached parts")
	}
	// What follows has no influence.
	left := clone(d.p)
	doc2 := d.doc.Clone()
	var f2 *jg.Node
	{ // the same node in the clone
		x := doc2
		for k, i := range path {
			if k == len(path)-1 && len(x.Keys) > 0 && at(d.doc, path[:k]).Keys[i] == f.Node {
				f2 = x.Keys[i]
				break
			}
			x = x.Kids[i]
		}
		if f2 == nil {
			f2 = x
		}
	}
	seen := false
	g := &jg.Gen{S: s, C: jg.Cfg{Esc: 50, Dup: 50, Huge: jg.Small}}
	n := behind(s, g, doc2, f2, &seen)
	r.NonTrivial = n > 0 || len(path) > 0
	if n > 0 {
		r.Counts = append(r.Counts, "replaced")
		// Up to the error the text is the same.
		d2 := &dcase{e: e, h: h, doc: doc2, text: jg.Print(doc2, nil), opt: d.opt, mode: d.mode, p: clone(base), pre: d.pre}
		d1 := &dcase{e: e, h: h, doc: d.doc, text: jg.Print(d.doc, nil), opt: d.opt, mode: d.mode, p: clone(base), pre: d.pre}
		d1.run()
		d2.run()
		if diff := sameOut(d1.out, d2.out); diff != "" {
			r.Fail = "what follows the error changes it: " + diff
		} else if diff := orc.Eq(deref(d1.p), deref(d2.p)); diff != "" {
			r.Fail = fmt.Sprintf("what follows the error changes the destination: %s versus %s: %s", show(deref(d1.p)), show(deref(d2.p)), diff)
		}
		if r.Fail != "" {
			r.desc = func() string { return d1.desc() + " versus " + d2.desc() }
			return r
		}
	}
	// What the failed decode left can be used.
	if s.P(50) {
		runtime.GC()
	}
	if diff := orc.Eq(deref(d.p), deref(left)); diff != "" {
		r.Fail = "the destination changed after the decode: " + diff
		return r
	}
	d3 := &dcase{e: e, h: h, doc: jg.Doc(s, h.T(), mild(s)), p: d.p, opt: d.opt, pre: show(deref(left)), rv: reflect.New(h.R())}
	d3.opt = jd.DefaultOptions
	d3.text = printDoc(s, d3.doc)
	orc.Copy(d3.rv.Elem(), deref(left))
	d3.mode = pickMode(s, d3.opt)
	d3.run()
	d3.runJSON()
	d3.compare(r, false)
	if d3.out.Err == nil {
		r.Counts = append(r.Counts, "used again")
	}
	if r.Fail != "" {
		r.desc = func() string { return d.desc() + " and then " + d3.desc() }
	}
	if d.fill != nil && r.Fail == "" {
		r.Fail = d.fill.Intact()
	}
	return r
}

func at(n *jg.Node, path []int) *jg.Node {
	for _, i := range path {
		n = n.Kids[i]
	}
	return n
}

func roundTrip(e *Env, s *pbt.Src) *Res {
	h := e.pick(s, "marshalable", func(t reflect.Type, f jg.Feat) bool { return f.StdU || !f.JSONU && !f.TextU && !f.TextKey })
	v := reflect.New(h.R())
	r := &Res{Key: docKey(h, nil)}
	r.desc = func() string { return h.Name() + ": a value encoding/json does not write" }
	c := mild(s)
	if jg.FeatOf(h.T()).Any || s.P(300) {
		if json.Unmarshal(jg.Print(jg.Doc(s, h.T(), c), nil), v.Interface()) != nil {
			return r
		}
	} else {
		g := &jg.Gen{S: s, C: jg.Cfg{Long: 50, Huge: jg.Small}}
		(&orc.Filler{S: s, Depth: s.Range(2, 8), Budget: pbt.Pick(s, []int{20, 60, 200}), Text: g.Text, Literal: g.Literal}).Fill(v.Elem())
	}
	text, err := marshal(v.Interface())
	if err != nil {
		return r
	}
	ref := reflect.New(h.R())
	if json.Unmarshal(text, ref.Interface()) != nil {
		return r
	}
	if again, err := marshal(ref.Interface()); err != nil || !bytes.Equal(text, again) {
		r.Counts = []string{"not by encoding/json"}
		return r
	}
	in := text
	switch s.W(6, 2, 2) {
	case 1:
		var b bytes.Buffer
		if json.Indent(&b, text, pbt.Pick(s, []string{"", " ", "\t"}), pbt.Pick(s, []string{"  ", "\t", ""})) == nil {
			in = b.Bytes()
		}
	case 2:
		var b bytes.Buffer
		enc := json.NewEncoder(&b)
		enc.SetEscapeHTML(false)
		if enc.Encode(v.Interface()) == nil {
			in = b.Bytes()
		}
	}
	ref = reflect.New(h.R())
	if json.Unmarshal(in, ref.Interface()) != nil {
		return r
	}
	if again, err := marshal(ref.Interface()); err != nil || !bytes.Equal(text, again) {
		// An UnmarshalJSON that depends on the spaces.
		r.Counts = []string{"not by encoding/json"}
		return r
	}
	d := &dcase{e: e, h: h, text: in, opt: jd.DefaultOptions, p: h.New()}
	d.mode = pickMode(s, d.opt)
	d.run()
	r.Key, r.desc, r.NonTrivial = docKey(h, in), d.desc, len(in) >= 20
	r.Counts = []string{"read back"}
	if d.out.Err != nil || d.out.Panic != "" {
		r.Fail = fmt.Sprintf("what encoding/json wrote isn't decoded: %v", d.out)
		return r
	}
	back := reflect.New(h.R())
	orc.Copy(back.Elem(), deref(d.p))
	if again, err := marshal(back.Interface()); err != nil || !bytes.Equal(text, again) {
		r.Fail = fmt.Sprintf("decoded to %s, which encoding/json writes as %s (%v)", show(deref(d.p)), clip(again, 700), err)
	} else if diff := orc.Eq(deref(d.p), ref.Elem()); diff != "" {
		r.Fail = fmt.Sprintf("decoded to %s, encoding/json gives %s; difference at %s", show(deref(d.p)), show(ref.Elem()), diff)
	}
	return r
}

// marshal is json.Marshal, which panics for some values with invalid raw contents.
func marshal(v any) (b []byte, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("json.Marshal panics: %v", p)
		}
	}()
	return json.Marshal(v)
}
