package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sync"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan/v2"
	"verif/harness/hv"
	"verif/harness/jg"
	"verif/harness/orc"
	"verif/harness/pbt"
)

// step is one decode of a history.
type step struct {
	h    int
	text []byte
	opt  *jd.DecodeOptions
	pre  any // deep copies are made of it
}

func (e *Env) genSteps(s *pbt.Src, hs []hv.H, n int) []step {
	var ss []step
	for i := 0; i < n; i++ {
		st := step{h: s.Intn(len(hs)), opt: jd.DefaultOptions}
		c := mild(s)
		c.Budget = 40
		if s.P(500) {
			c = faulty(s, c)
		}
		st.text = printDoc(s, jg.Doc(s, hs[st.h].T(), c))
		if s.P(150) {
			st.text = mutate(s, st.text)
		}
		if s.P(200) {
			st.opt = pickOpt(s)
		}
		p := hs[st.h].New()
		if s.P(300) {
			(&orc.Filler{S: s, Depth: 4, Budget: 30}).Fill(deref(p))
		}
		st.pre = p
		ss = append(ss, st)
	}
	return ss
}

func clone(p any) any {
	v := reflect.New(reflect.TypeOf(p).Elem())
	orc.Copy(v.Elem(), deref(p))
	return v.Interface()
}

func sameOut(a, b Out) string {
	switch {
	case a.Panic != b.Panic && (a.Panic == "" || b.Panic == ""):
		return fmt.Sprintf("%v versus %v", a, b)
	case (a.Err == nil) != (b.Err == nil), a.Err != nil && (a.Err.Error() != b.Err.Error() || kind(a.Err) != kind(b.Err)):
		return fmt.Sprintf("%v versus %v", a, b)
	case a.Idx != b.Idx && a.Idx != -2 && b.Idx != -2:
		return fmt.Sprintf("%v (index %d) versus %v (index %d)", a, a.Idx, b, b.Idx)
	}
	return ""
}

func init() {
	register(&Prop{
		ID:   "C05",
		Rule: "histories of 2 to 9 decodes (valid, faulty, malformed, unmarshaler-failing) over 1 to 3 decoders sharing one tokenizer, each step compared with a fresh decoder given a copy of the same destination; non-trivial: at least one step fails and at least one later step succeeds, or at least 3 steps succeed",
		Run: func(e *Env, s *pbt.Src) *Res {
			var hs []hv.H
			for n := s.Range(1, 3); n > 0; n-- {
				if s.P(350) {
					hs = append(hs, e.pick(s, "recur", func(t reflect.Type, f jg.Feat) bool { return f.Recur }))
				} else {
					hs = append(hs, e.pick(s, "all", anyType))
				}
			}
			steps := e.genSteps(s, hs, s.Range(2, 9))
			r := &Res{}
			var log bytes.Buffer
			r.desc = log.String
			asString := s.P(400)
			tb, ts := jscan.NewTokenizer[[]byte](s.Intn(4), s.Intn(10)), jscan.NewTokenizer[string](s.Intn(4), s.Intn(10))
			db, ds := make([]hv.Dec[[]byte], len(hs)), make([]hv.Dec[string], len(hs))
			for i, h := range hs {
				var err error
				if asString {
					ds[i], err = h.NewS(ts, jd.DefaultInitOptions)
				} else {
					db[i], err = h.NewB(tb, jd.DefaultInitOptions)
				}
				if err != nil {
					r.Fail = err.Error()
					return r
				}
			}
			oks, fails, late := 0, 0, 0
			type old struct {
				v    reflect.Value
				snap string
			}
			var olds []old
			shared := &jd.DecodeOptions{} // may be changed between calls
			useShared := s.P(300)
			for i, st := range steps {
				pa, pb := clone(st.pre), clone(st.pre)
				opt := st.opt
				if useShared {
					*shared = *opt
					opt = shared
				}
				before := *opt
				var a, b Out
				func() {
					defer guardPanic(&a)
					if asString {
						a.Idx, a.Err = ds[st.h](string(st.text), pa, opt)
					} else {
						a.Idx, a.Err = db[st.h](append([]byte(nil), st.text...), pa, opt)
					}
				}()
				if *opt != before {
					r.Fail = fmt.Sprintf("step %d changes the options from %+v to %+v", i, before, *opt)
					return r
				}
				if asString {
					b = e.exec(hs[st.h], freshS, st.text, pb, st.opt)
				} else {
					b = e.exec(hs[st.h], freshB, append([]byte(nil), st.text...), pb, st.opt)
				}
				fmt.Fprintf(&log, "step %d: %s <- %s into %s, options %+v => %v; ", i, hs[st.h].Name(), clip(st.text, 300), orc.Show(deref(st.pre), 200), *st.opt, a)
				r.Key = pbt.Hash(r.Key, docKey(hs[st.h], st.text))
				if d := sameOut(a, b); d != "" {
					r.Fail = fmt.Sprintf("step %d: reused versus fresh decoder: %s", i, d)
					return r
				}
				if a.Err == nil {
					if d := orc.Eq(deref(pa), deref(pb)); d != "" {
						r.Fail = fmt.Sprintf("step %d: reused decoder gives %s, fresh one %s: %s", i, show(deref(pa)), show(deref(pb)), d)
						return r
					}
					oks++
					if fails > 0 {
						late++
					}
				} else {
					fails++
				}
				olds = append(olds, old{deref(pa), show(deref(pa))})
			}
			for i, o := range olds {
				if now := show(o.v); now != o.snap {
					r.Fail = fmt.Sprintf("the value of step %d changed from %s to %s by later steps", i, o.snap, now)
				}
			}
			r.NonTrivial = late > 0 || oks >= 3
			return r
		},
	})
	register(&Prop{
		ID:   "C06",
		Rule: "the same text (valid, faulty, malformed, with ill-formed UTF-8) decoded as []byte and as string with the same options into copies of the same destination, by reused, fresh and one-shot decoders; non-trivial: at least 2 bytes of text beyond a scalar and either outcome",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "all", anyType)
			c := mild(s)
			if s.P(400) {
				c = faulty(s, c)
			}
			d := e.newCase(s, h, c)
			if s.P(150) {
				d.text = mutate(s, d.text)
			}
			if s.P(300) {
				d.prefill(s, true)
			}
			if s.P(300) {
				d.opt = pickOpt(s)
			}
			p2 := clone(d.p)
			m := pickMode(s, d.opt) &^ 1
			d.mode = m
			d.run()
			out2 := e.exec(h, m+1, d.text, p2, d.opt)
			r := d.res()
			if diff := sameOut(d.out, out2); diff != "" {
				r.Fail = "[]byte versus string: " + diff
			} else if diff := orc.Eq(deref(d.p), deref(p2)); diff != "" {
				r.Fail = fmt.Sprintf("[]byte gives %s, string %s: %s", show(deref(d.p)), show(deref(p2)), diff)
			}
			r.NonTrivial = len(d.text) > 4
			if d.out.Err != nil {
				r.Counts = []string{"rejected by both"}
			}
			return r
		},
	})
	register(&Prop{
		ID:   "C07",
		Rule: "input placed on read-only memory directly before an inaccessible page, decoded, then overwritten; the decoded value and the text of an error that is not jscan's are compared with what they were after the overwriting, later decodes and garbage collections (freed memory is clobbered); non-trivial: the decoded value holds a string, map, slice or pointer",
		Env:  []string{"GODEBUG=clobberfree=1"},
		Run:  func(e *Env, s *pbt.Src) *Res { return retention(e, s, false) },
	})
	register(&Prop{
		ID:   "C18",
		Rule: "destinations surrounded by guard words, filled with random contents whose slices have canary elements behind their capacity; input before an inaccessible page; values kept and compared with their snapshots after many more decodes and garbage collections with clobbered free memory; non-trivial: the type holds a pointer, slice, map, array or struct and the document has at least 2 values",
		Env:  []string{"GODEBUG=clobberfree=1", "GOGC=20"},
		Run:  func(e *Env, s *pbt.Src) *Res { return retention(e, s, true) },
	})
	register(&Prop{
		ID:   "C19",
		Rule: "one text decoded by Unmarshal, by decoders over tokenizers of many initial sizes, with DefaultOptions and with an equal options value, into copies of one destination, partly after other types (preferably ones of the same name) have been decoded by Unmarshal; all outcomes must agree, with each other and with encoding/json; non-trivial: at least 3 values in the document",
		Run: func(e *Env, s *pbt.Src) *Res {
			h := e.pick(s, "all", anyType)
			if s.P(120) {
				h = e.pick(s, "same name", func(t reflect.Type, _ jg.Feat) bool { return len(namesakes(t)) > 0 })
			}
			warm := ""
			if s.P(250) {
				for n := s.Range(1, 3); n > 0; n-- {
					o := e.pick(s, "all", anyType)
					if l := namesakes(h.T()); len(l) > 0 && s.P(800) {
						o = pbt.Pick(s, l)
					}
					w := e.newCase(s, o, mild(s))
					w.mode = unmB + s.Intn(2)
					w.run()
					warm += w.desc() + "; then "
				}
			}
			c := mild(s)
			if s.P(300) {
				c = faulty(s, c)
			}
			mutated := false
			d := e.newCase(s, h, c)
			if s.P(50) {
				d.text, mutated = mutate(s, d.text), true
			}
			if s.P(300) {
				d.prefill(s, true)
			}
			base := clone(d.p)
			d.mode = unmB + s.Intn(2)
			d.run()
			r := d.res()
			if warm != "" {
				r.Counts = append(r.Counts, "after other types")
				desc := r.desc
				r.desc = func() string { return warm + desc() }
				if !mutated {
					d.runJSON()
					d.compare(r, false)
				}
			}
			r.NonTrivial = d.doc.Count() >= 3
			for i := 0; i < 3; i++ {
				a, b := pbt.Pick(s, []int{0, 1, 2, 3, 8, 100, 1024}), pbt.Pick(s, []int{0, 1, 2, 5, 16, 100, 3000})
				o := jd.DefaultOptions
				io := jd.DefaultInitOptions
				if s.P(500) {
					o = &jd.DecodeOptions{}
				}
				if s.P(500) {
					io = &jd.InitOptions{}
				}
				p := clone(base)
				var out Out
				str := s.P(500)
				func() {
					defer guardPanic(&out)
					if str {
						dec, err := h.NewS(jscan.NewTokenizer[string](a, b), io)
						if err != nil {
							out.Err = err
							return
						}
						out.Idx, out.Err = dec(string(d.text), p, o)
					} else {
						dec, err := h.NewB(jscan.NewTokenizer[[]byte](a, b), io)
						if err != nil {
							out.Err = err
							return
						}
						out.Idx, out.Err = dec(append([]byte(nil), d.text...), p, o)
					}
				}()
				if diff := sameOut(d.out, out); diff != "" {
					r.Fail = fmt.Sprintf("%s versus a decoder with tokenizer (%d,%d) string=%v: %s", modeName[d.mode], a, b, str, diff)
				} else if diff := orc.Eq(deref(d.p), deref(p)); diff != "" {
					r.Fail = fmt.Sprintf("%s gives %s, a decoder with tokenizer (%d,%d) string=%v gives %s: %s", modeName[d.mode], show(deref(d.p)), a, b, str, show(deref(p)), diff)
				}
			}
			return r
		},
	})
	register(&Prop{
		ID:      "C21",
		Workers: 3,
		Rule:    "2 to 6 goroutines decoding 4 to 12 texts each with decoders of their own (and Unmarshal), sharing inputs, options and destination types, built with the race detector; every outcome is compared with a sequential run; non-trivial: at least two goroutines decode the same type successfully",
		Notes:   []string{"the Go race detector reports every data race it sees executed"},
		Env:     []string{"GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66"},
		Run:     concurrent,
	})
}

var namesakesOf map[string][]hv.H

// namesakes lists the registered types other than t that print like t.
func namesakes(t reflect.Type) []hv.H {
	if namesakesOf == nil {
		namesakesOf = map[string][]hv.H{}
		for _, h := range hv.All {
			namesakesOf[h.T().String()] = append(namesakesOf[h.T().String()], h)
		}
	}
	var l []hv.H
	for _, h := range namesakesOf[t.String()] {
		if h.T() != t {
			l = append(l, h)
		}
	}
	return l
}

func concurrent(e *Env, s *pbt.Src) *Res {
	r := &Res{}
	var hs []hv.H
	for n := s.Range(1, 3); n > 0; n-- {
		hs = append(hs, e.pick(s, "no callbacks", func(t reflect.Type, f jg.Feat) bool { return !f.TextKey }))
	}
	steps := e.genSteps(s, hs, s.Range(4, 12))
	var log bytes.Buffer
	r.desc = log.String
	type outcome struct {
		o Out
		p any
	}
	run := func(seq []int, own bool, unm bool) []outcome {
		outs := make([]outcome, len(steps))
		tok := jscan.NewTokenizer[[]byte](4, 16)
		decs := make([]hv.Dec[[]byte], len(hs))
		for _, i := range seq {
			st := steps[i]
			p := clone(st.pre)
			var o Out
			func() {
				defer guardPanic(&o)
				if unm && *st.opt == (jd.DecodeOptions{}) {
					o.Idx, o.Err = -2, hs[st.h].UnmarshalB(st.text, p)
					return
				}
				if decs[st.h] == nil {
					var err error
					if decs[st.h], err = hs[st.h].NewB(tok, jd.DefaultInitOptions); err != nil {
						o.Err = err
						return
					}
				}
				o.Idx, o.Err = decs[st.h](st.text, p, st.opt)
			}()
			outs[i] = outcome{o, p}
		}
		return outs
	}
	all := make([]int, len(steps))
	for i := range all {
		all[i] = i
		fmt.Fprintf(&log, "%s <- %s; ", hs[steps[i].h].Name(), clip(steps[i].text, 200))
		r.Key = pbt.Hash(r.Key, docKey(hs[steps[i].h], steps[i].text))
	}
	g := s.Range(2, 6)
	fmt.Fprintf(&log, "%d goroutines", g)
	got := make([][]outcome, g)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := 0; k < g; k++ {
		k := k
		unm, seq := s.P(300), all
		if s.P(500) {
			n := s.Intn(len(all))
			seq = append(append([]int(nil), all[n:]...), all[:n]...)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			got[k] = run(seq, true, unm)
		}()
	}
	close(start)
	wg.Wait()
	want := run(all, false, false) // later, so that all first uses of a type are concurrent
	for k := range got {
		for i := range all {
			if d := sameOut(want[i].o, got[k][i].o); d != "" {
				r.Fail = fmt.Sprintf("goroutine %d, text %d: sequential versus concurrent: %s", k, i, d)
				return r
			}
			if d := orc.Eq(deref(want[i].p), deref(got[k][i].p)); d != "" {
				r.Fail = fmt.Sprintf("goroutine %d, text %d: sequential %s, concurrent %s: %s", k, i, show(deref(want[i].p)), show(deref(got[k][i].p)), d)
				return r
			}
			r.NonTrivial = r.NonTrivial || want[i].o.Err == nil
		}
	}
	return r
}

var churn [][]byte

// retention decodes from protected memory and watches values over time.
func retention(e *Env, s *pbt.Src, guard bool) *Res {
	h := e.pick(s, "all", anyType)
	c := mild(s)
	if s.P(250) {
		c = faulty(s, c)
	}
	d := e.newCase(s, h, c)
	intact := func() bool { return true }
	if guard {
		d.p, intact = h.Guarded()
		if s.P(600) {
			d.prefill(s, s.P(300))
		}
	} else if s.P(200) {
		d.prefill(s, false)
	}
	d.mode = []int{reusedB, freshB, unmB}[s.W(6, 2, 2)]
	str := s.P(150)
	bad := false
	if !guard && s.P(60) {
		d.text = mutate(s, d.text)
		bad = true
	}
	if s.P(100) {
		d.opt = pickOpt(s)
		if d.mode == unmB {
			d.mode = reusedB
		}
	}
	var in []byte
	if str {
		d.mode++
		in = append([]byte(nil), d.text...)
	} else {
		in = e.put(d.text)
	}
	d.out = e.exec(h, d.mode, in, d.p, d.opt)
	r := d.res()
	if d.out.Panic != "" {
		r.Fail = "panic (a fault here is an access outside or a write to the input): " + d.out.Panic
		return r
	}
	if !bytes.Equal(in, d.text) {
		r.Fail = "the input was modified"
		return r
	}
	snap := show(deref(d.p))
	errText := ""
	if _, syntax := d.out.Err.(jscan.Error[[]byte]); d.out.Err != nil && !syntax {
		// Errors of jscan refer to the input on purpose.
		errText = d.out.Err.Error()
	}
	if !str {
		e.scribble()
		if errText != "" && d.out.Err.Error() != errText {
			r.Fail = fmt.Sprintf("the error changed from %q to %q when the input was overwritten", errText, d.out.Err)
			return r
		}
	}
	if now := show(deref(d.p)); now != snap {
		r.Fail = fmt.Sprintf("the decoded value changed from %s to %s when the input was overwritten", snap, now)
		return r
	}
	if !intact() {
		r.Fail = "memory next to the destination was overwritten"
		return r
	}
	if d.fill != nil {
		if m := d.fill.Intact(); m != "" {
			r.Fail = m
			return r
		}
	}
	if d.out.Err == nil && !bad {
		d.runJSON()
		if d.jerr == nil && *d.opt == (jd.DecodeOptions{}) {
			if diff := orc.Eq(deref(d.p), d.rv.Elem()); diff != "" {
				r.Fail = fmt.Sprintf("decoded to %s, encoding/json gives %s; difference at %s", show(deref(d.p)), show(d.rv.Elem()), diff)
				return r
			}
		}
	}
	e.keep = append(e.keep, kept{deref(d.p), snap, d.desc()})
	e.n++
	period := 64
	if e.n%8 == 0 {
		churn = append(churn, make([]byte, 64+s.Intn(500)))
		if len(churn) > 200 {
			churn = nil
		}
	}
	if len(e.keep) >= period {
		runtime.GC()
		for i := 0; i < 50; i++ { // reuse freed memory
			churn = append(churn, bytes.Repeat([]byte{0xee}, 16<<(i%6)))
		}
		churn = nil
		for _, k := range e.keep {
			if now := show(k.v); now != k.snap {
				r.Fail = fmt.Sprintf("after later decodes and garbage collection a decoded value changed from %s to %s: %s", k.snap, now, k.desc)
				break
			}
		}
		e.keep = e.keep[:0]
	}
	f := jg.FeatOf(h.T())
	r.NonTrivial = d.doc.Count() >= 2 && (f.Ptr || f.Slice || f.Map || f.Array || f.Struct)
	if !guard {
		r.NonTrivial = d.out.Err == nil && (f.Str || f.Slice || f.Map || f.Ptr || f.Any || f.Number || f.TextU || f.JSONU)
	}
	return r
}
