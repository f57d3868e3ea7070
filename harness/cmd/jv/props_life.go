package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan/v2"
	"verif/harness/hv"
	"verif/harness/jg"
	"verif/harness/orc"
	"verif/harness/pbt"
	"verif/harness/sp"
)

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "documents (also with faults and unmarshaler values) made malformed by truncation, damage near the end or anywhere, or trailing data, decoded into destinations with random contents, spare capacity and canaries; the destination must be bit by bit what it was, no unmarshaler called, and the error the tokenizer's; non-trivial: at least 8 bytes of malformed text into contents that are not all zero",
		Run:  untouched,
	})
	register(&Prop{
		ID:   "C27",
		Rule: "batches of 4 to 12 decodes (valid, faulty, malformed, with failing and panicking unmarshalers) of tracked inputs into tracked destinations, by as many decoders that stay alive; after garbage collections every input and destination must have been freed; strings of string input refer to the input and so tell whether any decoded part is still referenced; non-trivial: at least 2 decodes succeed and one does not",
		Env:  []string{"GOMAXPROCS=4"},
		Run:  released,
	})
	register(&Prop{
		ID:   "C28",
		Rule: "histories of 2 to 6 decodes by two decoders sharing a tokenizer, with unmarshalers that panic, fail, collect garbage, grow the stack and decode other documents; the calls, the panic value and the error are compared with the model's, values with encoding/json and later decodes with those of fresh decoders; non-trivial: an unmarshaler panicked or decoded something and a later decode succeeded",
		Run:  reentrant,
	})
	register(&Prop{
		ID:   "C29",
		Rule: "documents without escapes decoded from string input into all types holding strings; every non-empty string value must lie within the memory of the input; non-trivial: at least one non-empty string value",
		Run:  referenced,
	})
}

// rawBytes is the memory of *T itself.
func rawBytes(p any) []byte {
	v := reflect.ValueOf(p)
	n := v.Type().Elem().Size()
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(v.UnsafePointer()), n)
}

// spoil makes a text malformed.
func spoil(s *pbt.Src, text []byte) []byte {
	for try := 0; try < 20; try++ {
		b := append([]byte(nil), text...)
		switch s.W(4, 3, 3, 4) {
		case 0: // trailing data
			b = append(b, pbt.Pick(s, []string{"", "", " ", "\n\t", "\r\n  "})...)
			b = append(b, pbt.Pick(s, junk)...)
			if s.P(300) {
				b = append(b, text...)
			}
		case 1: // cut near the end
			n := s.Range(1, 6)
			if n < len(b) {
				b = b[:len(b)-n]
			}
		case 2: // damage near the end
			at := len(b) - s.Intn(8) - 1
			if at < 0 {
				at = 0
			}
			b = append(b[:at:at], append([]byte(pbt.Pick(s, junk)), b[at:]...)...)
		default:
			b = mutate(s, b)
		}
		if !json.Valid(b) {
			return b
		}
	}
	return append(append([]byte(nil), text...), '}')
}

func untouched(e *Env, s *pbt.Src) *Res {
	h := e.pick(s, "all", anyType)
	c := mild(s)
	if s.P(400) {
		c = faulty(s, c)
	}
	d := e.newCase(s, h, c)
	d.text = spoil(s, d.text)
	d.prefill(s, s.P(500))
	zero := deref(d.p).IsZero()
	if s.P(300) {
		d.opt = pickOpt(s)
	}
	d.mode = pickMode(s, d.opt)
	was := clone(d.p)
	mem := append([]byte(nil), rawBytes(d.p)...)
	id := ident{}
	id.collect(deref(d.p), "v", true)
	sp.ResetLog(true)
	d.run()
	calls := sp.Calls
	sp.ResetLog(false)
	r := d.res()
	r.NonTrivial = len(d.text) >= 8 && !zero
	_, _, terr := tokenize(string(d.text))
	switch {
	case d.out.Panic != "":
		r.Fail = "panic: " + d.out.Panic
	case d.out.Err == nil:
		r.Fail = "malformed input accepted, decoded to " + show(deref(d.p))
	case len(calls) > 0:
		r.Fail = fmt.Sprintf("unmarshalers were called for malformed input: %q", calls)
	case !bytes.Equal(mem, rawBytes(d.p)):
		r.Fail = fmt.Sprintf("malformed input changed the destination from %s to %s", show(deref(was)), show(deref(d.p)))
	case kind(d.out.Err) != "syntax error":
		r.Fail = fmt.Sprintf("%v (%s) for malformed input, the tokenizer reports %v", d.out, kind(d.out.Err), terr)
	case d.out.Idx != -2 && d.out.Idx != terr.Index || d.out.Err.Error() != terr.Error():
		r.Fail = fmt.Sprintf("%v, the tokenizer reports %v at %d", d.out, terr, terr.Index)
	}
	if r.Fail != "" {
		return r
	}
	if diff := orc.Eq(deref(d.p), deref(was)); diff != "" {
		r.Fail = fmt.Sprintf("malformed input changed the destination from %s to %s: %s", show(deref(was)), show(deref(d.p)), diff)
		return r
	}
	now := ident{}
	now.collect(deref(d.p), "v", true)
	for k, p := range id {
		if now[k] != p {
			r.Fail = "malformed input replaced what " + k + " refers to"
		}
	}
	if m := d.fill.Intact(); m != "" && r.Fail == "" {
		r.Fail = m
	}
	return r
}

func tokenize(text string) (int, bool, jscan.Error[string]) {
	n := 0
	err := jscan.NewTokenizer[string](8, 64).Tokenize(text, func(t []jscan.Token[string]) bool {
		n = len(t)
		return false
	})
	return n, err.IsErr(), err
}

// --- C27

type tracker struct {
	live  int32
	names []string
	done  []*int32
}

// item announces an object that has to become unreachable.
func (t *tracker) item(name string) func() {
	atomic.AddInt32(&t.live, 1)
	f := new(int32)
	t.names = append(t.names, name)
	t.done = append(t.done, f)
	return func() {
		atomic.StoreInt32(f, 1)
		atomic.AddInt32(&t.live, -1)
	}
}

// bytes copies b to memory of its own that is tracked.
func (t *tracker) bytes(b []byte, name string) []byte {
	n := len(b)
	if n < 64 {
		n = 64
	}
	m := make([]byte, n)
	copy(m, b)
	f := t.item(name)
	runtime.SetFinalizer(&m[0], func(*byte) { f() })
	return m[:len(b):len(b)]
}

func (t *tracker) str(b []byte, name string) string {
	m := t.bytes(b, name)
	return unsafe.String(unsafe.SliceData(m), len(m))
}

// wait collects garbage until everything is freed.
func (t *tracker) wait() string {
	start := time.Now()
	for i := 0; ; i++ {
		runtime.GC()
		for k := 0; k < 20 && atomic.LoadInt32(&t.live) > 0; k++ {
			if k > 2 || i > 3 {
				time.Sleep(time.Duration(i*20) * time.Microsecond)
			}
			runtime.Gosched()
		}
		if atomic.LoadInt32(&t.live) == 0 {
			return ""
		}
		if i > 60 && time.Since(start) > 4*time.Second {
			break
		}
	}
	var still []string
	for i, d := range t.done {
		if atomic.LoadInt32(d) == 0 {
			still = append(still, t.names[i])
		}
	}
	return strings.Join(still, ", ")
}

func released(e *Env, s *pbt.Src) *Res {
	r := &Res{}
	var log bytes.Buffer
	r.desc = log.String
	var t tracker
	var keep []any // decoders and tokenizers
	tokB, tokS := jscan.NewTokenizer[[]byte](4, 16), jscan.NewTokenizer[string](4, 16)
	oks, fails := 0, 0
	n := s.Range(4, 12)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < n && r.Fail == ""; i++ {
			func() {
				var h hv.H
				if s.P(300) {
					h = e.pick(s, "recur", func(t reflect.Type, f jg.Feat) bool { return f.Recur })
				} else {
					h = e.pick(s, "all", anyType)
				}
				c := mild(s)
				if s.P(400) {
					c = faulty(s, c)
					c.Words = []string{"ERR!", "PANIC!"}
				}
				c.Budget = 40
				text := printDoc(s, jg.Doc(s, h.T(), c))
				if s.P(100) {
					text = mutate(s, text)
				}
				p := h.Tracked(t.item(fmt.Sprintf("destination %d", i)))
				if s.P(300) {
					(&orc.Filler{S: s, Depth: 4, Budget: 30}).Fill(deref(p))
				}
				sp.Track = func(b []byte) string { return t.str(b, fmt.Sprintf("what an unmarshaler of decode %d kept", i)) }
				defer func() { sp.Track = nil; sp.ResetLog(false) }()
				var out Out
				var err error
				if s.P(650) {
					dec, e2 := h.NewS(tokS, jd.DefaultInitOptions)
					if err = e2; err == nil {
						keep = append(keep, dec)
						in := t.str(text, fmt.Sprintf("input %d", i))
						func() {
							defer guardPanic(&out)
							out.Idx, out.Err = dec(in, p, jd.DefaultOptions)
						}()
					}
				} else {
					dec, e2 := h.NewB(tokB, jd.DefaultInitOptions)
					if err = e2; err == nil {
						keep = append(keep, dec)
						in := t.bytes(text, fmt.Sprintf("input %d", i))
						func() {
							defer guardPanic(&out)
							out.Idx, out.Err = dec(in, p, jd.DefaultOptions)
						}()
					}
				}
				if err != nil {
					r.Fail = err.Error()
					return
				}
				if out.Err == nil && out.Panic == "" {
					oks++
				} else {
					fails++
				}
				how := "ok"
				if out.Panic != "" {
					how = "panic"
				} else if out.Err != nil {
					how = kind(out.Err)
				}
				fmt.Fprintf(&log, "%d: %s <- %s => %s; ", i, h.Name(), clip(text, 250), how)
				r.Key = pbt.Hash(r.Key, docKey(h, text))
			}()
		}
	}()
	<-done
	if r.Fail != "" {
		return r
	}
	if left := t.wait(); left != "" {
		r.Fail = "still referenced after decoding, while only the decoders are alive: " + left
	}
	runtime.KeepAlive(keep)
	runtime.KeepAlive(tokB)
	runtime.KeepAlive(tokS)
	r.NonTrivial = oks >= 2 && fails > 0
	return r
}

// --- C28

var stackSink byte

//go:noinline
func growStack(n int) byte {
	var a [4096]byte
	a[n] = 1
	if n > 0 {
		return growStack(n-1) + a[n]
	}
	stackSink = a[0]
	return a[0]
}

func reentrant(e *Env, s *pbt.Src) *Res {
	r := &Res{}
	var log bytes.Buffer
	r.desc = log.String
	unm := func(t reflect.Type, f jg.Feat) bool { return (f.JSONU || f.TextU || f.TextKey) && !f.StdU }
	hs := []hv.H{e.pick(s, "sp unmarshalers", unm)}
	if s.P(600) {
		hs = append(hs, e.pick(s, "sp unmarshalers", unm))
	} else {
		hs = append(hs, e.pick(s, "recur", func(t reflect.Type, f jg.Feat) bool { return f.Recur }))
	}
	// What unmarshalers decode.
	type job struct {
		h    hv.H
		text []byte
		want any
		out  Out
		run  func(p any) (int, error)
	}
	var jobs []*job
	for n := s.Range(1, 3); n > 0; n-- {
		j := &job{h: pbt.Pick(s, hs)}
		if s.P(500) {
			j.h = e.pick(s, "all", anyType)
		}
		c := mild(s)
		c.Budget = 20
		if s.P(300) {
			c = faulty(s, c)
		}
		j.text = printDoc(s, jg.Doc(s, j.h.T(), c))
		j.want = j.h.New()
		j.out = e.exec(j.h, freshB, append([]byte(nil), j.text...), j.want, jd.DefaultOptions)
		h, text := j.h, j.text
		switch s.Intn(3) {
		case 0:
			j.run = func(p any) (int, error) { return -2, h.UnmarshalS(string(text), p) }
		case 1:
			j.run = func(p any) (int, error) { return -2, h.UnmarshalB(append([]byte(nil), text...), p) }
		default:
			d, err := h.NewB(jscan.NewTokenizer[[]byte](2, 4), jd.DefaultInitOptions)
			if err != nil {
				r.Fail = err.Error()
				return r
			}
			j.run = func(p any) (int, error) { return d(append([]byte(nil), text...), p, jd.DefaultOptions) }
		}
		jobs = append(jobs, j)
	}
	gc, grow := s.P(100), s.Intn(60)
	k, nested := 0, 0
	nestFail := ""
	nest := func() {
		if k > 40 {
			return
		}
		rec, calls, first := sp.Rec, sp.Calls, sp.FirstErr
		save := sp.Nest
		sp.Rec, sp.Nest = false, nil
		j := jobs[k%len(jobs)]
		k++
		nested++
		p := j.h.New()
		var out Out
		func() {
			defer guardPanic(&out)
			out.Idx, out.Err = j.run(p)
		}()
		if gc {
			runtime.GC()
		}
		growStack(grow)
		if d := sameOut(j.out, out); d != "" {
			nestFail = "decoding " + clip(j.text, 200) + " within an unmarshaler: " + d
		} else if out.Err == nil && out.Panic == "" {
			if d := orc.Eq(deref(p), deref(j.want)); d != "" {
				nestFail = fmt.Sprintf("decoding %s within an unmarshaler gives %s, otherwise %s: %s", clip(j.text, 200), show(deref(p)), show(deref(j.want)), d)
			}
		}
		sp.Rec, sp.Calls, sp.FirstErr, sp.Nest = rec, calls, first, save
	}
	asString := s.P(500)
	tb, ts := jscan.NewTokenizer[[]byte](s.Intn(4), s.Intn(10)), jscan.NewTokenizer[string](s.Intn(4), s.Intn(10))
	db, ds := make([]hv.Dec[[]byte], len(hs)), make([]hv.Dec[string], len(hs))
	for i, h := range hs {
		var err error
		if asString {
			ds[i], err = h.NewS(ts, jd.DefaultInitOptions)
		} else {
			db[i], err = h.NewB(tb, jd.DefaultInitOptions)
		}
		if err != nil {
			r.Fail = err.Error()
			return r
		}
	}
	events, late := 0, 0
	for i, n := 0, s.Range(2, 6); i < n; i++ {
		w := s.Intn(len(hs))
		h := hs[w]
		c := jg.Cfg{Null: 80, Dup: 60, Esc: pbt.Pick(s, []int{0, 100}), Skip: 100, Budget: pbt.Pick(s, []int{15, 40, 80}), Empty: 60, Unknown: 30, Case: 20, Long: 30}
		if s.P(700) {
			c.Err = pbt.Pick(s, []int{60, 200})
			c.Words = pbt.Pick(s, [][]string{{"NEST!"}, {"PANIC!"}, {"ERR!", "PANIC!", "NEST!", "NEST!"}})
		}
		doc := jg.Doc(s, h.T(), c)
		text := printDoc(s, doc)
		pre := h.New()
		if s.P(300) {
			(&orc.Filler{S: s, Depth: 4, Budget: 30}).Fill(deref(pre))
		}
		p := clone(pre)
		// The model's calls, panic and fault.
		var want Out
		var f jg.Fault
		m := jg.Model{Text: text}
		sp.ResetLog(true)
		func() {
			defer guardPanic(&want)
			f = m.Run(doc, h.T())
		}()
		if want.Panic != "" {
			if !sp.IsCallbackPanic(want.Val) {
				panic(want.Panic)
			}
		}
		wantCalls := sp.Calls
		// The decoder's.
		var out Out
		sp.ResetLog(true)
		before := nested
		sp.Nest = nest
		noteCall("shared tokenizer", h.Name(), text, nil)
		viaUnm := s.P(250)
		func() {
			defer guardPanic(&out)
			if viaUnm {
				out.Idx = -2
				if asString {
					out.Err = h.UnmarshalS(string(text), p)
				} else {
					out.Err = h.UnmarshalB(append([]byte(nil), text...), p)
				}
			} else if asString {
				out.Idx, out.Err = ds[w](string(text), p, jd.DefaultOptions)
			} else {
				out.Idx, out.Err = db[w](append([]byte(nil), text...), p, jd.DefaultOptions)
			}
		}()
		sp.Nest = nil
		calls := sp.Calls
		sp.ResetLog(false)
		how := out.String()
		if out.Panic != "" && want.Panic != "" {
			how = fmt.Sprintf("panic %+v", out.Val)
		}
		fmt.Fprintf(&log, "%s <- %s into %s => %s; ", h.Name(), clip(text, 300), orc.Show(deref(pre), 200), how)
		r.Key = pbt.Hash(r.Key, docKey(h, text))
		switch {
		case nestFail != "":
			r.Fail = nestFail
		case want.Panic != "" && out.Val != want.Val:
			r.Fail = fmt.Sprintf("step %d: the unmarshaler panics with %+v, but: %v", i, want.Val, out)
		case want.Panic == "" && out.Panic != "":
			r.Fail = fmt.Sprintf("step %d: panic: %s", i, out.Panic)
		case fmt.Sprint(calls) != fmt.Sprint(wantCalls):
			r.Fail = fmt.Sprintf("step %d: calls %q, want %q", i, calls, wantCalls)
		case want.Panic == "" && (out.Err == nil) != (f.Kind == jg.None):
			r.Fail = fmt.Sprintf("step %d: %v, but the model says %v", i, out, f.Kind)
		case f.Kind == jg.Callback && want.Panic == "" && (kind(out.Err) != kind(f.Err) || out.Err.Error() != f.Err.Error()):
			r.Fail = fmt.Sprintf("step %d: %v, but the unmarshaler returned %v", i, out, f.Err)
		case f.Kind != jg.None && want.Panic == "" && out.Idx != -2 && out.Idx != f.Node.Pos:
			r.Fail = fmt.Sprintf("step %d: %v, want it at %d", i, out, f.Node.Pos)
		}
		if r.Fail != "" {
			return r
		}
		if want.Panic != "" || nested > before {
			events++
		}
		if out.Panic == "" {
			q := clone(pre)
			b := e.exec(h, freshB, append([]byte(nil), text...), q, jd.DefaultOptions)
			if d := sameOut(out, b); d != "" {
				r.Fail = fmt.Sprintf("step %d: versus a fresh decoder: %s", i, d)
				return r
			}
			if out.Err == nil {
				if d := orc.Eq(deref(p), deref(q)); d != "" {
					r.Fail = fmt.Sprintf("step %d: decoded to %s, by a fresh decoder to %s: %s", i, show(deref(p)), show(deref(q)), d)
					return r
				}
				rv := reflect.New(h.R())
				orc.Copy(rv.Elem(), deref(pre))
				if json.Unmarshal(text, rv.Interface()) == nil {
					if d := orc.Eq(deref(p), rv.Elem()); d != "" {
						r.Fail = fmt.Sprintf("step %d: decoded to %s, encoding/json gives %s: %s", i, show(deref(p)), show(rv.Elem()), d)
						return r
					}
				}
				if events > 0 {
					late++
				}
			}
		} else {
			// What was decoded before the panic is intact memory.
			if s.P(50) {
				runtime.GC()
			}
			_ = show(deref(p))
		}
	}
	r.NonTrivial = events > 0 && late > 0
	if events > 0 {
		r.Counts = []string{"panicking or decoding unmarshalers"}
	}
	return r
}

// --- C29

func referenced(e *Env, s *pbt.Src) *Res {
	h := e.pick(s, "plain strings", func(t reflect.Type, f jg.Feat) bool { return f.Str || f.Any })
	c := mild(s)
	c.Esc, c.Lone = 0, 0
	d := e.newCase(s, h, c)
	d.mode = []int{reusedS, freshS, unmS}[s.W(4, 1, 1)]
	if bytes.IndexByte(d.text, '\\') >= 0 {
		// Rewrite the strings that need escapes.
		d.doc.Walk(func(n *jg.Node) {
			if n.K == '"' && strings.Contains(n.Lit, `\`) {
				*n = *jg.Quote(plain(n.Str))
			}
			for i, k := range n.Keys {
				if strings.Contains(k.Lit, `\`) {
					n.Keys[i] = jg.Quote(plain(k.Str))
				}
			}
		})
		d.text = printDoc(s, d.doc)
	}
	in := string(d.text)
	r := d.res()
	if bytes.IndexByte(d.text, '\\') >= 0 {
		return r
	}
	func() {
		defer guardPanic(&d.out)
		o := jd.DefaultOptions
		switch d.mode {
		case unmS:
			d.out.Idx, d.out.Err = -2, h.UnmarshalS(in, d.p)
		default:
			dec, err := h.NewS(jscan.NewTokenizer[string](8, 64), jd.DefaultInitOptions)
			if err != nil {
				d.out.Err = err
				return
			}
			d.out.Idx, d.out.Err = dec(in, d.p, o)
		}
	}()
	if d.out.Panic != "" {
		r.Fail = "panic: " + d.out.Panic
		return r
	}
	if d.out.Err != nil {
		return r
	}
	lo := uintptr(unsafe.Pointer(unsafe.StringData(in)))
	hi := lo + uintptr(len(in))
	n := 0
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		t := v.Type()
		if r.Fail != "" || v.Kind() != reflect.Interface && (jg.IsJSONU(t) || jg.IsTextU(t)) {
			return
		}
		switch v.Kind() {
		case reflect.String:
			if jg.IsNumber(t) || v.Len() == 0 {
				return
			}
			n++
			str := v.String()
			p := uintptr(unsafe.Pointer(unsafe.StringData(str)))
			if p < lo || p+uintptr(len(str)) > hi {
				r.Fail = fmt.Sprintf("the string %q at %s was copied", str, path)
			}
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), "*"+path)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if t.Field(i).IsExported() {
					walk(v.Field(i), path+"."+t.Field(i).Name)
				}
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				walk(it.Value(), path+"["+orc.Show(it.Key(), 60)+"]")
			}
		}
	}
	walk(deref(d.p), "v")
	r.NonTrivial = n > 0
	return r
}

// plain replaces what would need an escape.
func plain(s string) string {
	return strings.Map(func(r rune) rune {
		if r < ' ' || r == '"' || r == '\\' {
			return '_'
		}
		return r
	}, s)
}
