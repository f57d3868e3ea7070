package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	jd "github.com/romshark/jscan-experimental-decoder"
	"verif/harness/hv"
	"verif/harness/jg"
	"verif/harness/pbt"
)

func init() {
	register(&Prop{
		ID:   "C30",
		Rule: "pairs of documents that differ in how often a part is repeated (elements, members, unknown members, surplus elements, characters of strings, digits, whitespace, levels of recursive types, any or anything else), the larger one 16 times the smaller, valid, faulty or truncated, decoded by new and reused decoders and Unmarshal of both input kinds into zero or already filled values; the processor time and the memory allocated must grow at most in proportion (times 6 plus a constant), confirmed by repeated measurements; non-trivial: the larger document is at least 8 times the smaller one",
		Run:  scaling,
	})
	register(&Prop{
		ID:   "C31",
		Rule: "documents without null, duplicate keys and escapes (other than in keys) for types without maps, any, base64 and unmarshalers, valid or faulty at any position, decoded several times by the same decoder into the same destination, from string input if there are strings; from the third time on no decode may allocate more than 8 objects (and one per key with escapes), confirmed by repeated measurements; non-trivial: at least 16 values",
		Run:  reuse,
	})
}

// threadTime is the processor time used by the thread.
func threadTime() time.Duration {
	var ts syscall.Timespec
	if _, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		return time.Duration(time.Now().UnixNano())
	}
	return time.Duration(ts.Nano())
}

// nest returns the document with one value nested in as many containers (or the
// levels of a recursive type repeated as often) as told, and how to do that again.
func nest(s *pbt.Src, doc *jg.Node) func(levels int) []byte {
	nth := func(d *jg.Node, n int) (r *jg.Node) {
		d.Walk(func(x *jg.Node) {
			if n == 0 {
				r = x
			}
			n--
		})
		return r
	}
	if outer, ways := doc.Pumpable(); len(outer) > 0 && s.P(600) {
		i := s.Intn(len(outer))
		at, n := -1, 0
		doc.Walk(func(x *jg.Node) {
			if x == outer[i] && at < 0 {
				at = n
			}
			n++
		})
		return func(levels int) []byte {
			d := doc.Clone()
			nth(d, at).Pump(ways[i], levels)
			return jg.Print(d, nil)
		}
	}
	// Values that may contain anything are more interesting.
	at := s.Intn(doc.Count())
	for try := 0; try < 4 && s.P(800); try++ {
		if x := nth(doc, at); x.K != '[' && x.K != '{' || x.ST != nil {
			at = s.Intn(doc.Count())
		}
	}
	var left, right []string
	for n := s.Range(1, 3); n > 0; n-- {
		i := s.W(4, 4, 1, 1, 1)
		left = append(left, []string{"[", `{"a":`, "[1,", `{"b":null,"a":`, "["}[i])
		right = append([]string{[]string{"]", "}", "]", "}", ",2]"}[i]}, right...)
	}
	l, r := strings.Join(left, ""), strings.Join(right, "")
	return func(levels int) []byte {
		d := doc.Clone()
		x := nth(d, at)
		levels /= len(left)
		*x = jg.Node{K: '#', Lit: strings.Repeat(l, levels) + string(jg.Print(x.Clone(), nil)) + strings.Repeat(r, levels)}
		return jg.Print(d, nil)
	}
}

// deep decodes a document nested a few times and the same nested so often
// that recursive functions exhaust a stack of 32 MB.
func deep(e *Env, s *pbt.Src, h hv.H, c jg.Cfg) *Res {
	c.Huge, c.Budget = jg.Small, 25
	doc := jg.Doc(s, h.T(), c)
	n := s.Range(200000, 250000)
	nested := nest(s, doc)
	texts := [2][]byte{nested(60), nil}
	if len(texts[0]) > 50*60 {
		return &Res{Key: docKey(h, texts[0])} // too large a part to repeat
	}
	texts[1] = nested(n)
	if s.P(150) {
		for j := range texts {
			texts[j] = texts[j][:len(texts[j])-1]
		}
	}
	r := &Res{Key: docKey(h, texts[0], uint64(n)), Counts: []string{"very deep"}}
	r.NonTrivial = len(texts[1]) > n
	if len(texts[1]) > 30<<20 {
		return r
	}
	opt := pickOpt(s)
	mode := pickMode(s, opt)
	r.desc = func() string {
		return fmt.Sprintf("%s: %s of %s and the same nested %d times (%d bytes)", h.Name(), modeName[mode], clip(texts[0], 400), n, len(texts[1]))
	}
	var out [2]Out
	for j := range texts {
		func() {
			defer debug.SetMaxStack(debug.SetMaxStack(32 << 20))
			done := make(chan bool)
			go func() {
				out[j] = e.exec(h, mode, texts[j], h.New(), opt)
				close(done)
			}()
			<-done
		}()
		if out[j].Panic != "" {
			r.Fail = "panic: " + out[j].Panic
			return r
		}
	}
	if !jg.FeatOf(h.T()).JSONU && (out[0].Err == nil) != (out[1].Err == nil) {
		r.Fail = fmt.Sprintf("%v, but with %d levels %v", out[0], n, out[1])
	}
	return r
}

type cost struct {
	time  time.Duration
	bytes uint64
}

func scaling(e *Env, s *pbt.Src) *Res {
	const factor = 16
	r := &Res{}
	kind := s.W(50, 25, 8, 8, 4, 12)
	h := e.pick(s, "all but of large values", func(t reflect.Type, f jg.Feat) bool { return f.Size < 1000 || f.Recur && f.Size < 10_000 })
	if kind == 4 {
		if s.P(600) {
			h = e.pick(s, "any or recursive", func(t reflect.Type, f jg.Feat) bool { return f.Any || f.Recur })
		}
		return deep(e, s, h, mild(s))
	}
	if kind == 1 {
		h = e.pick(s, "any or recursive", func(t reflect.Type, f jg.Feat) bool { return f.Any || f.Recur })
	}
	n := s.Range(1000, 3000)
	c := mild(s)
	c.Budget = 25
	c.Huge, c.Scale = 0, 0
	if s.P(200) {
		c = faulty(s, c)
	}
	var texts [2][]byte
	what := ""
	switch kind {
	case 0:
		from := len(s.Rec)
		c.Scale = n
		texts[0] = jg.Print(jg.Doc(s, h.T(), c), nil)
		c.Scale = n * factor
		texts[1] = jg.Print(jg.Doc(pbt.Replay(append([]uint64(nil), s.Rec[from:]...)), h.T(), c), nil)
		what = "repetitions of a part"
	case 1:
		c.Huge = jg.Small
		c.Empty, c.Skip, c.Null = 10, 100, 10
		if n = n / 4; jg.FeatOf(h.T()).JSONU {
			n /= 2 // encoding/json, which unmarshalers use, limits the depth
		}
		nested := nest(s, jg.Doc(s, h.T(), c))
		for j, k := range []int{n, n * factor} {
			texts[j] = nested(k)
		}
		what = "levels"
	case 2:
		c.Huge = jg.Small
		doc := jg.Doc(s, h.T(), c)
		var nums []*jg.Node
		doc.Walk(func(x *jg.Node) {
			if x.K == '#' {
				nums = append(nums, x)
			}
		})
		if len(nums) == 0 {
			r.Key = docKey(h, nil)
			return r
		}
		x := pbt.Pick(s, nums)
		f := pbt.Pick(s, []string{"1%s", "-1%s.5", "0.%s1", "1.%s2", "1e%s1", "2.5E-%s3"})
		for j, k := range []int{n, n * factor} {
			x.Lit = fmt.Sprintf(f, strings.Repeat("0", k))
			texts[j] = jg.Print(doc, nil)
		}
		what = "digits"
	case 5:
		c.Huge = jg.Small
		c.Skip, c.Unknown = 100, 60
		doc := jg.Doc(s, h.T(), c)
		var lits []*jg.Node
		doc.Walk(func(x *jg.Node) {
			if x.K == '"' {
				lits = append(lits, x)
			}
			lits = append(lits, x.Keys...)
		})
		if len(lits) == 0 {
			r.Key = docKey(h, nil)
			return r
		}
		x := pbt.Pick(s, lits)
		unit, old := "", x.Lit
		for i := s.Range(1, 3); i > 0; i-- {
			unit += pbt.Pick(s, []string{"x", "0", "é", "日", "😀", `\n`, `\\`, `\"`, `\/`, `\u0041`, `\u00e9`, `\u65e5`, `\ud83d\ude00`, `\ud83d`, `\ude00`, `\u0000`, "\u2028", "Zz"})
		}
		tail := s.P(500)
		for j, k := range []int{n / 4, n / 4 * factor} {
			x.Lit = `"` + strings.Repeat(unit, k) + `"`
			if tail {
				x.Lit = x.Lit[:len(x.Lit)-1] + old[1:]
			}
			texts[j] = jg.Print(doc, nil)
		}
		what = "characters"
	default:
		c.Huge = jg.Small
		doc := jg.Doc(s, h.T(), c)
		at := s.Intn(20)
		for j, k := range []int{n, n * factor} {
			i := 0
			texts[j] = jg.Print(doc, func() string {
				if i++; i-1 == at || at < 3 && i < 40 {
					return strings.Repeat(" ", k)
				}
				return ""
			})
		}
		what = "spaces"
	}
	if s.P(100) {
		for j := range texts {
			texts[j] = texts[j][:len(texts[j])-1]
		}
	}
	r.Key = docKey(h, texts[0])
	ratio := float64(len(texts[1])) / float64(len(texts[0]))
	r.NonTrivial = ratio >= factor/2
	r.Counts = []string{what}
	opt := pickOpt(s)
	mode := pickMode(s, opt)
	again := s.P(300)
	r.desc = func() string {
		return fmt.Sprintf("%s: %s of %s (%d %s) and the same with 16 times as many %s (%d bytes), again=%v",
			h.Name(), modeName[mode], clip(texts[0], 300), n, what, what, len(texts[1]), again)
	}
	if len(texts[1]) > 20<<20 {
		return r
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	measure := func(text []byte, min cost) cost {
		p := h.New()
		if again {
			_ = e.exec(h, mode, text, p, opt)
		}
		in := bytes.Clone(text)
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		t := threadTime()
		out := e.exec(h, mode, in, p, opt)
		t = threadTime() - t
		runtime.ReadMemStats(&b)
		if out.Panic != "" {
			r.Fail = "panic: " + out.Panic
		}
		if d := b.TotalAlloc - a.TotalAlloc; min.time == 0 || d < min.bytes {
			min.bytes = d
		}
		if min.time == 0 || t < min.time {
			min.time = t
		}
		return min
	}
	var small, large cost
	for try := 0; try < 6 && r.Fail == ""; try++ {
		small, large = measure(texts[0], small), measure(texts[1], large)
		if ratio < 1 {
			ratio = 1
		}
		slow := float64(large.time) > 6*ratio*float64(small.time)+20e6
		big := float64(large.bytes) > 6*ratio*float64(small.bytes)+float64(1<<20)+64*float64(len(texts[1]))
		if !slow && !big {
			return r
		}
	}
	if r.Fail == "" {
		r.Fail = fmt.Sprintf("%d bytes take %v and %d bytes of memory, but %d bytes take %v and %d bytes of memory", len(texts[0]), small.time, small.bytes, len(texts[1]), large.time, large.bytes)
	}
	return r
}

// --- C31

func reuse(e *Env, s *pbt.Src) *Res {
	h := e.pick(s, "reusable memory", func(t reflect.Type, f jg.Feat) bool {
		return !f.JSONU && !f.TextU && !f.TextKey && !f.Any && !f.Map && !f.Bytes
	})
	c := mild(s)
	if s.P(200) {
		c = faulty(s, c)
	}
	useB := !jg.FeatOf(h.T()).Str && !jg.FeatOf(h.T()).Number && s.P(500)
	c.Null, c.Dup, c.Esc, c.Lone = 0, 0, 0, 0
	c.Long *= 4
	if c.Budget == 0 {
		c.Budget = 80
	}
	doc := jg.Doc(s, h.T(), c)
	allow := uint64(8)
	lengthen := s.P(150)
	doc.Walk(func(n *jg.Node) {
		if i := strings.IndexByte(n.Lit, '.'); lengthen && n.K == '#' && i > 0 {
			n.Lit = n.Lit[:i+1] + strings.Repeat("0", s.Range(10, 60)) + n.Lit[i+1:]
		}
		if n.K == '"' && strings.Contains(n.Lit, `\`) {
			*n = *jg.Quote(plain(n.Str))
		}
		for _, k := range n.Keys {
			if strings.Contains(k.Lit, `\`) {
				allow++
			}
			if useB && len(k.Lit) > 32 {
				allow += 400 // comparing it with every field
			}
		}
	})
	text := printDoc(s, doc)
	opt := pickOpt(s)
	r := &Res{Key: docKey(h, text), NonTrivial: doc.Count() >= 16}
	r.desc = func() string {
		return fmt.Sprintf("%s: several decodes of %s into the same value, []byte=%v", h.Name(), clip(text, 600), useB)
	}
	doc.Walk(func(n *jg.Node) {
		if n.K == '"' && strings.Contains(n.Lit, `\`) {
			r.Counts = append(r.Counts, "escapes")
		}
	})
	if len(r.Counts) > 0 {
		r.NonTrivial = false
		return r
	}
	p := h.New()
	in := string(text)
	var run func() (int, error)
	if useB {
		d, err := h.NewB(e.tokB, jd.DefaultInitOptions)
		if err != nil {
			r.Fail = err.Error()
			return r
		}
		run = func() (int, error) { return d(text, p, opt) }
	} else {
		d, err := h.NewS(e.tokS, jd.DefaultInitOptions)
		if err != nil {
			r.Fail = err.Error()
			return r
		}
		run = func() (int, error) { return d(in, p, opt) }
	}
	noteCall("reused decoder", h.Name(), text, opt)
	var out Out
	func() {
		defer guardPanic(&out)
		min := ^uint64(0)
		for try := 0; try < 12; try++ {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			_, _ = run()
			runtime.ReadMemStats(&b)
			if try < 2 {
				continue
			}
			if n := b.Mallocs - a.Mallocs; n < min {
				min = n
			}
			if min <= allow {
				r.Counts = append(r.Counts, pbt.If(min == 0, "no objects", pbt.If(min <= 8, "up to 8 objects", "more objects")))
				return
			}
		}
		r.Fail = fmt.Sprintf("every further decode allocates at least %d objects, not at most %d", min, allow)
	}()
	if out.Panic != "" {
		r.Fail = "panic: " + out.Panic
	}
	return r
}

var _ hv.H
