package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"unsafe"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan/v2"
	"verif/harness/hv"
	"verif/harness/jg"
	"verif/harness/orc"
	"verif/harness/pbt"
)

func init() {
	register(&Prop{
		ID:   "C35",
		Rule: "histories of 2 to 6 decodes (texts often repeated, some faulty) by reused decoders and Unmarshal into separate destinations: the memory of all pointees, maps and slices up to their capacity of all values decoded so far, and of the input, must be disjoint; then a random one of the values is overwritten in place wherever it can be (also spare capacity), and the others and all later decodes must be unaffected, the latter agreeing with encoding/json; non-trivial: at least two accepted decodes and 3 regions of memory",
		Run:  ownership,
	})
}

// A region is memory a decoded value owns.
type region struct {
	lo, hi uintptr
	path   string
}

const maxRegions = 4000

func regions(rs []region, v reflect.Value, path string) []region {
	t := v.Type()
	if jg.IsJSONU(t) || jg.IsTextU(t) || len(rs) > maxRegions {
		return rs
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return rs
		}
		if n := t.Elem().Size(); n > 0 {
			rs = append(rs, region{v.Pointer(), v.Pointer() + n, "*" + path})
		}
		return regions(rs, v.Elem(), "*"+path)
	case reflect.Interface:
		if !v.IsNil() {
			return regions(rs, v.Elem(), path)
		}
	case reflect.Map:
		if v.IsNil() {
			return rs
		}
		rs = append(rs, region{v.Pointer(), v.Pointer() + 1, "map " + path})
		for it := v.MapRange(); it.Next(); {
			rs = regions(rs, it.Value(), path+"["+orc.Show(it.Key(), 60)+"]")
		}
	case reflect.Slice:
		if n := uintptr(v.Cap()) * t.Elem().Size(); n > 0 {
			rs = append(rs, region{v.Pointer(), v.Pointer() + n, fmt.Sprintf("%s[:%d]", path, v.Cap())})
		}
		fallthrough
	case reflect.Array:
		switch t.Elem().Kind() {
		case reflect.Pointer, reflect.Interface, reflect.Map, reflect.Slice, reflect.Array, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				rs = regions(rs, v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			rs = regions(rs, v.Field(i), path+"."+t.Field(i).Name)
		}
	}
	return rs
}

// overlap describes two regions that overlap.
func overlap(rs []region) string {
	sort.Slice(rs, func(i, k int) bool { return rs[i].lo < rs[k].lo })
	for i := 1; i < len(rs); i++ {
		if rs[i].lo < rs[i-1].hi {
			return fmt.Sprintf("%s and %s share memory", rs[i-1].path, rs[i].path)
		}
	}
	return ""
}

func writable(v reflect.Value) reflect.Value {
	if v.CanSet() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// scramble changes everything v refers to in place.
func scramble(v reflect.Value) {
	t := v.Type()
	if jg.IsJSONU(t) || jg.IsTextU(t) {
		return
	}
	v = writable(v)
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(^v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(^v.Uint() & (^uint64(0) >> (64 - t.Bits())))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(-7 - v.Float())
	case reflect.String:
		v.SetString("scrambled " + v.String())
	case reflect.Pointer:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Interface:
		if v.IsNil() {
			if t.NumMethod() == 0 && v.CanSet() {
				v.Set(reflect.ValueOf("scrambled"))
			}
			return
		}
		switch e := v.Elem(); e.Kind() {
		case reflect.Map, reflect.Slice, reflect.Pointer:
			scramble(e)
		default:
			if t.NumMethod() == 0 && v.CanSet() {
				v.Set(reflect.ValueOf("scrambled"))
			}
		}
	case reflect.Slice:
		for i, w := 0, v.Slice3(0, v.Cap(), v.Cap()); i < w.Len(); i++ {
			scramble(w.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for i, k := range v.MapKeys() {
			n := reflect.New(t.Elem()).Elem()
			n.Set(v.MapIndex(k))
			scramble(n)
			if i%3 == 1 {
				n = reflect.Value{}
			}
			v.SetMapIndex(k, n)
		}
	}
}

func ownership(e *Env, s *pbt.Src) *Res {
	hasMemory := func(t reflect.Type, f jg.Feat) bool { return f.Ptr || f.Slice || f.Map || f.Any }
	hs := []hv.H{e.pickShallow(s, "owning", 8, hasMemory)}
	if s.P(250) {
		hs = append(hs, e.pickShallow(s, "owning", 8, hasMemory))
	}
	var log bytes.Buffer
	r := &Res{desc: log.String}
	asString := s.P(300)
	tb, ts := jscan.NewTokenizer[[]byte](s.Intn(4), s.Intn(10)), jscan.NewTokenizer[string](s.Intn(4), s.Intn(10))
	db, ds := make([]hv.Dec[[]byte], len(hs)), make([]hv.Dec[string], len(hs))
	for i, h := range hs {
		var err error
		if asString {
			ds[i], err = h.NewS(ts, jd.DefaultInitOptions)
		} else {
			db[i], err = h.NewB(tb, jd.DefaultInitOptions)
		}
		if err != nil {
			r.Fail = err.Error()
			return r
		}
	}
	type old struct {
		v         reflect.Value
		snap      string
		scrambled bool
	}
	type text struct {
		h int
		b []byte
	}
	var olds []old
	var texts []text
	oks, most := 0, 0
	for i, n := 0, s.Range(2, 6); i < n; i++ {
		var t text
		if len(texts) > 0 && s.P(450) {
			t = pbt.Pick(s, texts)
		} else {
			t.h = s.Intn(len(hs))
			c := mild(s)
			c.Budget = pbt.Pick(s, []int{15, 40, 150})
			if s.P(200) {
				c = faulty(s, c)
			}
			t.b = printDoc(s, jg.Doc(s, hs[t.h].T(), c))
			texts = append(texts, t)
		}
		h := hs[t.h]
		p, ref := h.New(), h.New()
		if s.P(200) {
			(&orc.Filler{S: s, Depth: 4, Budget: 30}).Fill(deref(p))
			ref = clone(p)
		}
		in := append([]byte(nil), t.b...)
		var out Out
		unm := s.P(200)
		func() {
			defer guardPanic(&out)
			switch {
			case unm && asString:
				out = e.exec(h, unmS, t.b, p, jd.DefaultOptions)
			case unm:
				out = e.exec(h, unmB, in, p, jd.DefaultOptions)
			case asString:
				out.Idx, out.Err = ds[t.h](string(t.b), p, jd.DefaultOptions)
			default:
				out.Idx, out.Err = db[t.h](in, p, jd.DefaultOptions)
			}
		}()
		fmt.Fprintf(&log, "step %d: %s <- %s => %v; ", i, h.Name(), clip(t.b, 300), out)
		r.Key = pbt.Hash(r.Key, docKey(h, t.b))
		if out.Panic != "" {
			r.Fail = fmt.Sprintf("step %d: panic: %s", i, out.Panic)
			return r
		}
		if errRef := json.Unmarshal(t.b, ref); errRef == nil && out.Err == nil {
			oks++
			if d := orc.Eq(deref(p), deref(ref)); d != "" {
				r.Fail = fmt.Sprintf("step %d gives %s, encoding/json %s: %s", i, show(deref(p)), show(deref(ref)), d)
				return r
			}
		}
		for k, o := range olds {
			if now := show(o.v); now != o.snap {
				r.Fail = fmt.Sprintf("step %d changed the value of step %d from %s to %s", i, k, o.snap, now)
				return r
			}
		}
		olds = append(olds, old{v: deref(p), snap: show(deref(p))})
		var rs []region
		if !asString && len(in) > 0 {
			lo := uintptr(unsafe.Pointer(&in[0]))
			rs = append(rs, region{lo, lo + uintptr(len(in)), "input"})
		}
		for k, o := range olds {
			// The destination itself
			lo := o.v.UnsafeAddr()
			if n := o.v.Type().Size(); n > 0 {
				rs = append(rs, region{lo, lo + n, fmt.Sprintf("value %d", k)})
			}
			rs = regions(rs, o.v, fmt.Sprintf("value %d", k))
		}
		most = max(most, len(rs))
		if r.Fail = overlap(rs); r.Fail != "" {
			r.Fail = fmt.Sprintf("after step %d: %s", i, r.Fail)
			return r
		}
		if s.P(500) {
			k := s.Intn(len(olds))
			scramble(olds[k].v)
			olds[k].snap = show(olds[k].v)
			olds[k].scrambled = true
			fmt.Fprintf(&log, "value %d overwritten; ", k)
			for j, o := range olds {
				if now := show(o.v); now != o.snap {
					r.Fail = fmt.Sprintf("overwriting the value of step %d changed that of step %d from %s to %s", k, j, o.snap, now)
					return r
				}
			}
			if !asString && !bytes.Equal(in, t.b) {
				r.Fail = fmt.Sprintf("overwriting the value of step %d changed the input", k)
				return r
			}
		}
	}
	r.NonTrivial = oks >= 2 && most >= 3+len(olds)
	return r
}
