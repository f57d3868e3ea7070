package main

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan/v2"
	"verif/harness/hv"
	"verif/harness/jg"
	"verif/harness/orc"
	"verif/harness/pbt"
	"verif/harness/sp"
)

// Res is the result of one generated case.
type Res struct {
	Fail       string // violation; "" if the property held
	NonTrivial bool
	Key        uint64 // identifies the case among the distinct ones
	Desc       string // how the case looked like
	desc       func() string
	Counts     []string // classes the case belongs to
}

// Prop is a property with its generator and oracle.
type Prop struct {
	ID    string
	Rule  string // which cases are non-trivial
	Notes []string
	Run   func(e *Env, s *pbt.Src) *Res
	Env   []string // environment of the workers
	// Workers limits the number of worker processes.
	Workers int
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Env is what a worker keeps between cases.
type Env struct {
	Thorough bool
	tokB     *jscan.Tokenizer[[]byte]
	tokS     *jscan.Tokenizer[string]
	decB     map[hv.H]hv.Dec[[]byte]
	decS     map[hv.H]hv.Dec[string]
	hist     map[hv.H]int
	sel      map[string][]hv.H
	page     *page
	keep     []kept
	n        int
}

func newEnv(thorough bool) *Env {
	e := &Env{Thorough: thorough, sel: map[string][]hv.H{}, hist: map[hv.H]int{}}
	e.reset()
	return e
}

func (e *Env) reset() {
	e.tokB = jscan.NewTokenizer[[]byte](16, 128)
	e.tokS = jscan.NewTokenizer[string](16, 128)
	e.decB = map[hv.H]hv.Dec[[]byte]{}
	e.decS = map[hv.H]hv.Dec[string]{}
	e.keep = nil
	e.n = 0
}

// pick chooses a destination type satisfying the predicate.
func (e *Env) pick(s *pbt.Src, name string, pred func(t reflect.Type, f jg.Feat) bool) hv.H {
	l, ok := e.sel[name]
	if !ok {
		for _, h := range hv.All {
			if pred(h.T(), jg.FeatOf(h.T())) {
				l = append(l, h)
			}
		}
		if len(l) == 0 {
			panic("no types for " + name)
		}
		e.sel[name] = l
	}
	return pbt.Pick(s, l)
}

// pickShallow prefers types up to the given nesting depth.
func (e *Env) pickShallow(s *pbt.Src, name string, depth int, pred func(t reflect.Type, f jg.Feat) bool) hv.H {
	if s.P(100) {
		return e.pick(s, name+" of any depth", pred)
	}
	return e.pick(s, name, func(t reflect.Type, f jg.Feat) bool { return f.Depth <= depth && pred(t, f) })
}

func anyType(reflect.Type, jg.Feat) bool { return true }

// Modes of decoding.
const (
	reusedB = iota
	reusedS
	freshB
	freshS
	unmB
	unmS
)

var modeName = []string{"reused []byte decoder", "reused string decoder", "fresh []byte decoder", "fresh string decoder", "Unmarshal []byte", "Unmarshal string"}

// pickMode chooses a mode; Unmarshal has no options.
func pickMode(s *pbt.Src, o *jd.DecodeOptions) int {
	if o != jd.DefaultOptions {
		return []int{freshB, freshS, reusedB, reusedS}[s.W(1, 1, 4, 4)]
	}
	return []int{freshB, freshS, reusedB, reusedS, unmB, unmS}[s.W(1, 1, 4, 4, 1, 1)]
}

// Out is the outcome of a decode.
type Out struct {
	Idx   int // -2: not reported (Unmarshal)
	Err   error
	Panic string
	Val   any // what the panic was about
}

func (o Out) String() string {
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	if o.Err == nil {
		return "ok"
	}
	return fmt.Sprintf("error %q at %d", o.Err.Error(), o.Idx)
}

func guardPanic(o *Out) {
	if r := recover(); r != nil {
		o.Val = r
		st := string(debug.Stack())
		if i := strings.Index(st, "panic("); i >= 0 {
			st = st[i:]
		}
		if len(st) > 900 {
			st = st[:900]
		}
		o.Panic = fmt.Sprintf("%v\n%s", r, st)
		if re, ok := r.(runtime.Error); ok {
			o.Panic = re.Error() + "\n" + st
		}
	}
}

// exec decodes text into p (a *T) in the given mode.
func (e *Env) exec(h hv.H, mode int, text []byte, p any, o *jd.DecodeOptions) (out Out) {
	defer guardPanic(&out)
	noteCall(modeName[mode], h.Name(), text, o)
	switch mode {
	case reusedB:
		d := e.decB[h]
		if d == nil {
			var err error
			if d, err = h.NewB(e.tokB, jd.DefaultInitOptions); err != nil {
				return Out{Idx: -3, Err: err}
			}
			e.decB[h] = d
		}
		out.Idx, out.Err = d(text, p, o)
	case reusedS:
		d := e.decS[h]
		if d == nil {
			var err error
			if d, err = h.NewS(e.tokS, jd.DefaultInitOptions); err != nil {
				return Out{Idx: -3, Err: err}
			}
			e.decS[h] = d
		}
		out.Idx, out.Err = d(string(text), p, o)
	case freshB:
		d, err := h.NewB(jscan.NewTokenizer[[]byte](8, 64), jd.DefaultInitOptions)
		if err != nil {
			return Out{Idx: -3, Err: err}
		}
		out.Idx, out.Err = d(text, p, o)
	case freshS:
		d, err := h.NewS(jscan.NewTokenizer[string](8, 64), jd.DefaultInitOptions)
		if err != nil {
			return Out{Idx: -3, Err: err}
		}
		out.Idx, out.Err = d(string(text), p, o)
	case unmB:
		out.Idx, out.Err = -2, h.UnmarshalB(text, p)
	case unmS:
		out.Idx, out.Err = -2, h.UnmarshalS(string(text), p)
	}
	return out
}

// kind classifies a decoding error.
func kind(err error) string {
	var cb *sp.CallbackErr
	switch {
	case err == nil:
		return "none"
	case err == jd.ErrUnexpectedValue:
		return "ErrUnexpectedValue"
	case err == jd.ErrIntegerOverflow:
		return "ErrIntegerOverflow"
	case err == jd.ErrUnknownField:
		return "ErrUnknownField"
	case errors.As(err, &cb):
		return "unmarshaler error"
	}
	if strings.Contains(fmt.Sprintf("%T", err), "jscan") {
		return "syntax error"
	}
	return fmt.Sprintf("%T", err)
}

func deref(p any) reflect.Value { return reflect.ValueOf(p).Elem() }

func show(v reflect.Value) string { return orc.Show(v, 700) }

func clip(b []byte, n int) string {
	if len(b) > n {
		return fmt.Sprintf("%q... (%d bytes)", b[:n], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// printDoc prints a document in a random style.
func printDoc(s *pbt.Src, n *jg.Node) []byte {
	return jg.Print(n, jg.RandWS(s, s.W(6, 3, 1), n))
}

func docKey(h hv.H, text []byte, xs ...uint64) uint64 {
	return pbt.Hash(append([]uint64{pbt.HashBytes(h.Name()), pbt.HashBytes(string(text))}, xs...)...)
}
