// Package hv gives every statically typed destination type a uniform handle, so
// that the generic public API of the decoder can be driven by generated cases.
package hv

import (
	"reflect"
	"runtime"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan/v2"
)

type (
	Tok[S []byte | string] struct{ T *jscan.Tokenizer[S] }
	// Dec decodes data into p (a *T).
	Dec[S []byte | string] func(data S, p any, o *jd.DecodeOptions) (int, error)
)

// H is a handle of a destination type T.
type H interface {
	Name() string
	T() reflect.Type
	// R is the type encoding/json decodes into: T with jscandec.Number
	// replaced by json.Number.
	R() reflect.Type
	NewB(*jscan.Tokenizer[[]byte], *jd.InitOptions) (Dec[[]byte], error)
	NewS(*jscan.Tokenizer[string], *jd.InitOptions) (Dec[string], error)
	UnmarshalB([]byte, any) error
	UnmarshalS(string, any) error
	New() any
	Nil() any // (*T)(nil)
	// Guarded returns a *T surrounded by guard words, and a function telling
	// whether the guards are intact.
	Guarded() (any, func() bool)
	// Tracked returns a *T; f is called once its memory is unreachable.
	Tracked(f func()) any
}

type th[T any] struct {
	name string
	ref  reflect.Type
}

func (h *th[T]) Name() string    { return h.name }
func (h *th[T]) T() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }
func (h *th[T]) R() reflect.Type { return h.ref }
func (h *th[T]) New() any        { return new(T) }
func (h *th[T]) Nil() any        { return (*T)(nil) }

func (h *th[T]) NewB(tok *jscan.Tokenizer[[]byte], o *jd.InitOptions) (Dec[[]byte], error) {
	d, err := jd.NewDecoder[[]byte, T](tok, o)
	if err != nil {
		return nil, err
	}
	return func(data []byte, p any, o *jd.DecodeOptions) (int, error) {
		return d.Decode(data, p.(*T), o)
	}, nil
}

func (h *th[T]) NewS(tok *jscan.Tokenizer[string], o *jd.InitOptions) (Dec[string], error) {
	d, err := jd.NewDecoder[string, T](tok, o)
	if err != nil {
		return nil, err
	}
	return func(data string, p any, o *jd.DecodeOptions) (int, error) {
		return d.Decode(data, p.(*T), o)
	}, nil
}

func (h *th[T]) UnmarshalB(b []byte, p any) error { return jd.Unmarshal[[]byte, T](b, p.(*T)) }
func (h *th[T]) UnmarshalS(s string, p any) error { return jd.Unmarshal[string, T](s, p.(*T)) }

type guard[T any] struct {
	Pre  [16]uint64
	V    T
	Post [16]uint64
}

func (h *th[T]) Guarded() (any, func() bool) {
	g := new(guard[T])
	for i := range g.Pre {
		g.Pre[i] = 0xA5A5_5A5A_0000_0001 * uint64(i+1)
		g.Post[i] = 0x5A5A_A5A5_0000_0003 * uint64(i+1)
	}
	return &g.V, func() bool {
		for i := range g.Pre {
			if g.Pre[i] != 0xA5A5_5A5A_0000_0001*uint64(i+1) || g.Post[i] != 0x5A5A_A5A5_0000_0003*uint64(i+1) {
				return false
			}
		}
		return true
	}
}

type box[T any] struct {
	V   T
	P   *byte
	Pad [4]uint64
}

func (h *th[T]) Tracked(f func()) any {
	b := new(box[T])
	runtime.SetFinalizer(b, func(*box[T]) { f() })
	return &b.V
}

// All lists the registered types.
var All []H

// Reg registers destination type T, with encoding/json decoding into R.
func Reg[T, R any](name string) {
	All = append(All, &th[T]{name: name, ref: reflect.TypeOf((*R)(nil)).Elem()})
}

// D registers T with R = T.
func D[T any](name string) { Reg[T, T](name) }

// Bad lists types that may be unsupported.
var Bad []H

// B registers T as a type that may be unsupported.
func B[T any](name string) {
	Bad = append(Bad, &th[T]{name: name, ref: reflect.TypeOf((*T)(nil)).Elem()})
}

// Handle makes an unregistered handle.
func Handle[T any](name string) H {
	return &th[T]{name: name, ref: reflect.TypeOf((*T)(nil)).Elem()}
}
