// Package shape has types that differ from those of the same name in the
// other packages of the same name.
package shape

import "verif/harness/hv"

type (
	T struct {
		A string `json:"B"`
		B bool   `json:"A"`
	}
	U struct {
		A int `json:",string"`
		X int16
		B [2]string
	}
	R struct {
		P []R
		N *R
		L *R
	}
	S []struct{ S string }
	M map[string][]any
	E int8
	A []bool
	W struct {
		X T
		Y *T
		Z []T
		V map[string]T
		K map[E]A
	}
)

func init() {
	hv.D[T]("n3.T")
	hv.D[*T]("*n3.T")
	hv.D[[]T]("[]n3.T")
	hv.D[map[string]T]("map[string]n3.T")
	hv.D[struct{ F T }]("struct{F n3.T}")
	hv.D[U]("n3.U")
	hv.D[R]("n3.R")
	hv.D[S]("n3.S")
	hv.D[M]("n3.M")
	hv.D[map[E]E]("map[n3.E]n3.E")
	hv.D[A]("n3.A")
	hv.D[W]("n3.W")
}
