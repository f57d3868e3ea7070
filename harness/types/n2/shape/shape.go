// Package shape has types that differ from those of the same name in the
// other packages of the same name.
package shape

import "verif/harness/hv"

type (
	T struct{ B, A int64 }
	U struct {
		A any
		B *string
		C struct{ A, B float64 }
	}
	R struct {
		L map[string]R
		P *R
		N uint8
	}
	S []string
	M map[string]int16
	E int
	A [3]uint8
	W struct {
		X T
		Y *T
		Z []T
		V map[string]T
		K map[E]A
	}
)

func init() {
	hv.D[T]("n2.T")
	hv.D[*T]("*n2.T")
	hv.D[[]T]("[]n2.T")
	hv.D[map[string]T]("map[string]n2.T")
	hv.D[struct{ F T }]("struct{F n2.T}")
	hv.D[U]("n2.U")
	hv.D[R]("n2.R")
	hv.D[S]("n2.S")
	hv.D[M]("n2.M")
	hv.D[map[E]E]("map[n2.E]n2.E")
	hv.D[A]("n2.A")
	hv.D[W]("n2.W")
}
