// Package shape has types that differ from those of the same name in the
// other packages of the same name.
package shape

import "verif/harness/hv"

type (
	T struct{ A, B int8 }
	U struct {
		A string
		B []int
		C map[string]int
	}
	R struct {
		N int
		P *R
		L []R
	}
	S []int
	M map[string]string
	E string
	A [2]uint16
	W struct {
		X T
		Y *T
		Z []T
		V map[string]T
		K map[E]A
	}
)

func init() {
	hv.D[T]("n1.T")
	hv.D[*T]("*n1.T")
	hv.D[[]T]("[]n1.T")
	hv.D[map[string]T]("map[string]n1.T")
	hv.D[struct{ F T }]("struct{F n1.T}")
	hv.D[U]("n1.U")
	hv.D[R]("n1.R")
	hv.D[S]("n1.S")
	hv.D[M]("n1.M")
	hv.D[map[E]E]("map[n1.E]n1.E")
	hv.D[A]("n1.A")
	hv.D[W]("n1.W")
}
