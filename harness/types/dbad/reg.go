// Package dbad registers hand-picked types that may be unsupported.
package dbad

import (
	"unsafe"

	"verif/harness/hv"
	"verif/harness/sp"
)

func init() {
	hv.B[chan int]("chan int")
	hv.B[func()]("func()")
	hv.B[complex128]("complex128")
	hv.B[uintptr]("uintptr")
	hv.B[unsafe.Pointer]("unsafe.Pointer")
	hv.B[error]("error")
	hv.B[map[bool]int]("map[bool]int")
	hv.B[sp.BadSl]("sp.BadSl")
	hv.B[sp.BadMap]("sp.BadMap")
	hv.B[sp.BadStruct]("sp.BadStruct")
	hv.B[*error]("*error")
	hv.B[[]uintptr]("[]uintptr")
	hv.B[[0]chan int]("[0]chan int")
	hv.B[struct{ A chan int }]("struct{ A chan int }")
	hv.B[struct {
		A chan int `json:"-"`
		B int
	}]("struct{ A chan int `json:\"-\"`; B int }")
	hv.B[*struct {
		a chan int
		B int
	}]("*struct{ a chan int; B int }")
	hv.B[*sp.EmbOne]("*sp.EmbOne")
	hv.B[*sp.EmbTwo]("*sp.EmbTwo")
	hv.B[*sp.EmbThree]("*sp.EmbThree")
	hv.B[*sp.EmbIface]("*sp.EmbIface")
	hv.B[*sp.EmbRec]("*sp.EmbRec")
	hv.B[*struct {
		A []int `json:",string"`
	}]("*struct{ A []int `json:\",string\"` }")
	hv.B[*struct {
		A sp.UJ `json:",string"`
	}]("*struct{ A sp.UJ `json:\",string\"` }")
	hv.B[*struct {
		A map[string]int `json:"a,omitempty,string"`
	}]("*struct{ A map[string]int `json:\"a,omitempty,string\"` }")
	hv.B[*struct {
		A **int `json:",string"`
	}]("*struct{ A **int `json:\",string\"` }")
	hv.B[*struct {
		A any `json:",string"`
	}]("*struct{ A any `json:\",string\"` }")
	hv.B[*struct {
		A int     `json:"a,string"`
		B *bool   `json:",string"`
		C string  `json:",omitempty,string"`
		D float64 `json:",string,omitempty"`
		E []int   `json:",strings"`
		F []int   `json:"string"`
		G []int   `json:"-"`
	}]("*struct{ every valid use of the string option }")
	hv.B[map[string][]*struct {
		A int
		B []struct {
			C struct{} `json:",string"`
		}
	}]("map[string][]*struct{ A int; B []struct{ C struct{} `json:\",string\"` } }")
}
