// Code generated by tools/mkdirect.py. DO NOT EDIT.

package d1

import (
	"encoding/json"
	"math/big"
	"net"
	"time"

	jd "github.com/romshark/jscan-experimental-decoder"
	"verif/harness/hv"
	"verif/harness/sp"
)

var (
	_ json.RawMessage
	_ big.Int
	_ net.IP
	_ time.Time
	_ jd.Number
	_ sp.UJ
)

func init() {
	hv.D[bool](`bool`)
	hv.D[string](`string`)
	hv.D[int](`int`)
	hv.D[int8](`int8`)
	hv.D[int16](`int16`)
	hv.D[int32](`int32`)
	hv.D[int64](`int64`)
	hv.D[uint](`uint`)
	hv.D[uint8](`uint8`)
	hv.D[uint16](`uint16`)
	hv.D[uint32](`uint32`)
	hv.D[uint64](`uint64`)
	hv.D[float32](`float32`)
	hv.D[float64](`float64`)
	hv.D[any](`any`)
	hv.D[struct{}](`struct{}`)
	hv.Reg[jd.Number, json.Number](`jd.Number`)
	hv.D[sp.NStr](`sp.NStr`)
	hv.D[sp.NInt](`sp.NInt`)
	hv.D[sp.NI8](`sp.NI8`)
	hv.D[sp.NU8](`sp.NU8`)
	hv.D[sp.NF32](`sp.NF32`)
	hv.D[sp.NBool](`sp.NBool`)
	hv.D[sp.NAny](`sp.NAny`)
	hv.D[[]bool](`[]bool`)
	hv.D[[]string](`[]string`)
	hv.D[[]int](`[]int`)
	hv.D[[]int8](`[]int8`)
	hv.D[[]int16](`[]int16`)
	hv.D[[]int32](`[]int32`)
	hv.D[[]int64](`[]int64`)
	hv.D[[]uint](`[]uint`)
	hv.D[[]uint8](`[]uint8`)
	hv.D[[]uint16](`[]uint16`)
	hv.D[[]uint32](`[]uint32`)
	hv.D[[]uint64](`[]uint64`)
	hv.D[[]float32](`[]float32`)
	hv.D[[]float64](`[]float64`)
	hv.D[[]any](`[]any`)
	hv.D[[]struct{}](`[]struct{}`)
	hv.Reg[[]jd.Number, []json.Number](`[]jd.Number`)
	hv.D[[]sp.NStr](`[]sp.NStr`)
	hv.D[[]sp.NInt](`[]sp.NInt`)
	hv.D[[]sp.NU8](`[]sp.NU8`)
	hv.D[[]sp.NBool](`[]sp.NBool`)
	hv.D[[0]int](`[0]int`)
	hv.D[[3]int](`[3]int`)
	hv.D[[1]string](`[1]string`)
	hv.D[[4]bool](`[4]bool`)
	hv.D[[2]any](`[2]any`)
	hv.D[[2][3]int8](`[2][3]int8`)
	hv.D[[3][0]int](`[3][0]int`)
	hv.D[[2]struct{}](`[2]struct{}`)
	hv.D[[300]uint8](`[300]uint8`)
	hv.D[[][]int](`[][]int`)
	hv.D[[][]bool](`[][]bool`)
	hv.D[[][][]string](`[][][]string`)
	hv.D[[][2]int](`[][2]int`)
	hv.D[[]*int](`[]*int`)
	hv.D[[][]struct{}](`[][]struct{}`)
	hv.D[[][0]int](`[][0]int`)
	hv.D[[]map[string]int](`[]map[string]int`)
	hv.D[map[string]int](`map[string]int`)
	hv.D[map[string]string](`map[string]string`)
	hv.D[map[string]any](`map[string]any`)
	hv.D[map[int]string](`map[int]string`)
	hv.D[map[string][]int](`map[string][]int`)
	hv.D[map[string]map[string]int](`map[string]map[string]int`)
	hv.D[map[sp.KT]int](`map[sp.KT]int`)
	hv.D[map[string]struct{A int; B string}](`map[string]struct{A int; B string}`)
	hv.D[*int](`*int`)
	hv.D[**int](`**int`)
	hv.D[*string](`*string`)
	hv.D[*any](`*any`)
	hv.D[*struct{}](`*struct{}`)
	hv.D[*[]int](`*[]int`)
	hv.D[*map[string]int](`*map[string]int`)
	hv.D[***bool](`***bool`)
	hv.D[*[2]int](`*[2]int`)
	hv.D[sp.UJ](`sp.UJ`)
	hv.D[sp.UJStr](`sp.UJStr`)
	hv.D[sp.UJMap](`sp.UJMap`)
	hv.D[sp.UBoth](`sp.UBoth`)
	hv.D[sp.UT](`sp.UT`)
	hv.D[sp.UTStr](`sp.UTStr`)
	hv.D[sp.UTSlice](`sp.UTSlice`)
	hv.D[sp.UTEmpty](`sp.UTEmpty`)
	hv.D[*sp.UJ](`*sp.UJ`)
	hv.D[*sp.UT](`*sp.UT`)
	hv.D[**sp.UJ](`**sp.UJ`)
	hv.D[[]sp.UJ](`[]sp.UJ`)
	hv.D[[]*sp.UJ](`[]*sp.UJ`)
	hv.D[[]sp.UT](`[]sp.UT`)
	hv.D[json.RawMessage](`json.RawMessage`)
	hv.D[time.Time](`time.Time`)
	hv.D[struct{A int}](`struct{A int}`)
	hv.D[struct{A int; B string}](`struct{A int; B string}`)
	hv.D[struct{A,B,C,D,E,F,G,H int}](`struct{A,B,C,D,E,F,G,H int}`)
	hv.D[struct{A,B,C,D,E,F,G,H,I bool}](`struct{A,B,C,D,E,F,G,H,I bool}`)
	hv.D[struct{A int `json:"a"`; B int `json:"A"`; C int `json:"b"`; D int `json:"B"`}]("struct{A int `json:\"a\"`; B int `json:\"A\"`; C int `json:\"b\"`; D int `json:\"B\"`}")
	hv.D[struct{a int; B int; c string; D string; e []int}](`struct{a int; B int; c string; D string; e []int}`)
	hv.D[struct{Ab string `json:"ab"`; Abc string `json:"abc"`; Abcd string `json:"abcd"`; Abcde string `json:"abcde"`; Abcdef string `json:"abcdef"`}]("struct{Ab string `json:\"ab\"`; Abc string `json:\"abc\"`; Abcd string `json:\"abcd\"`; Abcde string `json:\"abcde\"`; Abcdef string `json:\"abcdef\"`}")
	hv.D[struct{P *struct{}; Q int}](`struct{P *struct{}; Q int}`)
	hv.D[struct{A []int; B int}](`struct{A []int; B int}`)
	hv.D[struct{A [2]int; B int; C [3]string; D string}](`struct{A [2]int; B int; C [3]string; D string}`)
	hv.D[sp.RPtr](`sp.RPtr`)
	hv.D[sp.RSlice](`sp.RSlice`)
	hv.D[sp.RMap](`sp.RMap`)
	hv.D[sp.RMix](`sp.RMix`)
	hv.D[[]sp.RSlice](`[]sp.RSlice`)
	hv.D[map[string]sp.RMap](`map[string]sp.RMap`)
	hv.D[[]sp.RPtr](`[]sp.RPtr`)
	hv.D[[2]sp.RMix](`[2]sp.RMix`)
	hv.D[sp.RNest](`sp.RNest`)
	hv.D[sp.RSibRec](`sp.RSibRec`)
	hv.D[sp.RA](`sp.RA`)
	hv.D[json.Number](`json.Number`)
	hv.D[[]json.Number](`[]json.Number`)
	hv.D[sp.NNum](`sp.NNum`)
}
