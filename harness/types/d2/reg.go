// Code generated by tools/mkdirect.py. DO NOT EDIT.

package d2

import (
	"encoding/json"
	"math/big"
	"net"
	"time"

	jd "github.com/romshark/jscan-experimental-decoder"
	"verif/harness/hv"
	"verif/harness/sp"
)

var (
	_ json.RawMessage
	_ big.Int
	_ net.IP
	_ time.Time
	_ jd.Number
	_ sp.UJ
)

func init() {
	hv.D[*[]sp.NI8](`*[]sp.NI8`)
	hv.D[*[]sp.NI16](`*[]sp.NI16`)
	hv.D[*[]sp.NU64](`*[]sp.NU64`)
	hv.D[*[]sp.NF32](`*[]sp.NF32`)
	hv.D[*[]sp.NF64](`*[]sp.NF64`)
	hv.D[*sp.NSl](`*sp.NSl`)
	hv.D[*sp.NMap](`*sp.NMap`)
	hv.D[*sp.NSS](`*sp.NSS`)
	hv.D[*sp.NEmp](`*sp.NEmp`)
	hv.D[*[]sp.NEmp](`*[]sp.NEmp`)
	hv.D[*[2]int16](`*[2]int16`)
	hv.D[*[3]float32](`*[3]float32`)
	hv.D[*[5]uint64](`*[5]uint64`)
	hv.Reg[*[2]jd.Number, *[2]json.Number](`*[2]jd.Number`)
	hv.D[*[2]*int](`*[2]*int`)
	hv.D[*[2][]string](`*[2][]string`)
	hv.D[*[2]map[string]int](`*[2]map[string]int`)
	hv.D[*[3]struct{A int8; B string}](`*[3]struct{A int8; B string}`)
	hv.D[*[2][2][2]string](`*[2][2][2]string`)
	hv.D[*[1]struct{}](`*[1]struct{}`)
	hv.D[*[4]sp.NStr](`*[4]sp.NStr`)
	hv.D[*[2]sp.UJ](`*[2]sp.UJ`)
	hv.D[*[2]sp.UT](`*[2]sp.UT`)
	hv.D[*[1][1][1]int](`*[1][1][1]int`)
	hv.D[*[70]string](`*[70]string`)
	hv.D[*[2][]struct{}](`*[2][]struct{}`)
	hv.D[*[3][]struct{A *int}](`*[3][]struct{A *int}`)
	hv.D[*[][]string](`*[][]string`)
	hv.D[*[][]int8](`*[][]int8`)
	hv.D[*[][]int16](`*[][]int16`)
	hv.D[*[][]int32](`*[][]int32`)
	hv.D[*[][]int64](`*[][]int64`)
	hv.D[*[][]uint](`*[][]uint`)
	hv.D[*[][]uint8](`*[][]uint8`)
	hv.D[*[][]uint16](`*[][]uint16`)
	hv.D[*[][]uint32](`*[][]uint32`)
	hv.D[*[][]uint64](`*[][]uint64`)
	hv.D[*[][]float32](`*[][]float32`)
	hv.D[*[][]float64](`*[][]float64`)
	hv.D[*[][3]string](`*[][3]string`)
	hv.D[*[]**string](`*[]**string`)
	hv.D[*[]map[int][]string](`*[]map[int][]string`)
	hv.D[*[][]any](`*[][]any`)
	hv.D[*[]*[]int](`*[]*[]int`)
	hv.D[*[]*struct{A int}](`*[]*struct{A int}`)
	hv.D[*[]struct{A int; B []string}](`*[]struct{A int; B []string}`)
	hv.D[*[]struct{A,B,C int8}](`*[]struct{A,B,C int8}`)
	hv.D[*[]struct{A struct{B struct{C []int}}}](`*[]struct{A struct{B struct{C []int}}}`)
	hv.D[*[]struct{M map[string]int}](`*[]struct{M map[string]int}`)
	hv.D[*[][1]struct{X *int8}](`*[][1]struct{X *int8}`)
	hv.D[*[]struct{_ int8; A int32; B bool}](`*[]struct{_ int8; A int32; B bool}`)
	hv.D[*[][]map[string][]int](`*[][]map[string][]int`)
	hv.D[*[]struct{A [0]int; B int}](`*[]struct{A [0]int; B int}`)
	hv.D[*[]struct{A struct{}}](`*[]struct{A struct{}}`)
	hv.D[*map[string]int](`*map[string]int`)
	hv.D[*map[string]string](`*map[string]string`)
	hv.D[*map[string][]string](`*map[string][]string`)
	hv.D[*map[sp.NStr]int](`*map[sp.NStr]int`)
	hv.D[*map[sp.NStr]string](`*map[sp.NStr]string`)
	hv.D[*map[sp.NStr][]string](`*map[sp.NStr][]string`)
	hv.D[*map[int]int](`*map[int]int`)
	hv.D[*map[int]string](`*map[int]string`)
	hv.D[*map[int][]string](`*map[int][]string`)
	hv.D[*map[int8]int](`*map[int8]int`)
	hv.D[*map[int8]string](`*map[int8]string`)
	hv.D[*map[int8][]string](`*map[int8][]string`)
	hv.D[*map[int16]int](`*map[int16]int`)
	hv.D[*map[int16]string](`*map[int16]string`)
	hv.D[*map[int16][]string](`*map[int16][]string`)
	hv.D[*map[int32]int](`*map[int32]int`)
	hv.D[*map[int32]string](`*map[int32]string`)
	hv.D[*map[int32][]string](`*map[int32][]string`)
	hv.D[*map[int64]int](`*map[int64]int`)
	hv.D[*map[int64]string](`*map[int64]string`)
	hv.D[*map[int64][]string](`*map[int64][]string`)
	hv.D[*map[uint]int](`*map[uint]int`)
	hv.D[*map[uint]string](`*map[uint]string`)
	hv.D[*map[uint][]string](`*map[uint][]string`)
	hv.D[*map[uint8]int](`*map[uint8]int`)
	hv.D[*map[uint8]string](`*map[uint8]string`)
	hv.D[*map[uint8][]string](`*map[uint8][]string`)
	hv.D[*map[uint16]int](`*map[uint16]int`)
	hv.D[*map[uint16]string](`*map[uint16]string`)
	hv.D[*map[uint16][]string](`*map[uint16][]string`)
	hv.D[*map[uint32]int](`*map[uint32]int`)
	hv.D[*map[uint32]string](`*map[uint32]string`)
	hv.D[*map[uint32][]string](`*map[uint32][]string`)
	hv.D[*map[uint64]int](`*map[uint64]int`)
	hv.D[*map[uint64]string](`*map[uint64]string`)
	hv.D[*map[uint64][]string](`*map[uint64][]string`)
	hv.D[*map[sp.NInt]int](`*map[sp.NInt]int`)
	hv.D[*map[sp.NInt]string](`*map[sp.NInt]string`)
	hv.D[*map[sp.NInt][]string](`*map[sp.NInt][]string`)
	hv.D[*map[sp.KT]int](`*map[sp.KT]int`)
	hv.D[*map[sp.KT]string](`*map[sp.KT]string`)
	hv.D[*map[sp.KT][]string](`*map[sp.KT][]string`)
	hv.D[*map[sp.KTStr]int](`*map[sp.KTStr]int`)
	hv.D[*map[sp.KTStr]string](`*map[sp.KTStr]string`)
	hv.D[*map[sp.KTStr][]string](`*map[sp.KTStr][]string`)
	hv.D[*map[sp.KTInt]int](`*map[sp.KTInt]int`)
	hv.D[*map[sp.KTInt]string](`*map[sp.KTInt]string`)
	hv.D[*map[sp.KTInt][]string](`*map[sp.KTInt][]string`)
	hv.D[*map[sp.KTArr]int](`*map[sp.KTArr]int`)
	hv.D[*map[sp.KTArr]string](`*map[sp.KTArr]string`)
	hv.D[*map[sp.KTArr][]string](`*map[sp.KTArr][]string`)
	hv.D[*map[string]bool](`*map[string]bool`)
	hv.D[*map[string]int8](`*map[string]int8`)
	hv.D[*map[string]uint8](`*map[string]uint8`)
	hv.D[*map[string]uint16](`*map[string]uint16`)
	hv.D[*map[string]float32](`*map[string]float32`)
	hv.D[*map[string]float64](`*map[string]float64`)
	hv.Reg[*map[string]jd.Number, *map[string]json.Number](`*map[string]jd.Number`)
	hv.D[*map[string]struct{}](`*map[string]struct{}`)
	hv.D[*map[string]*int](`*map[string]*int`)
	hv.D[*map[string]**string](`*map[string]**string`)
	hv.D[*map[string][2]int](`*map[string][2]int`)
	hv.D[*map[string][0]int](`*map[string][0]int`)
	hv.D[*map[string][20]int64](`*map[string][20]int64`)
	hv.D[*map[string][]any](`*map[string][]any`)
	hv.D[*map[string][]byte](`*map[string][]byte`)
	hv.D[*map[string]sp.NStr](`*map[string]sp.NStr`)
	hv.D[*map[string]sp.NBool](`*map[string]sp.NBool`)
	hv.D[*map[string]sp.UJ](`*map[string]sp.UJ`)
	hv.D[*map[string]*sp.UJ](`*map[string]*sp.UJ`)
	hv.D[*map[string]sp.UT](`*map[string]sp.UT`)
	hv.D[*map[string]*sp.UT](`*map[string]*sp.UT`)
	hv.D[*map[string]sp.UJStr](`*map[string]sp.UJStr`)
	hv.D[*map[string]sp.UTStr](`*map[string]sp.UTStr`)
	hv.D[*map[string]sp.UJEmpty](`*map[string]sp.UJEmpty`)
	hv.D[*map[string][2]string](`*map[string][2]string`)
	hv.D[*map[string][3]*int](`*map[string][3]*int`)
	hv.D[*map[string]map[int]map[uint8]string](`*map[string]map[int]map[uint8]string`)
	hv.Reg[*map[jd.Number]int, *map[json.Number]int](`*map[jd.Number]int`)
	hv.D[*map[string]struct{A [40]int32; B string}](`*map[string]struct{A [40]int32; B string}`)
	hv.D[*map[string]struct{P *int; M map[string]string; S []int}](`*map[string]struct{P *int; M map[string]string; S []int}`)
	hv.D[*map[string][2]struct{A int}](`*map[string][2]struct{A int}`)
	hv.D[*map[int8][]map[int8]int8](`*map[int8][]map[int8]int8`)
	hv.D[*map[sp.NStr]sp.NStr](`*map[sp.NStr]sp.NStr`)
	hv.D[*map[sp.KTStr]sp.UTStr](`*map[sp.KTStr]sp.UTStr`)
	hv.D[*map[sp.UTStr]string](`*map[sp.UTStr]string`)
	hv.D[*map[sp.UJStr]string](`*map[sp.UJStr]string`)
	hv.D[*map[string]*struct{A int; B *string}](`*map[string]*struct{A int; B *string}`)
	hv.D[*map[uint64]any](`*map[uint64]any`)
	hv.D[*map[int8][4]int64](`*map[int8][4]int64`)
	hv.D[*map[uint16]float64](`*map[uint16]float64`)
	hv.D[*map[int64]struct{A,B string}](`*map[int64]struct{A,B string}`)
	hv.D[*map[sp.KT]map[sp.KT]string](`*map[sp.KT]map[sp.KT]string`)
	hv.D[*map[sp.KTInt]*int](`*map[sp.KTInt]*int`)
	hv.D[**bool](`**bool`)
	hv.D[**int8](`**int8`)
	hv.D[**int16](`**int16`)
	hv.D[**int32](`**int32`)
	hv.D[**int64](`**int64`)
	hv.D[**uint](`**uint`)
	hv.D[**uint8](`**uint8`)
	hv.D[**uint16](`**uint16`)
	hv.D[**uint32](`**uint32`)
	hv.D[**uint64](`**uint64`)
	hv.D[**float32](`**float32`)
	hv.D[**float64](`**float64`)
	hv.Reg[**jd.Number, **json.Number](`**jd.Number`)
	hv.D[***[]*int](`***[]*int`)
	hv.D[***struct{A *int}](`***struct{A *int}`)
	hv.D[**sp.NStr](`**sp.NStr`)
	hv.D[***any](`***any`)
	hv.D[****[]string](`****[]string`)
	hv.D[**[0]int](`**[0]int`)
	hv.D[***struct{}](`***struct{}`)
	hv.D[*sp.UJ](`*sp.UJ`)
	hv.D[*[]sp.UJ](`*[]sp.UJ`)
	hv.D[*[]*sp.UJ](`*[]*sp.UJ`)
	hv.D[*map[int]*sp.UJ](`*map[int]*sp.UJ`)
	hv.D[*struct{A int; U sp.UJ; B string}](`*struct{A int; U sp.UJ; B string}`)
	hv.D[*struct{A int; U *sp.UJ; V **sp.UJ; B string}](`*struct{A int; U *sp.UJ; V **sp.UJ; B string}`)
	hv.D[*sp.UJStr](`*sp.UJStr`)
	hv.D[*[]sp.UJStr](`*[]sp.UJStr`)
	hv.D[*[]*sp.UJStr](`*[]*sp.UJStr`)
	hv.D[*[2]sp.UJStr](`*[2]sp.UJStr`)
	hv.D[*map[int]*sp.UJStr](`*map[int]*sp.UJStr`)
	hv.D[*struct{A int; U sp.UJStr; B string}](`*struct{A int; U sp.UJStr; B string}`)
	hv.D[*struct{A int; U *sp.UJStr; V **sp.UJStr; B string}](`*struct{A int; U *sp.UJStr; V **sp.UJStr; B string}`)
	hv.D[*sp.UJInt](`*sp.UJInt`)
	hv.D[*[]sp.UJInt](`*[]sp.UJInt`)
	hv.D[*[]*sp.UJInt](`*[]*sp.UJInt`)
	hv.D[*[2]sp.UJInt](`*[2]sp.UJInt`)
	hv.D[*map[string]sp.UJInt](`*map[string]sp.UJInt`)
	hv.D[*map[int]*sp.UJInt](`*map[int]*sp.UJInt`)
	hv.D[*struct{A int; U sp.UJInt; B string}](`*struct{A int; U sp.UJInt; B string}`)
	hv.D[*struct{A int; U *sp.UJInt; V **sp.UJInt; B string}](`*struct{A int; U *sp.UJInt; V **sp.UJInt; B string}`)
	hv.D[*sp.UJBool](`*sp.UJBool`)
	hv.D[*[]sp.UJBool](`*[]sp.UJBool`)
	hv.D[*[]*sp.UJBool](`*[]*sp.UJBool`)
	hv.D[*[2]sp.UJBool](`*[2]sp.UJBool`)
	hv.D[*map[string]sp.UJBool](`*map[string]sp.UJBool`)
	hv.D[*map[int]*sp.UJBool](`*map[int]*sp.UJBool`)
	hv.D[*struct{A int; U sp.UJBool; B string}](`*struct{A int; U sp.UJBool; B string}`)
	hv.D[*struct{A int; U *sp.UJBool; V **sp.UJBool; B string}](`*struct{A int; U *sp.UJBool; V **sp.UJBool; B string}`)
	hv.D[*sp.UJF](`*sp.UJF`)
	hv.D[*[]sp.UJF](`*[]sp.UJF`)
	hv.D[*[]*sp.UJF](`*[]*sp.UJF`)
	hv.D[*[2]sp.UJF](`*[2]sp.UJF`)
	hv.D[*map[string]sp.UJF](`*map[string]sp.UJF`)
	hv.D[*map[int]*sp.UJF](`*map[int]*sp.UJF`)
	hv.D[*struct{A int; U sp.UJF; B string}](`*struct{A int; U sp.UJF; B string}`)
	hv.D[*struct{A int; U *sp.UJF; V **sp.UJF; B string}](`*struct{A int; U *sp.UJF; V **sp.UJF; B string}`)
	hv.D[*sp.UJSlice](`*sp.UJSlice`)
	hv.D[*[]sp.UJSlice](`*[]sp.UJSlice`)
	hv.D[*[]*sp.UJSlice](`*[]*sp.UJSlice`)
	hv.D[*[2]sp.UJSlice](`*[2]sp.UJSlice`)
	hv.D[*map[string]sp.UJSlice](`*map[string]sp.UJSlice`)
	hv.D[*map[int]*sp.UJSlice](`*map[int]*sp.UJSlice`)
	hv.D[*struct{A int; U sp.UJSlice; B string}](`*struct{A int; U sp.UJSlice; B string}`)
	hv.D[*struct{A int; U *sp.UJSlice; V **sp.UJSlice; B string}](`*struct{A int; U *sp.UJSlice; V **sp.UJSlice; B string}`)
	hv.D[*sp.UJMap](`*sp.UJMap`)
	hv.D[*[]sp.UJMap](`*[]sp.UJMap`)
	hv.D[*[]*sp.UJMap](`*[]*sp.UJMap`)
	hv.D[*[2]sp.UJMap](`*[2]sp.UJMap`)
	hv.D[*map[string]sp.UJMap](`*map[string]sp.UJMap`)
	hv.D[*map[int]*sp.UJMap](`*map[int]*sp.UJMap`)
	hv.D[*struct{A int; U sp.UJMap; B string}](`*struct{A int; U sp.UJMap; B string}`)
	hv.D[*struct{A int; U *sp.UJMap; V **sp.UJMap; B string}](`*struct{A int; U *sp.UJMap; V **sp.UJMap; B string}`)
	hv.D[*sp.UJEmpty](`*sp.UJEmpty`)
	hv.D[*[]sp.UJEmpty](`*[]sp.UJEmpty`)
	hv.D[*[]*sp.UJEmpty](`*[]*sp.UJEmpty`)
	hv.D[*[2]sp.UJEmpty](`*[2]sp.UJEmpty`)
	hv.D[*map[int]*sp.UJEmpty](`*map[int]*sp.UJEmpty`)
	hv.D[*struct{A int; U sp.UJEmpty; B string}](`*struct{A int; U sp.UJEmpty; B string}`)
	hv.D[*struct{A int; U *sp.UJEmpty; V **sp.UJEmpty; B string}](`*struct{A int; U *sp.UJEmpty; V **sp.UJEmpty; B string}`)
	hv.D[*sp.UJArr](`*sp.UJArr`)
	hv.D[*[]sp.UJArr](`*[]sp.UJArr`)
	hv.D[*[]*sp.UJArr](`*[]*sp.UJArr`)
	hv.D[*[2]sp.UJArr](`*[2]sp.UJArr`)
	hv.D[*map[string]sp.UJArr](`*map[string]sp.UJArr`)
	hv.D[*map[int]*sp.UJArr](`*map[int]*sp.UJArr`)
	hv.D[*struct{A int; U sp.UJArr; B string}](`*struct{A int; U sp.UJArr; B string}`)
	hv.D[*struct{A int; U *sp.UJArr; V **sp.UJArr; B string}](`*struct{A int; U *sp.UJArr; V **sp.UJArr; B string}`)
	hv.D[*sp.UBoth](`*sp.UBoth`)
	hv.D[*[]sp.UBoth](`*[]sp.UBoth`)
	hv.D[*[]*sp.UBoth](`*[]*sp.UBoth`)
	hv.D[*[2]sp.UBoth](`*[2]sp.UBoth`)
	hv.D[*map[string]sp.UBoth](`*map[string]sp.UBoth`)
	hv.D[*map[int]*sp.UBoth](`*map[int]*sp.UBoth`)
	hv.D[*struct{A int; U sp.UBoth; B string}](`*struct{A int; U sp.UBoth; B string}`)
	hv.D[*struct{A int; U *sp.UBoth; V **sp.UBoth; B string}](`*struct{A int; U *sp.UBoth; V **sp.UBoth; B string}`)
	hv.D[*sp.UJPtrs](`*sp.UJPtrs`)
	hv.D[*[]sp.UJPtrs](`*[]sp.UJPtrs`)
	hv.D[*[]*sp.UJPtrs](`*[]*sp.UJPtrs`)
	hv.D[*[2]sp.UJPtrs](`*[2]sp.UJPtrs`)
	hv.D[*map[string]sp.UJPtrs](`*map[string]sp.UJPtrs`)
	hv.D[*map[int]*sp.UJPtrs](`*map[int]*sp.UJPtrs`)
	hv.D[*struct{A int; U sp.UJPtrs; B string}](`*struct{A int; U sp.UJPtrs; B string}`)
	hv.D[*struct{A int; U *sp.UJPtrs; V **sp.UJPtrs; B string}](`*struct{A int; U *sp.UJPtrs; V **sp.UJPtrs; B string}`)
	hv.D[*sp.UJU8](`*sp.UJU8`)
	hv.D[*[]sp.UJU8](`*[]sp.UJU8`)
	hv.D[*[]*sp.UJU8](`*[]*sp.UJU8`)
	hv.D[*[2]sp.UJU8](`*[2]sp.UJU8`)
	hv.D[*map[string]sp.UJU8](`*map[string]sp.UJU8`)
	hv.D[*map[int]*sp.UJU8](`*map[int]*sp.UJU8`)
	hv.D[*struct{A int; U sp.UJU8; B string}](`*struct{A int; U sp.UJU8; B string}`)
	hv.D[*struct{A int; U *sp.UJU8; V **sp.UJU8; B string}](`*struct{A int; U *sp.UJU8; V **sp.UJU8; B string}`)
	hv.D[*sp.UT](`*sp.UT`)
	hv.D[*[]sp.UT](`*[]sp.UT`)
	hv.D[*[]*sp.UT](`*[]*sp.UT`)
	hv.D[*map[int]*sp.UT](`*map[int]*sp.UT`)
	hv.D[*struct{A int; U sp.UT; B string}](`*struct{A int; U sp.UT; B string}`)
	hv.D[*struct{A int; U *sp.UT; V **sp.UT; B string}](`*struct{A int; U *sp.UT; V **sp.UT; B string}`)
	hv.D[*sp.UTStr](`*sp.UTStr`)
	hv.D[*[]sp.UTStr](`*[]sp.UTStr`)
	hv.D[*[]*sp.UTStr](`*[]*sp.UTStr`)
	hv.D[*[2]sp.UTStr](`*[2]sp.UTStr`)
	hv.D[*map[int]*sp.UTStr](`*map[int]*sp.UTStr`)
	hv.D[*struct{A int; U sp.UTStr; B string}](`*struct{A int; U sp.UTStr; B string}`)
	hv.D[*struct{A int; U *sp.UTStr; V **sp.UTStr; B string}](`*struct{A int; U *sp.UTStr; V **sp.UTStr; B string}`)
	hv.D[*sp.UTInt](`*sp.UTInt`)
	hv.D[*[]sp.UTInt](`*[]sp.UTInt`)
	hv.D[*[]*sp.UTInt](`*[]*sp.UTInt`)
	hv.D[*[2]sp.UTInt](`*[2]sp.UTInt`)
	hv.D[*map[string]sp.UTInt](`*map[string]sp.UTInt`)
	hv.D[*map[int]*sp.UTInt](`*map[int]*sp.UTInt`)
	hv.D[*struct{A int; U sp.UTInt; B string}](`*struct{A int; U sp.UTInt; B string}`)
	hv.D[*struct{A int; U *sp.UTInt; V **sp.UTInt; B string}](`*struct{A int; U *sp.UTInt; V **sp.UTInt; B string}`)
	hv.D[*sp.UTI8](`*sp.UTI8`)
	hv.D[*[]sp.UTI8](`*[]sp.UTI8`)
	hv.D[*[]*sp.UTI8](`*[]*sp.UTI8`)
	hv.D[*[2]sp.UTI8](`*[2]sp.UTI8`)
	hv.D[*map[string]sp.UTI8](`*map[string]sp.UTI8`)
	hv.D[*map[int]*sp.UTI8](`*map[int]*sp.UTI8`)
	hv.D[*struct{A int; U sp.UTI8; B string}](`*struct{A int; U sp.UTI8; B string}`)
	hv.D[*struct{A int; U *sp.UTI8; V **sp.UTI8; B string}](`*struct{A int; U *sp.UTI8; V **sp.UTI8; B string}`)
	hv.D[*sp.UTBool](`*sp.UTBool`)
	hv.D[*[]sp.UTBool](`*[]sp.UTBool`)
	hv.D[*[]*sp.UTBool](`*[]*sp.UTBool`)
	hv.D[*[2]sp.UTBool](`*[2]sp.UTBool`)
	hv.D[*map[string]sp.UTBool](`*map[string]sp.UTBool`)
	hv.D[*map[int]*sp.UTBool](`*map[int]*sp.UTBool`)
	hv.D[*struct{A int; U sp.UTBool; B string}](`*struct{A int; U sp.UTBool; B string}`)
	hv.D[*struct{A int; U *sp.UTBool; V **sp.UTBool; B string}](`*struct{A int; U *sp.UTBool; V **sp.UTBool; B string}`)
	hv.D[*sp.UTF](`*sp.UTF`)
	hv.D[*[]sp.UTF](`*[]sp.UTF`)
	hv.D[*[]*sp.UTF](`*[]*sp.UTF`)
	hv.D[*[2]sp.UTF](`*[2]sp.UTF`)
	hv.D[*map[string]sp.UTF](`*map[string]sp.UTF`)
	hv.D[*map[int]*sp.UTF](`*map[int]*sp.UTF`)
	hv.D[*struct{A int; U sp.UTF; B string}](`*struct{A int; U sp.UTF; B string}`)
	hv.D[*struct{A int; U *sp.UTF; V **sp.UTF; B string}](`*struct{A int; U *sp.UTF; V **sp.UTF; B string}`)
	hv.D[*sp.UTSlice](`*sp.UTSlice`)
	hv.D[*[]sp.UTSlice](`*[]sp.UTSlice`)
	hv.D[*[]*sp.UTSlice](`*[]*sp.UTSlice`)
	hv.D[*[2]sp.UTSlice](`*[2]sp.UTSlice`)
	hv.D[*map[string]sp.UTSlice](`*map[string]sp.UTSlice`)
	hv.D[*map[int]*sp.UTSlice](`*map[int]*sp.UTSlice`)
	hv.D[*struct{A int; U sp.UTSlice; B string}](`*struct{A int; U sp.UTSlice; B string}`)
	hv.D[*struct{A int; U *sp.UTSlice; V **sp.UTSlice; B string}](`*struct{A int; U *sp.UTSlice; V **sp.UTSlice; B string}`)
	hv.D[*sp.UTEmpty](`*sp.UTEmpty`)
	hv.D[*[]sp.UTEmpty](`*[]sp.UTEmpty`)
	hv.D[*[]*sp.UTEmpty](`*[]*sp.UTEmpty`)
	hv.D[*[2]sp.UTEmpty](`*[2]sp.UTEmpty`)
	hv.D[*map[string]sp.UTEmpty](`*map[string]sp.UTEmpty`)
	hv.D[*map[int]*sp.UTEmpty](`*map[int]*sp.UTEmpty`)
	hv.D[*struct{A int; U sp.UTEmpty; B string}](`*struct{A int; U sp.UTEmpty; B string}`)
	hv.D[*struct{A int; U *sp.UTEmpty; V **sp.UTEmpty; B string}](`*struct{A int; U *sp.UTEmpty; V **sp.UTEmpty; B string}`)
	hv.D[*sp.UTMap](`*sp.UTMap`)
	hv.D[*[]sp.UTMap](`*[]sp.UTMap`)
	hv.D[*[]*sp.UTMap](`*[]*sp.UTMap`)
	hv.D[*[2]sp.UTMap](`*[2]sp.UTMap`)
	hv.D[*map[string]sp.UTMap](`*map[string]sp.UTMap`)
	hv.D[*map[int]*sp.UTMap](`*map[int]*sp.UTMap`)
	hv.D[*struct{A int; U sp.UTMap; B string}](`*struct{A int; U sp.UTMap; B string}`)
	hv.D[*struct{A int; U *sp.UTMap; V **sp.UTMap; B string}](`*struct{A int; U *sp.UTMap; V **sp.UTMap; B string}`)
	hv.D[*sp.UTArr](`*sp.UTArr`)
	hv.D[*[]sp.UTArr](`*[]sp.UTArr`)
	hv.D[*[]*sp.UTArr](`*[]*sp.UTArr`)
	hv.D[*[2]sp.UTArr](`*[2]sp.UTArr`)
	hv.D[*map[string]sp.UTArr](`*map[string]sp.UTArr`)
	hv.D[*map[int]*sp.UTArr](`*map[int]*sp.UTArr`)
	hv.D[*struct{A int; U sp.UTArr; B string}](`*struct{A int; U sp.UTArr; B string}`)
	hv.D[*struct{A int; U *sp.UTArr; V **sp.UTArr; B string}](`*struct{A int; U *sp.UTArr; V **sp.UTArr; B string}`)
	hv.D[***sp.UJ](`***sp.UJ`)
	hv.D[***sp.UJStr](`***sp.UJStr`)
	hv.D[***sp.UJInt](`***sp.UJInt`)
	hv.D[***sp.UJBool](`***sp.UJBool`)
	hv.D[***sp.UJF](`***sp.UJF`)
	hv.D[***sp.UJSlice](`***sp.UJSlice`)
	hv.D[***sp.UJMap](`***sp.UJMap`)
	hv.D[***sp.UJEmpty](`***sp.UJEmpty`)
	hv.D[***sp.UJArr](`***sp.UJArr`)
	hv.D[***sp.UBoth](`***sp.UBoth`)
	hv.D[***sp.UJPtrs](`***sp.UJPtrs`)
	hv.D[***sp.UJU8](`***sp.UJU8`)
	hv.D[***sp.UT](`***sp.UT`)
	hv.D[***sp.UTStr](`***sp.UTStr`)
	hv.D[***sp.UTInt](`***sp.UTInt`)
	hv.D[***sp.UTI8](`***sp.UTI8`)
	hv.D[***sp.UTBool](`***sp.UTBool`)
	hv.D[***sp.UTF](`***sp.UTF`)
	hv.D[***sp.UTSlice](`***sp.UTSlice`)
	hv.D[***sp.UTEmpty](`***sp.UTEmpty`)
	hv.D[***sp.UTMap](`***sp.UTMap`)
	hv.D[***sp.UTArr](`***sp.UTArr`)
	hv.D[*map[string]map[string]sp.UJ](`*map[string]map[string]sp.UJ`)
	hv.D[*[][]sp.UT](`*[][]sp.UT`)
	hv.D[*[]json.RawMessage](`*[]json.RawMessage`)
	hv.D[*map[string]json.RawMessage](`*map[string]json.RawMessage`)
	hv.D[*struct{A json.RawMessage; B *json.RawMessage; T time.Time; P *time.Time; I big.Int; J *big.Int; N net.IP}](`*struct{A json.RawMessage; B *json.RawMessage; T time.Time; P *time.Time; I big.Int; J *big.Int; N net.IP}`)
	hv.D[*struct{A int}](`*struct{A int}`)
	hv.D[*struct{A int; B string}](`*struct{A int; B string}`)
	hv.D[*struct{A,B,C int}](`*struct{A,B,C int}`)
	hv.D[*struct{A,B,C,D int8}](`*struct{A,B,C,D int8}`)
	hv.D[*struct{A,B,C,D,E string}](`*struct{A,B,C,D,E string}`)
	hv.D[*struct{A,B,C,D,E,F,G,H int}](`*struct{A,B,C,D,E,F,G,H int}`)
	hv.D[*struct{A,B,C,D,E,F,G,H,I bool}](`*struct{A,B,C,D,E,F,G,H,I bool}`)
	hv.D[*struct{A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z int16}](`*struct{A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z int16}`)
	hv.D[*struct{A int `json:"a"`; B int `json:"A"`; C int `json:"b"`; D int `json:"B"`}]("*struct{A int `json:\"a\"`; B int `json:\"A\"`; C int `json:\"b\"`; D int `json:\"B\"`}")
	hv.D[*struct{Foo int; FOO int; FoO string; Foo1 int `json:"fOO"`}]("*struct{Foo int; FOO int; FoO string; Foo1 int `json:\"fOO\"`}")
	hv.D[*struct{K int `json:"k"`; S string `json:"s"`; Kk []int `json:"kk"`; Ss any `json:"ſs"`; T int `json:"K"`}]("*struct{K int `json:\"k\"`; S string `json:\"s\"`; Kk []int `json:\"kk\"`; Ss any `json:\"ſs\"`; T int `json:\"K\"`}")
	hv.D[*struct{A int `json:"größe"`; B int `json:"ÄÖÜ"`; C int `json:"π"`; D int `json:"ж"`}]("*struct{A int `json:\"größe\"`; B int `json:\"ÄÖÜ\"`; C int `json:\"π\"`; D int `json:\"ж\"`}")
	hv.D[*struct{A int `json:"B"`; B int; C string}]("*struct{A int `json:\"B\"`; B int; C string}")
	hv.D[*struct{A int `json:"x"`; B int `json:"x"`; C string}]("*struct{A int `json:\"x\"`; B int `json:\"x\"`; C string}")
	hv.D[*struct{A int `json:"x"`; B int `json:"x"`; X string `json:"x,omitempty"`; D []int `json:"d"`}]("*struct{A int `json:\"x\"`; B int `json:\"x\"`; X string `json:\"x,omitempty\"`; D []int `json:\"d\"`}")
	hv.D[*struct{A int `json:"-"`; B int `json:"A"`; C int `json:"b"`; D int `json:"D"`; d string}]("*struct{A int `json:\"-\"`; B int `json:\"A\"`; C int `json:\"b\"`; D int `json:\"D\"`; d string}")
	hv.D[*struct{Hidden int `json:"-"`; Dash int `json:"-,"`; X int `json:",omitempty"`; Y int `json:"y,omitempty"`; z int}]("*struct{Hidden int `json:\"-\"`; Dash int `json:\"-,\"`; X int `json:\",omitempty\"`; Y int `json:\"y,omitempty\"`; z int}")
	hv.D[*struct{a int; B int; c string; D string; e []int}](`*struct{a int; B int; c string; D string; e []int}`)
	hv.D[*struct{ID int `json:"\u0069\u0064"`; Name string `json:"na\u006de"`; T int `json:"a\tb"`}]("*struct{ID int `json:\"\\u0069\\u0064\"`; Name string `json:\"na\\u006de\"`; T int `json:\"a\\tb\"`}")
	hv.D[*struct{A string `json:"foo_bar"`; B string `json:"foo-bar"`; C string `json:"foo.bar"`; D string `json:"foo bar"`; E string `json:"foo/bar"`}]("*struct{A string `json:\"foo_bar\"`; B string `json:\"foo-bar\"`; C string `json:\"foo.bar\"`; D string `json:\"foo bar\"`; E string `json:\"foo/bar\"`}")
	hv.D[*struct{Ab string `json:"ab"`; Abc string `json:"abc"`; Abcd string `json:"abcd"`; Abcde string `json:"abcde"`; Abcdef string `json:"abcdef"`}]("*struct{Ab string `json:\"ab\"`; Abc string `json:\"abc\"`; Abcd string `json:\"abcd\"`; Abcde string `json:\"abcde\"`; Abcdef string `json:\"abcdef\"`}")
	hv.D[*struct{A *int; B int}](`*struct{A *int; B int}`)
	hv.D[*struct{A *int; B *string; C *[]int; D *struct{E *int; F int}; G int}](`*struct{A *int; B *string; C *[]int; D *struct{E *int; F int}; G int}`)
	hv.D[*struct{A **int; B string}](`*struct{A **int; B string}`)
	hv.D[*struct{P *struct{}; Q int}](`*struct{P *struct{}; Q int}`)
	hv.D[*struct{A []int; B int}](`*struct{A []int; B int}`)
	hv.D[*struct{A [2]int; B int; C [3]string; D string}](`*struct{A [2]int; B int; C [3]string; D string}`)
	hv.D[*struct{A map[string]int; B int}](`*struct{A map[string]int; B int}`)
	hv.D[*struct{A map[string]string; B string; C map[string]any}](`*struct{A map[string]string; B string; C map[string]any}`)
	hv.D[*struct{A struct{B struct{C struct{D int; E string}; F int}; G int}; H int}](`*struct{A struct{B struct{C struct{D int; E string}; F int}; G int}; H int}`)
	hv.D[*struct{E struct{}; A int; F struct{}; B string; G struct{}}](`*struct{E struct{}; A int; F struct{}; B string; G struct{}}`)
	hv.D[*struct{A any; B []any; C map[string]any; D *any; E int}](`*struct{A any; B []any; C map[string]any; D *any; E int}`)
	hv.D[*struct{A [0]int; B int; C [0]struct{X int}}](`*struct{A [0]int; B int; C [0]struct{X int}}`)
	hv.D[*struct{A []struct{B []struct{C []int; D int}; E int}; F int}](`*struct{A []struct{B []struct{C []int; D int}; E int}; F int}`)
	hv.D[*struct{A []struct{}; B int; C map[string]struct{}; D [2]struct{}; E int}](`*struct{A []struct{}; B int; C map[string]struct{}; D [2]struct{}; E int}`)
	hv.D[*struct{A bool; B int8; C bool; D int64; E uint8; F float32; G string; H uint16; I float64}](`*struct{A bool; B int8; C bool; D int64; E uint8; F float32; G string; H uint16; I float64}`)
	hv.D[*struct{A []byte; B []sp.NU8; C [3]byte; D int}](`*struct{A []byte; B []sp.NU8; C [3]byte; D int}`)
	hv.Reg[*struct{A jd.Number; B *jd.Number; C []jd.Number; D map[string]jd.Number; E [1]jd.Number; F int}, *struct{A json.Number; B *json.Number; C []json.Number; D map[string]json.Number; E [1]json.Number; F int}](`*struct{A jd.Number; B *jd.Number; C []jd.Number; D map[string]jd.Number; E [1]jd.Number; F int}`)
	hv.D[*struct{A []map[string][]*struct{B map[int]string; C int}; D string}](`*struct{A []map[string][]*struct{B map[int]string; C int}; D string}`)
	hv.D[*struct{A, B, C, D, E, F, G, H struct{X, Y int}; I int}](`*struct{A, B, C, D, E, F, G, H struct{X, Y int}; I int}`)
	hv.D[*struct{A int32; B [5]struct{X int8; Y string}; C int32}](`*struct{A int32; B [5]struct{X int8; Y string}; C int32}`)
	hv.D[*struct{A map[string]struct{B map[string]struct{C int; D string}; E int}; F int}](`*struct{A map[string]struct{B map[string]struct{C int; D string}; E int}; F int}`)
	hv.D[*struct{X struct{A int `json:"v"`}; Y []struct{B int `json:"v"`}; V int `json:"v"`}]("*struct{X struct{A int `json:\"v\"`}; Y []struct{B int `json:\"v\"`}; V int `json:\"v\"`}")
	hv.D[*struct{X int; A bool `json:",string"`; B bool `json:"b,string"`; C bool `json:"c,omitempty,string"`; D *bool `json:"d,string"`; E string}]("*struct{X int; A bool `json:\",string\"`; B bool `json:\"b,string\"`; C bool `json:\"c,omitempty,string\"`; D *bool `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A string `json:",string"`; B string `json:"b,string"`; C string `json:"c,omitempty,string"`; D *string `json:"d,string"`; E string}]("*struct{X int; A string `json:\",string\"`; B string `json:\"b,string\"`; C string `json:\"c,omitempty,string\"`; D *string `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A int `json:",string"`; B int `json:"b,string"`; C int `json:"c,omitempty,string"`; D *int `json:"d,string"`; E string}]("*struct{X int; A int `json:\",string\"`; B int `json:\"b,string\"`; C int `json:\"c,omitempty,string\"`; D *int `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A int8 `json:",string"`; B int8 `json:"b,string"`; C int8 `json:"c,omitempty,string"`; D *int8 `json:"d,string"`; E string}]("*struct{X int; A int8 `json:\",string\"`; B int8 `json:\"b,string\"`; C int8 `json:\"c,omitempty,string\"`; D *int8 `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A int16 `json:",string"`; B int16 `json:"b,string"`; C int16 `json:"c,omitempty,string"`; D *int16 `json:"d,string"`; E string}]("*struct{X int; A int16 `json:\",string\"`; B int16 `json:\"b,string\"`; C int16 `json:\"c,omitempty,string\"`; D *int16 `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A int32 `json:",string"`; B int32 `json:"b,string"`; C int32 `json:"c,omitempty,string"`; D *int32 `json:"d,string"`; E string}]("*struct{X int; A int32 `json:\",string\"`; B int32 `json:\"b,string\"`; C int32 `json:\"c,omitempty,string\"`; D *int32 `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A int64 `json:",string"`; B int64 `json:"b,string"`; C int64 `json:"c,omitempty,string"`; D *int64 `json:"d,string"`; E string}]("*struct{X int; A int64 `json:\",string\"`; B int64 `json:\"b,string\"`; C int64 `json:\"c,omitempty,string\"`; D *int64 `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A uint `json:",string"`; B uint `json:"b,string"`; C uint `json:"c,omitempty,string"`; D *uint `json:"d,string"`; E string}]("*struct{X int; A uint `json:\",string\"`; B uint `json:\"b,string\"`; C uint `json:\"c,omitempty,string\"`; D *uint `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A uint8 `json:",string"`; B uint8 `json:"b,string"`; C uint8 `json:"c,omitempty,string"`; D *uint8 `json:"d,string"`; E string}]("*struct{X int; A uint8 `json:\",string\"`; B uint8 `json:\"b,string\"`; C uint8 `json:\"c,omitempty,string\"`; D *uint8 `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A uint16 `json:",string"`; B uint16 `json:"b,string"`; C uint16 `json:"c,omitempty,string"`; D *uint16 `json:"d,string"`; E string}]("*struct{X int; A uint16 `json:\",string\"`; B uint16 `json:\"b,string\"`; C uint16 `json:\"c,omitempty,string\"`; D *uint16 `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A uint32 `json:",string"`; B uint32 `json:"b,string"`; C uint32 `json:"c,omitempty,string"`; D *uint32 `json:"d,string"`; E string}]("*struct{X int; A uint32 `json:\",string\"`; B uint32 `json:\"b,string\"`; C uint32 `json:\"c,omitempty,string\"`; D *uint32 `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A uint64 `json:",string"`; B uint64 `json:"b,string"`; C uint64 `json:"c,omitempty,string"`; D *uint64 `json:"d,string"`; E string}]("*struct{X int; A uint64 `json:\",string\"`; B uint64 `json:\"b,string\"`; C uint64 `json:\"c,omitempty,string\"`; D *uint64 `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A float32 `json:",string"`; B float32 `json:"b,string"`; C float32 `json:"c,omitempty,string"`; D *float32 `json:"d,string"`; E string}]("*struct{X int; A float32 `json:\",string\"`; B float32 `json:\"b,string\"`; C float32 `json:\"c,omitempty,string\"`; D *float32 `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A float64 `json:",string"`; B float64 `json:"b,string"`; C float64 `json:"c,omitempty,string"`; D *float64 `json:"d,string"`; E string}]("*struct{X int; A float64 `json:\",string\"`; B float64 `json:\"b,string\"`; C float64 `json:\"c,omitempty,string\"`; D *float64 `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A sp.NStr `json:",string"`; B sp.NStr `json:"b,string"`; C sp.NStr `json:"c,omitempty,string"`; D *sp.NStr `json:"d,string"`; E string}]("*struct{X int; A sp.NStr `json:\",string\"`; B sp.NStr `json:\"b,string\"`; C sp.NStr `json:\"c,omitempty,string\"`; D *sp.NStr `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A sp.NInt `json:",string"`; B sp.NInt `json:"b,string"`; C sp.NInt `json:"c,omitempty,string"`; D *sp.NInt `json:"d,string"`; E string}]("*struct{X int; A sp.NInt `json:\",string\"`; B sp.NInt `json:\"b,string\"`; C sp.NInt `json:\"c,omitempty,string\"`; D *sp.NInt `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A sp.NBool `json:",string"`; B sp.NBool `json:"b,string"`; C sp.NBool `json:"c,omitempty,string"`; D *sp.NBool `json:"d,string"`; E string}]("*struct{X int; A sp.NBool `json:\",string\"`; B sp.NBool `json:\"b,string\"`; C sp.NBool `json:\"c,omitempty,string\"`; D *sp.NBool `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A sp.NF32 `json:",string"`; B sp.NF32 `json:"b,string"`; C sp.NF32 `json:"c,omitempty,string"`; D *sp.NF32 `json:"d,string"`; E string}]("*struct{X int; A sp.NF32 `json:\",string\"`; B sp.NF32 `json:\"b,string\"`; C sp.NF32 `json:\"c,omitempty,string\"`; D *sp.NF32 `json:\"d,string\"`; E string}")
	hv.D[*struct{X int; A sp.NU8 `json:",string"`; B sp.NU8 `json:"b,string"`; C sp.NU8 `json:"c,omitempty,string"`; D *sp.NU8 `json:"d,string"`; E string}]("*struct{X int; A sp.NU8 `json:\",string\"`; B sp.NU8 `json:\"b,string\"`; C sp.NU8 `json:\"c,omitempty,string\"`; D *sp.NU8 `json:\"d,string\"`; E string}")
	hv.D[*struct{A []int `json:",string"`; B map[string]int `json:",string"`; C any `json:",string"`; D struct{X int} `json:",string"`; E [2]int `json:"e,string"`; F int `json:",string"`}]("*struct{A []int `json:\",string\"`; B map[string]int `json:\",string\"`; C any `json:\",string\"`; D struct{X int} `json:\",string\"`; E [2]int `json:\"e,string\"`; F int `json:\",string\"`}")
	hv.D[*struct{A **int `json:"a,string"`; B *struct{X int} `json:",string"`; F *string `json:",string"`}]("*struct{A **int `json:\"a,string\"`; B *struct{X int} `json:\",string\"`; F *string `json:\",string\"`}")
	hv.D[*sp.RPtr](`*sp.RPtr`)
	hv.D[*[]sp.RPtr](`*[]sp.RPtr`)
	hv.D[*[2]sp.RPtr](`*[2]sp.RPtr`)
	hv.D[*map[string]sp.RPtr](`*map[string]sp.RPtr`)
	hv.D[*struct{X int; A sp.RPtr; B []sp.RPtr; C *sp.RPtr; D map[string]sp.RPtr; Y string}](`*struct{X int; A sp.RPtr; B []sp.RPtr; C *sp.RPtr; D map[string]sp.RPtr; Y string}`)
	hv.D[*struct{X int; C *sp.RPtr; B []*sp.RPtr; A sp.RPtr; Y string}](`*struct{X int; C *sp.RPtr; B []*sp.RPtr; A sp.RPtr; Y string}`)
	hv.D[*sp.RPtrFirst](`*sp.RPtrFirst`)
	hv.D[*[]sp.RPtrFirst](`*[]sp.RPtrFirst`)
	hv.D[*[2]sp.RPtrFirst](`*[2]sp.RPtrFirst`)
	hv.D[*map[string]sp.RPtrFirst](`*map[string]sp.RPtrFirst`)
	hv.D[*struct{X int; A sp.RPtrFirst; B []sp.RPtrFirst; C *sp.RPtrFirst; D map[string]sp.RPtrFirst; Y string}](`*struct{X int; A sp.RPtrFirst; B []sp.RPtrFirst; C *sp.RPtrFirst; D map[string]sp.RPtrFirst; Y string}`)
	hv.D[*struct{X int; C *sp.RPtrFirst; B []*sp.RPtrFirst; A sp.RPtrFirst; Y string}](`*struct{X int; C *sp.RPtrFirst; B []*sp.RPtrFirst; A sp.RPtrFirst; Y string}`)
	hv.D[*sp.RSlice](`*sp.RSlice`)
	hv.D[*[]sp.RSlice](`*[]sp.RSlice`)
	hv.D[*[2]sp.RSlice](`*[2]sp.RSlice`)
	hv.D[*map[string]sp.RSlice](`*map[string]sp.RSlice`)
	hv.D[*struct{X int; A sp.RSlice; B []sp.RSlice; C *sp.RSlice; D map[string]sp.RSlice; Y string}](`*struct{X int; A sp.RSlice; B []sp.RSlice; C *sp.RSlice; D map[string]sp.RSlice; Y string}`)
	hv.D[*struct{X int; C *sp.RSlice; B []*sp.RSlice; A sp.RSlice; Y string}](`*struct{X int; C *sp.RSlice; B []*sp.RSlice; A sp.RSlice; Y string}`)
	hv.D[*sp.RSliceFirst](`*sp.RSliceFirst`)
	hv.D[*[]sp.RSliceFirst](`*[]sp.RSliceFirst`)
	hv.D[*[2]sp.RSliceFirst](`*[2]sp.RSliceFirst`)
	hv.D[*map[string]sp.RSliceFirst](`*map[string]sp.RSliceFirst`)
	hv.D[*struct{X int; A sp.RSliceFirst; B []sp.RSliceFirst; C *sp.RSliceFirst; D map[string]sp.RSliceFirst; Y string}](`*struct{X int; A sp.RSliceFirst; B []sp.RSliceFirst; C *sp.RSliceFirst; D map[string]sp.RSliceFirst; Y string}`)
	hv.D[*struct{X int; C *sp.RSliceFirst; B []*sp.RSliceFirst; A sp.RSliceFirst; Y string}](`*struct{X int; C *sp.RSliceFirst; B []*sp.RSliceFirst; A sp.RSliceFirst; Y string}`)
	hv.D[*sp.RMap](`*sp.RMap`)
	hv.D[*[]sp.RMap](`*[]sp.RMap`)
	hv.D[*[2]sp.RMap](`*[2]sp.RMap`)
	hv.D[*map[string]sp.RMap](`*map[string]sp.RMap`)
	hv.D[*struct{X int; A sp.RMap; B []sp.RMap; C *sp.RMap; D map[string]sp.RMap; Y string}](`*struct{X int; A sp.RMap; B []sp.RMap; C *sp.RMap; D map[string]sp.RMap; Y string}`)
	hv.D[*struct{X int; C *sp.RMap; B []*sp.RMap; A sp.RMap; Y string}](`*struct{X int; C *sp.RMap; B []*sp.RMap; A sp.RMap; Y string}`)
	hv.D[*sp.RMapFirst](`*sp.RMapFirst`)
	hv.D[*[]sp.RMapFirst](`*[]sp.RMapFirst`)
	hv.D[*[2]sp.RMapFirst](`*[2]sp.RMapFirst`)
	hv.D[*map[string]sp.RMapFirst](`*map[string]sp.RMapFirst`)
	hv.D[*struct{X int; A sp.RMapFirst; B []sp.RMapFirst; C *sp.RMapFirst; D map[string]sp.RMapFirst; Y string}](`*struct{X int; A sp.RMapFirst; B []sp.RMapFirst; C *sp.RMapFirst; D map[string]sp.RMapFirst; Y string}`)
	hv.D[*struct{X int; C *sp.RMapFirst; B []*sp.RMapFirst; A sp.RMapFirst; Y string}](`*struct{X int; C *sp.RMapFirst; B []*sp.RMapFirst; A sp.RMapFirst; Y string}`)
	hv.D[*sp.RMix](`*sp.RMix`)
	hv.D[*[]sp.RMix](`*[]sp.RMix`)
	hv.D[*[2]sp.RMix](`*[2]sp.RMix`)
	hv.D[*map[string]sp.RMix](`*map[string]sp.RMix`)
	hv.D[*struct{X int; A sp.RMix; B []sp.RMix; C *sp.RMix; D map[string]sp.RMix; Y string}](`*struct{X int; A sp.RMix; B []sp.RMix; C *sp.RMix; D map[string]sp.RMix; Y string}`)
	hv.D[*struct{X int; C *sp.RMix; B []*sp.RMix; A sp.RMix; Y string}](`*struct{X int; C *sp.RMix; B []*sp.RMix; A sp.RMix; Y string}`)
	hv.D[*sp.RPtrSlice](`*sp.RPtrSlice`)
	hv.D[*[]sp.RPtrSlice](`*[]sp.RPtrSlice`)
	hv.D[*[2]sp.RPtrSlice](`*[2]sp.RPtrSlice`)
	hv.D[*map[string]sp.RPtrSlice](`*map[string]sp.RPtrSlice`)
	hv.D[*struct{X int; A sp.RPtrSlice; B []sp.RPtrSlice; C *sp.RPtrSlice; D map[string]sp.RPtrSlice; Y string}](`*struct{X int; A sp.RPtrSlice; B []sp.RPtrSlice; C *sp.RPtrSlice; D map[string]sp.RPtrSlice; Y string}`)
	hv.D[*struct{X int; C *sp.RPtrSlice; B []*sp.RPtrSlice; A sp.RPtrSlice; Y string}](`*struct{X int; C *sp.RPtrSlice; B []*sp.RPtrSlice; A sp.RPtrSlice; Y string}`)
	hv.D[*sp.RPtrMap](`*sp.RPtrMap`)
	hv.D[*[]sp.RPtrMap](`*[]sp.RPtrMap`)
	hv.D[*[2]sp.RPtrMap](`*[2]sp.RPtrMap`)
	hv.D[*map[string]sp.RPtrMap](`*map[string]sp.RPtrMap`)
	hv.D[*struct{X int; A sp.RPtrMap; B []sp.RPtrMap; C *sp.RPtrMap; D map[string]sp.RPtrMap; Y string}](`*struct{X int; A sp.RPtrMap; B []sp.RPtrMap; C *sp.RPtrMap; D map[string]sp.RPtrMap; Y string}`)
	hv.D[*struct{X int; C *sp.RPtrMap; B []*sp.RPtrMap; A sp.RPtrMap; Y string}](`*struct{X int; C *sp.RPtrMap; B []*sp.RPtrMap; A sp.RPtrMap; Y string}`)
	hv.D[*sp.RMapSlice](`*sp.RMapSlice`)
	hv.D[*[]sp.RMapSlice](`*[]sp.RMapSlice`)
	hv.D[*[2]sp.RMapSlice](`*[2]sp.RMapSlice`)
	hv.D[*map[string]sp.RMapSlice](`*map[string]sp.RMapSlice`)
	hv.D[*struct{X int; A sp.RMapSlice; B []sp.RMapSlice; C *sp.RMapSlice; D map[string]sp.RMapSlice; Y string}](`*struct{X int; A sp.RMapSlice; B []sp.RMapSlice; C *sp.RMapSlice; D map[string]sp.RMapSlice; Y string}`)
	hv.D[*struct{X int; C *sp.RMapSlice; B []*sp.RMapSlice; A sp.RMapSlice; Y string}](`*struct{X int; C *sp.RMapSlice; B []*sp.RMapSlice; A sp.RMapSlice; Y string}`)
	hv.D[*sp.RSliceMap](`*sp.RSliceMap`)
	hv.D[*[]sp.RSliceMap](`*[]sp.RSliceMap`)
	hv.D[*[2]sp.RSliceMap](`*[2]sp.RSliceMap`)
	hv.D[*map[string]sp.RSliceMap](`*map[string]sp.RSliceMap`)
	hv.D[*struct{X int; A sp.RSliceMap; B []sp.RSliceMap; C *sp.RSliceMap; D map[string]sp.RSliceMap; Y string}](`*struct{X int; A sp.RSliceMap; B []sp.RSliceMap; C *sp.RSliceMap; D map[string]sp.RSliceMap; Y string}`)
	hv.D[*struct{X int; C *sp.RSliceMap; B []*sp.RSliceMap; A sp.RSliceMap; Y string}](`*struct{X int; C *sp.RSliceMap; B []*sp.RSliceMap; A sp.RSliceMap; Y string}`)
	hv.D[*sp.RSliceSlice](`*sp.RSliceSlice`)
	hv.D[*[]sp.RSliceSlice](`*[]sp.RSliceSlice`)
	hv.D[*[2]sp.RSliceSlice](`*[2]sp.RSliceSlice`)
	hv.D[*map[string]sp.RSliceSlice](`*map[string]sp.RSliceSlice`)
	hv.D[*struct{X int; A sp.RSliceSlice; B []sp.RSliceSlice; C *sp.RSliceSlice; D map[string]sp.RSliceSlice; Y string}](`*struct{X int; A sp.RSliceSlice; B []sp.RSliceSlice; C *sp.RSliceSlice; D map[string]sp.RSliceSlice; Y string}`)
	hv.D[*struct{X int; C *sp.RSliceSlice; B []*sp.RSliceSlice; A sp.RSliceSlice; Y string}](`*struct{X int; C *sp.RSliceSlice; B []*sp.RSliceSlice; A sp.RSliceSlice; Y string}`)
	hv.D[*sp.RArr](`*sp.RArr`)
	hv.D[*[]sp.RArr](`*[]sp.RArr`)
	hv.D[*[2]sp.RArr](`*[2]sp.RArr`)
	hv.D[*map[string]sp.RArr](`*map[string]sp.RArr`)
	hv.D[*struct{X int; A sp.RArr; B []sp.RArr; C *sp.RArr; D map[string]sp.RArr; Y string}](`*struct{X int; A sp.RArr; B []sp.RArr; C *sp.RArr; D map[string]sp.RArr; Y string}`)
	hv.D[*struct{X int; C *sp.RArr; B []*sp.RArr; A sp.RArr; Y string}](`*struct{X int; C *sp.RArr; B []*sp.RArr; A sp.RArr; Y string}`)
	hv.D[*sp.RArrMap](`*sp.RArrMap`)
	hv.D[*[]sp.RArrMap](`*[]sp.RArrMap`)
	hv.D[*[2]sp.RArrMap](`*[2]sp.RArrMap`)
	hv.D[*map[string]sp.RArrMap](`*map[string]sp.RArrMap`)
	hv.D[*struct{X int; A sp.RArrMap; B []sp.RArrMap; C *sp.RArrMap; D map[string]sp.RArrMap; Y string}](`*struct{X int; A sp.RArrMap; B []sp.RArrMap; C *sp.RArrMap; D map[string]sp.RArrMap; Y string}`)
	hv.D[*struct{X int; C *sp.RArrMap; B []*sp.RArrMap; A sp.RArrMap; Y string}](`*struct{X int; C *sp.RArrMap; B []*sp.RArrMap; A sp.RArrMap; Y string}`)
	hv.D[*sp.RArrSlice](`*sp.RArrSlice`)
	hv.D[*[]sp.RArrSlice](`*[]sp.RArrSlice`)
	hv.D[*[2]sp.RArrSlice](`*[2]sp.RArrSlice`)
	hv.D[*map[string]sp.RArrSlice](`*map[string]sp.RArrSlice`)
	hv.D[*struct{X int; A sp.RArrSlice; B []sp.RArrSlice; C *sp.RArrSlice; D map[string]sp.RArrSlice; Y string}](`*struct{X int; A sp.RArrSlice; B []sp.RArrSlice; C *sp.RArrSlice; D map[string]sp.RArrSlice; Y string}`)
	hv.D[*struct{X int; C *sp.RArrSlice; B []*sp.RArrSlice; A sp.RArrSlice; Y string}](`*struct{X int; C *sp.RArrSlice; B []*sp.RArrSlice; A sp.RArrSlice; Y string}`)
	hv.D[*sp.RNest](`*sp.RNest`)
	hv.D[*[]sp.RNest](`*[]sp.RNest`)
	hv.D[*[2]sp.RNest](`*[2]sp.RNest`)
	hv.D[*map[string]sp.RNest](`*map[string]sp.RNest`)
	hv.D[*struct{X int; A sp.RNest; B []sp.RNest; C *sp.RNest; D map[string]sp.RNest; Y string}](`*struct{X int; A sp.RNest; B []sp.RNest; C *sp.RNest; D map[string]sp.RNest; Y string}`)
	hv.D[*struct{X int; C *sp.RNest; B []*sp.RNest; A sp.RNest; Y string}](`*struct{X int; C *sp.RNest; B []*sp.RNest; A sp.RNest; Y string}`)
	hv.D[*sp.RPP](`*sp.RPP`)
	hv.D[*[]sp.RPP](`*[]sp.RPP`)
	hv.D[*[2]sp.RPP](`*[2]sp.RPP`)
	hv.D[*map[string]sp.RPP](`*map[string]sp.RPP`)
	hv.D[*struct{X int; A sp.RPP; B []sp.RPP; C *sp.RPP; D map[string]sp.RPP; Y string}](`*struct{X int; A sp.RPP; B []sp.RPP; C *sp.RPP; D map[string]sp.RPP; Y string}`)
	hv.D[*struct{X int; C *sp.RPP; B []*sp.RPP; A sp.RPP; Y string}](`*struct{X int; C *sp.RPP; B []*sp.RPP; A sp.RPP; Y string}`)
	hv.D[*sp.RPSl](`*sp.RPSl`)
	hv.D[*[]sp.RPSl](`*[]sp.RPSl`)
	hv.D[*[2]sp.RPSl](`*[2]sp.RPSl`)
	hv.D[*map[string]sp.RPSl](`*map[string]sp.RPSl`)
	hv.D[*struct{X int; A sp.RPSl; B []sp.RPSl; C *sp.RPSl; D map[string]sp.RPSl; Y string}](`*struct{X int; A sp.RPSl; B []sp.RPSl; C *sp.RPSl; D map[string]sp.RPSl; Y string}`)
	hv.D[*struct{X int; C *sp.RPSl; B []*sp.RPSl; A sp.RPSl; Y string}](`*struct{X int; C *sp.RPSl; B []*sp.RPSl; A sp.RPSl; Y string}`)
	hv.D[*sp.RPMap](`*sp.RPMap`)
	hv.D[*[]sp.RPMap](`*[]sp.RPMap`)
	hv.D[*[2]sp.RPMap](`*[2]sp.RPMap`)
	hv.D[*map[string]sp.RPMap](`*map[string]sp.RPMap`)
	hv.D[*struct{X int; A sp.RPMap; B []sp.RPMap; C *sp.RPMap; D map[string]sp.RPMap; Y string}](`*struct{X int; A sp.RPMap; B []sp.RPMap; C *sp.RPMap; D map[string]sp.RPMap; Y string}`)
	hv.D[*struct{X int; C *sp.RPMap; B []*sp.RPMap; A sp.RPMap; Y string}](`*struct{X int; C *sp.RPMap; B []*sp.RPMap; A sp.RPMap; Y string}`)
	hv.D[*sp.RA](`*sp.RA`)
	hv.D[*[]sp.RA](`*[]sp.RA`)
	hv.D[*[2]sp.RA](`*[2]sp.RA`)
	hv.D[*map[string]sp.RA](`*map[string]sp.RA`)
	hv.D[*struct{X int; A sp.RA; B []sp.RA; C *sp.RA; D map[string]sp.RA; Y string}](`*struct{X int; A sp.RA; B []sp.RA; C *sp.RA; D map[string]sp.RA; Y string}`)
	hv.D[*struct{X int; C *sp.RA; B []*sp.RA; A sp.RA; Y string}](`*struct{X int; C *sp.RA; B []*sp.RA; A sp.RA; Y string}`)
	hv.D[*sp.RB](`*sp.RB`)
	hv.D[*[]sp.RB](`*[]sp.RB`)
	hv.D[*[2]sp.RB](`*[2]sp.RB`)
	hv.D[*map[string]sp.RB](`*map[string]sp.RB`)
	hv.D[*struct{X int; A sp.RB; B []sp.RB; C *sp.RB; D map[string]sp.RB; Y string}](`*struct{X int; A sp.RB; B []sp.RB; C *sp.RB; D map[string]sp.RB; Y string}`)
	hv.D[*struct{X int; C *sp.RB; B []*sp.RB; A sp.RB; Y string}](`*struct{X int; C *sp.RB; B []*sp.RB; A sp.RB; Y string}`)
	hv.D[*sp.RC](`*sp.RC`)
	hv.D[*[]sp.RC](`*[]sp.RC`)
	hv.D[*[2]sp.RC](`*[2]sp.RC`)
	hv.D[*map[string]sp.RC](`*map[string]sp.RC`)
	hv.D[*struct{X int; A sp.RC; B []sp.RC; C *sp.RC; D map[string]sp.RC; Y string}](`*struct{X int; A sp.RC; B []sp.RC; C *sp.RC; D map[string]sp.RC; Y string}`)
	hv.D[*struct{X int; C *sp.RC; B []*sp.RC; A sp.RC; Y string}](`*struct{X int; C *sp.RC; B []*sp.RC; A sp.RC; Y string}`)
	hv.D[*sp.RD](`*sp.RD`)
	hv.D[*[]sp.RD](`*[]sp.RD`)
	hv.D[*[2]sp.RD](`*[2]sp.RD`)
	hv.D[*map[string]sp.RD](`*map[string]sp.RD`)
	hv.D[*struct{X int; A sp.RD; B []sp.RD; C *sp.RD; D map[string]sp.RD; Y string}](`*struct{X int; A sp.RD; B []sp.RD; C *sp.RD; D map[string]sp.RD; Y string}`)
	hv.D[*struct{X int; C *sp.RD; B []*sp.RD; A sp.RD; Y string}](`*struct{X int; C *sp.RD; B []*sp.RD; A sp.RD; Y string}`)
	hv.D[*sp.RSib](`*sp.RSib`)
	hv.D[*[]sp.RSib](`*[]sp.RSib`)
	hv.D[*[2]sp.RSib](`*[2]sp.RSib`)
	hv.D[*map[string]sp.RSib](`*map[string]sp.RSib`)
	hv.D[*struct{X int; A sp.RSib; B []sp.RSib; C *sp.RSib; D map[string]sp.RSib; Y string}](`*struct{X int; A sp.RSib; B []sp.RSib; C *sp.RSib; D map[string]sp.RSib; Y string}`)
	hv.D[*struct{X int; C *sp.RSib; B []*sp.RSib; A sp.RSib; Y string}](`*struct{X int; C *sp.RSib; B []*sp.RSib; A sp.RSib; Y string}`)
	hv.D[*sp.RSibRec](`*sp.RSibRec`)
	hv.D[*[]sp.RSibRec](`*[]sp.RSibRec`)
	hv.D[*[2]sp.RSibRec](`*[2]sp.RSibRec`)
	hv.D[*map[string]sp.RSibRec](`*map[string]sp.RSibRec`)
	hv.D[*struct{X int; A sp.RSibRec; B []sp.RSibRec; C *sp.RSibRec; D map[string]sp.RSibRec; Y string}](`*struct{X int; A sp.RSibRec; B []sp.RSibRec; C *sp.RSibRec; D map[string]sp.RSibRec; Y string}`)
	hv.D[*struct{X int; C *sp.RSibRec; B []*sp.RSibRec; A sp.RSibRec; Y string}](`*struct{X int; C *sp.RSibRec; B []*sp.RSibRec; A sp.RSibRec; Y string}`)
	hv.D[*sp.RIntMap](`*sp.RIntMap`)
	hv.D[*[]sp.RIntMap](`*[]sp.RIntMap`)
	hv.D[*[2]sp.RIntMap](`*[2]sp.RIntMap`)
	hv.D[*map[string]sp.RIntMap](`*map[string]sp.RIntMap`)
	hv.D[*struct{X int; A sp.RIntMap; B []sp.RIntMap; C *sp.RIntMap; D map[string]sp.RIntMap; Y string}](`*struct{X int; A sp.RIntMap; B []sp.RIntMap; C *sp.RIntMap; D map[string]sp.RIntMap; Y string}`)
	hv.D[*struct{X int; C *sp.RIntMap; B []*sp.RIntMap; A sp.RIntMap; Y string}](`*struct{X int; C *sp.RIntMap; B []*sp.RIntMap; A sp.RIntMap; Y string}`)
	hv.D[*sp.RTextKey](`*sp.RTextKey`)
	hv.D[*[]sp.RTextKey](`*[]sp.RTextKey`)
	hv.D[*[2]sp.RTextKey](`*[2]sp.RTextKey`)
	hv.D[*map[string]sp.RTextKey](`*map[string]sp.RTextKey`)
	hv.D[*struct{X int; A sp.RTextKey; B []sp.RTextKey; C *sp.RTextKey; D map[string]sp.RTextKey; Y string}](`*struct{X int; A sp.RTextKey; B []sp.RTextKey; C *sp.RTextKey; D map[string]sp.RTextKey; Y string}`)
	hv.D[*struct{X int; C *sp.RTextKey; B []*sp.RTextKey; A sp.RTextKey; Y string}](`*struct{X int; C *sp.RTextKey; B []*sp.RTextKey; A sp.RTextKey; Y string}`)
	hv.D[*sp.RAny](`*sp.RAny`)
	hv.D[*[]sp.RAny](`*[]sp.RAny`)
	hv.D[*[2]sp.RAny](`*[2]sp.RAny`)
	hv.D[*map[string]sp.RAny](`*map[string]sp.RAny`)
	hv.D[*struct{X int; A sp.RAny; B []sp.RAny; C *sp.RAny; D map[string]sp.RAny; Y string}](`*struct{X int; A sp.RAny; B []sp.RAny; C *sp.RAny; D map[string]sp.RAny; Y string}`)
	hv.D[*struct{X int; C *sp.RAny; B []*sp.RAny; A sp.RAny; Y string}](`*struct{X int; C *sp.RAny; B []*sp.RAny; A sp.RAny; Y string}`)
	hv.D[*sp.RUnm](`*sp.RUnm`)
	hv.D[*[]sp.RUnm](`*[]sp.RUnm`)
	hv.D[*[2]sp.RUnm](`*[2]sp.RUnm`)
	hv.D[*map[string]sp.RUnm](`*map[string]sp.RUnm`)
	hv.D[*struct{X int; A sp.RUnm; B []sp.RUnm; C *sp.RUnm; D map[string]sp.RUnm; Y string}](`*struct{X int; A sp.RUnm; B []sp.RUnm; C *sp.RUnm; D map[string]sp.RUnm; Y string}`)
	hv.D[*struct{X int; C *sp.RUnm; B []*sp.RUnm; A sp.RUnm; Y string}](`*struct{X int; C *sp.RUnm; B []*sp.RUnm; A sp.RUnm; Y string}`)
	hv.D[*sp.RStrTag](`*sp.RStrTag`)
	hv.D[*[]sp.RStrTag](`*[]sp.RStrTag`)
	hv.D[*[2]sp.RStrTag](`*[2]sp.RStrTag`)
	hv.D[*map[string]sp.RStrTag](`*map[string]sp.RStrTag`)
	hv.D[*struct{X int; A sp.RStrTag; B []sp.RStrTag; C *sp.RStrTag; D map[string]sp.RStrTag; Y string}](`*struct{X int; A sp.RStrTag; B []sp.RStrTag; C *sp.RStrTag; D map[string]sp.RStrTag; Y string}`)
	hv.D[*struct{X int; C *sp.RStrTag; B []*sp.RStrTag; A sp.RStrTag; Y string}](`*struct{X int; C *sp.RStrTag; B []*sp.RStrTag; A sp.RStrTag; Y string}`)
	hv.D[*sp.ROuter](`*sp.ROuter`)
	hv.D[*[]sp.ROuter](`*[]sp.ROuter`)
	hv.D[*[2]sp.ROuter](`*[2]sp.ROuter`)
	hv.D[*map[string]sp.ROuter](`*map[string]sp.ROuter`)
	hv.D[*struct{X int; A sp.ROuter; B []sp.ROuter; C *sp.ROuter; D map[string]sp.ROuter; Y string}](`*struct{X int; A sp.ROuter; B []sp.ROuter; C *sp.ROuter; D map[string]sp.ROuter; Y string}`)
	hv.D[*struct{X int; C *sp.ROuter; B []*sp.ROuter; A sp.ROuter; Y string}](`*struct{X int; C *sp.ROuter; B []*sp.ROuter; A sp.ROuter; Y string}`)
	hv.D[*sp.RSelfU](`*sp.RSelfU`)
	hv.D[*[]sp.RSelfU](`*[]sp.RSelfU`)
	hv.D[*[2]sp.RSelfU](`*[2]sp.RSelfU`)
	hv.D[*map[string]sp.RSelfU](`*map[string]sp.RSelfU`)
	hv.D[*struct{X int; A sp.RSelfU; B []sp.RSelfU; C *sp.RSelfU; D map[string]sp.RSelfU; Y string}](`*struct{X int; A sp.RSelfU; B []sp.RSelfU; C *sp.RSelfU; D map[string]sp.RSelfU; Y string}`)
	hv.D[*struct{X int; C *sp.RSelfU; B []*sp.RSelfU; A sp.RSelfU; Y string}](`*struct{X int; C *sp.RSelfU; B []*sp.RSelfU; A sp.RSelfU; Y string}`)
	hv.D[*sp.RTwo](`*sp.RTwo`)
	hv.D[*[]sp.RTwo](`*[]sp.RTwo`)
	hv.D[*[2]sp.RTwo](`*[2]sp.RTwo`)
	hv.D[*map[string]sp.RTwo](`*map[string]sp.RTwo`)
	hv.D[*struct{X int; A sp.RTwo; B []sp.RTwo; C *sp.RTwo; D map[string]sp.RTwo; Y string}](`*struct{X int; A sp.RTwo; B []sp.RTwo; C *sp.RTwo; D map[string]sp.RTwo; Y string}`)
	hv.D[*struct{X int; C *sp.RTwo; B []*sp.RTwo; A sp.RTwo; Y string}](`*struct{X int; C *sp.RTwo; B []*sp.RTwo; A sp.RTwo; Y string}`)
	hv.D[*sp.RBig](`*sp.RBig`)
	hv.D[*[]sp.RBig](`*[]sp.RBig`)
	hv.D[*[2]sp.RBig](`*[2]sp.RBig`)
	hv.D[*map[string]sp.RBig](`*map[string]sp.RBig`)
	hv.D[*struct{X int; A sp.RBig; B []sp.RBig; C *sp.RBig; D map[string]sp.RBig; Y string}](`*struct{X int; A sp.RBig; B []sp.RBig; C *sp.RBig; D map[string]sp.RBig; Y string}`)
	hv.D[*struct{X int; C *sp.RBig; B []*sp.RBig; A sp.RBig; Y string}](`*struct{X int; C *sp.RBig; B []*sp.RBig; A sp.RBig; Y string}`)
	hv.D[*sp.RMany](`*sp.RMany`)
	hv.D[*[]sp.RMany](`*[]sp.RMany`)
	hv.D[*[2]sp.RMany](`*[2]sp.RMany`)
	hv.D[*map[string]sp.RMany](`*map[string]sp.RMany`)
	hv.D[*struct{X int; A sp.RMany; B []sp.RMany; C *sp.RMany; D map[string]sp.RMany; Y string}](`*struct{X int; A sp.RMany; B []sp.RMany; C *sp.RMany; D map[string]sp.RMany; Y string}`)
	hv.D[*struct{X int; C *sp.RMany; B []*sp.RMany; A sp.RMany; Y string}](`*struct{X int; C *sp.RMany; B []*sp.RMany; A sp.RMany; Y string}`)
	hv.D[*sp.RLinks](`*sp.RLinks`)
	hv.D[*[]sp.RLinks](`*[]sp.RLinks`)
	hv.D[*[2]sp.RLinks](`*[2]sp.RLinks`)
	hv.D[*map[string]sp.RLinks](`*map[string]sp.RLinks`)
	hv.D[*struct{X int; A sp.RLinks; B []sp.RLinks; C *sp.RLinks; D map[string]sp.RLinks; Y string}](`*struct{X int; A sp.RLinks; B []sp.RLinks; C *sp.RLinks; D map[string]sp.RLinks; Y string}`)
	hv.D[*struct{X int; C *sp.RLinks; B []*sp.RLinks; A sp.RLinks; Y string}](`*struct{X int; C *sp.RLinks; B []*sp.RLinks; A sp.RLinks; Y string}`)
	hv.D[*sp.RTag](`*sp.RTag`)
	hv.D[*[]sp.RTag](`*[]sp.RTag`)
	hv.D[*[2]sp.RTag](`*[2]sp.RTag`)
	hv.D[*map[string]sp.RTag](`*map[string]sp.RTag`)
	hv.D[*struct{X int; A sp.RTag; B []sp.RTag; C *sp.RTag; D map[string]sp.RTag; Y string}](`*struct{X int; A sp.RTag; B []sp.RTag; C *sp.RTag; D map[string]sp.RTag; Y string}`)
	hv.D[*struct{X int; C *sp.RTag; B []*sp.RTag; A sp.RTag; Y string}](`*struct{X int; C *sp.RTag; B []*sp.RTag; A sp.RTag; Y string}`)
	hv.D[*sp.RDeep3](`*sp.RDeep3`)
	hv.D[*[]sp.RDeep3](`*[]sp.RDeep3`)
	hv.D[*[2]sp.RDeep3](`*[2]sp.RDeep3`)
	hv.D[*map[string]sp.RDeep3](`*map[string]sp.RDeep3`)
	hv.D[*struct{X int; A sp.RDeep3; B []sp.RDeep3; C *sp.RDeep3; D map[string]sp.RDeep3; Y string}](`*struct{X int; A sp.RDeep3; B []sp.RDeep3; C *sp.RDeep3; D map[string]sp.RDeep3; Y string}`)
	hv.D[*struct{X int; C *sp.RDeep3; B []*sp.RDeep3; A sp.RDeep3; Y string}](`*struct{X int; C *sp.RDeep3; B []*sp.RDeep3; A sp.RDeep3; Y string}`)
	hv.D[*sp.W70](`*sp.W70`)
	hv.D[*sp.W300](`*sp.W300`)
	hv.D[*sp.W260](`*sp.W260`)
	hv.D[*sp.Deep24](`*sp.Deep24`)
	hv.D[*sp.Deep20](`*sp.Deep20`)
	hv.D[*sp.Ptr12](`*sp.Ptr12`)
	hv.D[*sp.Sl12](`*sp.Sl12`)
	hv.D[*sp.Arr6](`*sp.Arr6`)
	hv.D[*sp.Big](`*sp.Big`)
	hv.D[*sp.BigSl](`*sp.BigSl`)
	hv.D[*sp.BigMap](`*sp.BigMap`)
	hv.D[*sp.RWide](`*sp.RWide`)
	hv.D[*sp.RW300](`*sp.RW300`)
	hv.D[*sp.RW280](`*sp.RW280`)
	hv.D[*[]sp.W70](`*[]sp.W70`)
	hv.D[*map[string]sp.W300](`*map[string]sp.W300`)
	hv.D[**sp.W260](`**sp.W260`)
	hv.D[*[]sp.Big](`*[]sp.Big`)
	hv.D[*map[int]sp.Big](`*map[int]sp.Big`)
	hv.D[*struct{A int; B sp.Big; C []sp.RWide; D string}](`*struct{A int; B sp.Big; C []sp.RWide; D string}`)
	hv.D[*map[string]json.Number](`*map[string]json.Number`)
	hv.D[*map[json.Number]json.Number](`*map[json.Number]json.Number`)
	hv.D[*[2]*json.Number](`*[2]*json.Number`)
	hv.Reg[*struct{A json.Number; B *json.Number; C []json.Number; D jd.Number; E sp.NNum; F []sp.NNum; G map[string]json.Number}, *struct{A json.Number; B *json.Number; C []json.Number; D json.Number; E sp.NNum; F []sp.NNum; G map[string]json.Number}](`*struct{A json.Number; B *json.Number; C []json.Number; D jd.Number; E sp.NNum; F []sp.NNum; G map[string]json.Number}`)
	hv.D[*map[sp.NStr]sp.NNum](`*map[sp.NStr]sp.NNum`)
	hv.D[*map[json.Number]sp.NNum](`*map[json.Number]sp.NNum`)
	hv.D[*[]*bool](`*[]*bool`)
	hv.D[*map[string]*bool](`*map[string]*bool`)
	hv.D[*struct{A, B *bool; C [2]*bool; D int}](`*struct{A, B *bool; C [2]*bool; D int}`)
	hv.D[*[]*string](`*[]*string`)
	hv.D[*map[string]*string](`*map[string]*string`)
	hv.D[*struct{A, B *string; C [2]*string; D int}](`*struct{A, B *string; C [2]*string; D int}`)
	hv.D[*[]*int](`*[]*int`)
	hv.D[*struct{A, B *int; C [2]*int; D int}](`*struct{A, B *int; C [2]*int; D int}`)
	hv.D[*[]*int8](`*[]*int8`)
	hv.D[*map[string]*int8](`*map[string]*int8`)
	hv.D[*struct{A, B *int8; C [2]*int8; D int}](`*struct{A, B *int8; C [2]*int8; D int}`)
	hv.D[*[]*int16](`*[]*int16`)
	hv.D[*map[string]*int16](`*map[string]*int16`)
	hv.D[*struct{A, B *int16; C [2]*int16; D int}](`*struct{A, B *int16; C [2]*int16; D int}`)
	hv.D[*[]*int32](`*[]*int32`)
	hv.D[*map[string]*int32](`*map[string]*int32`)
	hv.D[*struct{A, B *int32; C [2]*int32; D int}](`*struct{A, B *int32; C [2]*int32; D int}`)
	hv.D[*[]*int64](`*[]*int64`)
	hv.D[*map[string]*int64](`*map[string]*int64`)
	hv.D[*struct{A, B *int64; C [2]*int64; D int}](`*struct{A, B *int64; C [2]*int64; D int}`)
	hv.D[*[]*uint](`*[]*uint`)
	hv.D[*map[string]*uint](`*map[string]*uint`)
	hv.D[*struct{A, B *uint; C [2]*uint; D int}](`*struct{A, B *uint; C [2]*uint; D int}`)
	hv.D[*[]*uint8](`*[]*uint8`)
	hv.D[*map[string]*uint8](`*map[string]*uint8`)
	hv.D[*struct{A, B *uint8; C [2]*uint8; D int}](`*struct{A, B *uint8; C [2]*uint8; D int}`)
	hv.D[*[]*uint16](`*[]*uint16`)
	hv.D[*map[string]*uint16](`*map[string]*uint16`)
	hv.D[*struct{A, B *uint16; C [2]*uint16; D int}](`*struct{A, B *uint16; C [2]*uint16; D int}`)
	hv.D[*[]*uint32](`*[]*uint32`)
	hv.D[*map[string]*uint32](`*map[string]*uint32`)
	hv.D[*struct{A, B *uint32; C [2]*uint32; D int}](`*struct{A, B *uint32; C [2]*uint32; D int}`)
	hv.D[*[]*uint64](`*[]*uint64`)
	hv.D[*map[string]*uint64](`*map[string]*uint64`)
	hv.D[*struct{A, B *uint64; C [2]*uint64; D int}](`*struct{A, B *uint64; C [2]*uint64; D int}`)
	hv.D[*[]*float32](`*[]*float32`)
	hv.D[*map[string]*float32](`*map[string]*float32`)
	hv.D[*struct{A, B *float32; C [2]*float32; D int}](`*struct{A, B *float32; C [2]*float32; D int}`)
	hv.D[*[]*float64](`*[]*float64`)
	hv.D[*map[string]*float64](`*map[string]*float64`)
	hv.D[*struct{A, B *float64; C [2]*float64; D int}](`*struct{A, B *float64; C [2]*float64; D int}`)
	hv.D[*[]*any](`*[]*any`)
	hv.D[*map[string]*any](`*map[string]*any`)
	hv.D[*struct{A, B *any; C [2]*any; D int}](`*struct{A, B *any; C [2]*any; D int}`)
	hv.D[*[]*sp.NStr](`*[]*sp.NStr`)
	hv.D[*map[string]*sp.NStr](`*map[string]*sp.NStr`)
	hv.D[*struct{A, B *sp.NStr; C [2]*sp.NStr; D int}](`*struct{A, B *sp.NStr; C [2]*sp.NStr; D int}`)
	hv.D[*[]*sp.NBool](`*[]*sp.NBool`)
	hv.D[*map[string]*sp.NBool](`*map[string]*sp.NBool`)
	hv.D[*struct{A, B *sp.NBool; C [2]*sp.NBool; D int}](`*struct{A, B *sp.NBool; C [2]*sp.NBool; D int}`)
	hv.D[*[]*struct{}](`*[]*struct{}`)
	hv.D[*map[string]*struct{}](`*map[string]*struct{}`)
	hv.D[*struct{A, B *struct{}; C [2]*struct{}; D int}](`*struct{A, B *struct{}; C [2]*struct{}; D int}`)
	hv.D[*struct{F0 int8 `json:"abcd"`; F1 int8 `json:"Abcd"`}]("*struct{F0 int8 `json:\"abcd\"`; F1 int8 `json:\"Abcd\"`}")
	hv.D[*struct{F0 int8 `json:"abcd"`; F1 int8 `json:"Abcd"`; F2 int8 `json:"aBcd"`}]("*struct{F0 int8 `json:\"abcd\"`; F1 int8 `json:\"Abcd\"`; F2 int8 `json:\"aBcd\"`}")
	hv.D[*struct{F0 int8 `json:"abcd"`; F1 int8 `json:"Abcd"`; F2 int8 `json:"aBcd"`; F3 int8 `json:"abCd"`; F4 int8 `json:"abcD"`}]("*struct{F0 int8 `json:\"abcd\"`; F1 int8 `json:\"Abcd\"`; F2 int8 `json:\"aBcd\"`; F3 int8 `json:\"abCd\"`; F4 int8 `json:\"abcD\"`}")
	hv.D[*struct{F0 int8 `json:"abcd"`; F1 int8 `json:"Abcd"`; F2 int8 `json:"aBcd"`; F3 int8 `json:"abCd"`; F4 int8 `json:"abcD"`; F5 int8 `json:"ABcd"`}]("*struct{F0 int8 `json:\"abcd\"`; F1 int8 `json:\"Abcd\"`; F2 int8 `json:\"aBcd\"`; F3 int8 `json:\"abCd\"`; F4 int8 `json:\"abcD\"`; F5 int8 `json:\"ABcd\"`}")
	hv.D[*struct{F0 int8 `json:"abcd"`; F1 int8 `json:"Abcd"`; F2 int8 `json:"aBcd"`; F3 int8 `json:"abCd"`; F4 int8 `json:"abcD"`; F5 int8 `json:"ABcd"`; F6 int8 `json:"AbCd"`}]("*struct{F0 int8 `json:\"abcd\"`; F1 int8 `json:\"Abcd\"`; F2 int8 `json:\"aBcd\"`; F3 int8 `json:\"abCd\"`; F4 int8 `json:\"abcD\"`; F5 int8 `json:\"ABcd\"`; F6 int8 `json:\"AbCd\"`}")
	hv.D[*struct{F0 int8 `json:"abcd"`; F1 int8 `json:"Abcd"`; F2 int8 `json:"aBcd"`; F3 int8 `json:"abCd"`; F4 int8 `json:"abcD"`; F5 int8 `json:"ABcd"`; F6 int8 `json:"AbCd"`; F7 int8 `json:"AbcD"`; F8 int8 `json:"aBCd"`}]("*struct{F0 int8 `json:\"abcd\"`; F1 int8 `json:\"Abcd\"`; F2 int8 `json:\"aBcd\"`; F3 int8 `json:\"abCd\"`; F4 int8 `json:\"abcD\"`; F5 int8 `json:\"ABcd\"`; F6 int8 `json:\"AbCd\"`; F7 int8 `json:\"AbcD\"`; F8 int8 `json:\"aBCd\"`}")
	hv.D[*struct{X, Y, Z string; F0 int `json:"wxyz"`; F1 int `json:"WXYZ"`; F2 int `json:"wxYZ"`}]("*struct{X, Y, Z string; F0 int `json:\"wxyz\"`; F1 int `json:\"WXYZ\"`; F2 int `json:\"wxYZ\"`}")
	hv.D[*struct{F0 int `json:"wxyz"`; X string; F1 []int `json:"WXYZ"`; Y, Z string; F2 *int `json:"wxYZ"`}]("*struct{F0 int `json:\"wxyz\"`; X string; F1 []int `json:\"WXYZ\"`; Y, Z string; F2 *int `json:\"wxYZ\"`}")
	hv.D[*struct{A *struct{F0 int `json:"no"`; F1 int `json:"NO"`}; B []struct{F0 int `json:"NO"`; F1 int `json:"no"`; X, Y int}}]("*struct{A *struct{F0 int `json:\"no\"`; F1 int `json:\"NO\"`}; B []struct{F0 int `json:\"NO\"`; F1 int `json:\"no\"`; X, Y int}}")
	hv.D[*struct{A int `json:"<>"`}]("*struct{A int `json:\"<>\"`}")
	hv.D[*struct{A int `json:"<&-&>"`; B int `json:"a<b"`}]("*struct{A int `json:\"<&-&>\"`; B int `json:\"a<b\"`}")
	hv.D[*struct{A string `json:"<<<<<<<<<<<<<<<<"`; B []int `json:"&"`; C string `json:"&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>"`}]("*struct{A string `json:\"<<<<<<<<<<<<<<<<\"`; B []int `json:\"&\"`; C string `json:\"&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>&<>\"`}")
	hv.D[*struct{A map[string]*struct{B int `json:"&&&"`}; C struct{D int `json:">>>>"`} `json:"<"`}]("*struct{A map[string]*struct{B int `json:\"&&&\"`}; C struct{D int `json:\">>>>\"`} `json:\"<\"`}")
	hv.D[*struct{A int `json:"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"`; B string `json:"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"`; C []int `json:"CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC"`}]("*struct{A int `json:\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\"`; B string `json:\"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb\"`; C []int `json:\"CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC\"`}")
	hv.D[*struct{A int `json:"nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"`; B string `json:"nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnN"`; C int `json:"nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"`}]("*struct{A int `json:\"nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn\"`; B string `json:\"nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnN\"`; C int `json:\"nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn\"`}")
	hv.D[*struct{A int `json:"é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世"`; B string}]("*struct{A int `json:\"é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世é世\"`; B string}")
}
