// Code generated by typegen -seed 1. DO NOT EDIT.

package gptr

import (
	"encoding"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"time"
	"unsafe"

	jd "github.com/romshark/jscan-experimental-decoder"
	"verif/harness/hv"
	"verif/harness/sp"
)

var (
	_ encoding.TextUnmarshaler
	_ fmt.Stringer
	_ io.Reader
	_ unsafe.Pointer
	_ json.RawMessage
	_ big.Int
	_ net.IP
	_ time.Time
	_ jd.Number
	_ sp.UJ
)

type G0 []*int64

type G1 map[int8]uint

type G2 struct {
	Bar struct {
		D int32 `json:"Kelvin"`
		X int16
	}
	KSs               [1]int32    `json:"größe"`
	Data              *sp.UTSlice `json:"with space"`
	Bar2              []float64
	Größe             [][1]sp.RNest   `json:"名前"`
	F2                []string        `json:"Kelvin"`
	Kk                map[int64]int16 `json:",omitempty"`
	LongFieldNameHere map[sp.KTArr]struct {
		D   sp.RArrSlice `json:"名前"`
		Foo float32      `json:"-"`
	}
	Ss map[string]*string
}

type G3 [4]map[string]int

type G4 struct {
	Größe map[string]sp.NBool
	A     [1][]sp.UJ `json:","`
	Foo   []string   `json:"Kelvin"`
}

type G5 struct {
	Bar20 []*float32
	B     []sp.NEmp `json:"foo_bar,omitempty,string"`
	ID    [2]uint64
	F2    []sp.UT `json:"-"`
	Foo   map[uint8]int32
	X     [2]sp.RBig `json:"x/y"`
	Name  [3][2]string
	A8    **string `json:",string"`
	A15   [7]sp.UTEmpty
}

type G6 [][3]float64

type G7 struct {
	Bar struct {
		F1    map[sp.KTArr]sp.NInt `json:"é,string"`
		Type6 sp.NEmp              `json:"a"`
	} `json:"s"`
	Ünï    int16           `json:"UPPER"`
	Type11 *map[string]any `json:"-,"`
	Ss     [2]*uint16      `json:"Kelvin"`
}

type G8 struct {
	F2 []map[sp.NInt]struct {
		Type uint8 `json:"名前,string"`
		Y    sp.UTI8
	} `json:"п"`
	Ünï  sp.NU8 `json:",string,omitempty"`
	F219 *sp.NU64
}

type G9 map[string]map[uint32]map[uint64]int32

type G10 [][2]struct {
	Größe26 sp.NU64 `json:"with space"`
	D       sp.NMap
	F1      jd.Number `json:"dotted.name"`
}

type G10R [][2]struct {
	Größe26 sp.NU64 `json:"with space"`
	D       sp.NMap
	F1      json.Number `json:"dotted.name"`
}

type G11 [4]struct {
	A struct {
		B                   int32 `json:"名前"`
		LongFieldNameHere29 sp.NEmp
		F2                  struct {
			Größe int16 `json:",string"`
		} `json:"a"`
		KSs  int32        `json:"-"`
		Data []sp.RTwo    `json:","`
		Y    *uint64      `json:"long_tag_name_for_matching"`
		Bar  sp.UJU8      `json:"-"`
		Foo  sp.RMapFirst `json:"UPPER"`
		Kk   uint64
	}
}

type G12 struct {
	Kk   struct{ D uint16 } `json:"UPPER"`
	ID   int64              `json:","`
	Name struct {
		LongFieldNameHere uint32    `json:"dotted.name"`
		Größe             bool      `json:"名前"`
		BarBaz            []sp.RArr `json:"a"`
	} `json:"x/y"`
}

type G13 map[sp.KTArr][]struct {
	Größe10 any
	KSs11   string
	Bar     uint64 `json:"long_tag_name_for_matching"`
	A       bool
	Ss      sp.NBool    `json:"A"`
	Kk      []sp.UTBool `json:"x/y"`
	Type    struct {
		Ss    sp.UTArr
		Ünï23 int32  `json:"mixedCase"`
		Foo   sp.NU8 `json:"-"`
	} `json:","`
	D []sp.UT `json:",string"`
}

type G14 map[sp.KTArr]uint8

type G15 struct {
	Größe  [0]sp.RTwo `json:"-,"`
	Value8 *sp.UTBool `json:"-"`
	D      struct {
		Kk                sp.NInt   `json:",string"`
		Data15            jd.Number `json:"Data15"`
		X                 int16     `json:"é"`
		Bar27             any       `json:"-"`
		F2                int16
		LongFieldNameHere uint64 `json:"kebab-case"`
	} `json:"-"`
	C int32 `json:"foo"`
}

type G15R struct {
	Größe  [0]sp.RTwo `json:"-,"`
	Value8 *sp.UTBool `json:"-"`
	D      struct {
		Kk                sp.NInt     `json:",string"`
		Data15            json.Number `json:"Data15"`
		X                 int16       `json:"é"`
		Bar27             any         `json:"-"`
		F2                int16
		LongFieldNameHere uint64 `json:"kebab-case"`
	} `json:"-"`
	C int32 `json:"foo"`
}

type G16 [4]sp.UJ

type G17 map[string]*map[uint16]uint8

type G18 []struct {
	KSs     *int16    `json:"0,string,omitempty"`
	Ss      jd.Number `json:"a"`
	Value13 any       `json:"with space"`
	D       struct {
		Value uint32
		B     int64
		Kk    sp.RUnm `json:"-"`
	}
	F1 struct {
		KSs  string `json:","`
		Type jd.Number
		X    float64 `json:"foo_bar"`
	} `json:",omitempty"`
	Y27 struct {
		Type uint16
		Name jd.Number `json:"-"`
		X21  sp.UJStr  `json:"x/y"`
	} `json:"-,"`
	C    map[sp.KT]any `json:"-"`
	Type net.IP        `json:"名前"`
	Kk   *int8         `json:"UPPER"`
}

type G18R []struct {
	KSs     *int16      `json:"0,string,omitempty"`
	Ss      json.Number `json:"a"`
	Value13 any         `json:"with space"`
	D       struct {
		Value uint32
		B     int64
		Kk    sp.RUnm `json:"-"`
	}
	F1 struct {
		KSs  string `json:","`
		Type json.Number
		X    float64 `json:"foo_bar"`
	} `json:",omitempty"`
	Y27 struct {
		Type uint16
		Name json.Number `json:"-"`
		X21  sp.UJStr    `json:"x/y"`
	} `json:"-,"`
	C    map[sp.KT]any `json:"-"`
	Type net.IP        `json:"名前"`
	Kk   *int8         `json:"UPPER"`
}

type G19 struct {
	Data  any                         `json:"0"`
	F1    map[int64][]int16           `json:"long_tag_name_for_matching,string"`
	F16   [][]uint8                   `json:"x/y"`
	A1    *int32                      `json:"-,string"`
	Value []uint64                    `json:","`
	Type  map[sp.KT]map[int16]sp.RMix `json:"Kelvin"`
}

type G20 map[uint8][1]struct {
	Ss sp.UJ `json:"größe"`
	B  int32
}

type G21 struct {
	Bar sp.UJ `json:"-"`
	Y   int8
	D   *any `json:"-"`
	B   struct {
		Foo sp.NBool
		A   sp.NSl `json:"k"`
		Kk  uint16 `json:",foo"`
		Ss  uint32
	} `json:"k"`
	Ss    *uint64 `json:"п,string,omitempty"`
	C24   sp.UT   `json:"$"`
	Value sp.NI8
	Type  *uint64 `json:"-"`
}

type G22 struct {
	Y     sp.UTI8 `json:"é"`
	C22   [4]sp.RNest
	Value struct {
		uB6   int32
		B6    int8
		Value int64 `json:"dotted.name"`
	} `json:"foo"`
	Name  struct{ Foo27 uint64 } `json:"-"`
	Foo   map[sp.KT]any          `json:"long_tag_name_for_matching"`
	F2    [][4]int               `json:"-"`
	A     []int32                `json:"Kelvin"`
	ID3   [2]sp.RSlice           `json:"-"`
	uData int32
	Data  []*sp.UJBool
}

type G23 [][]struct {
	uSs int32
	Ss  sp.UJSlice `json:"k"`
}

type G24 []struct {
	Y16   map[int8]uint8 `json:"dotted.name,string,omitempty"`
	uName int32
	Name  map[int64]float32
}

type G25 map[sp.NStr][][]any

type G26 [0][3]struct{}

type G27 sp.UJEmpty

type G28 []struct {
	F2                [7]string
	KSs16             sp.UTF   `json:"-"`
	Foo               int      `json:"Kelvin"`
	LongFieldNameHere struct{} `json:"-,string"`
	Value             struct {
		Bar   sp.RAny        `json:"mixedCase"`
		KSs   sp.RSliceSlice `json:"Kelvin"`
		Ünï29 sp.NSl         `json:"Kelvin"`
	}
	Y      []int32         `json:"名前"`
	Ss     map[uint32]int8 `json:"mixedCase"`
	BarBaz any             `json:"п"`
}

type G29 [][][][]sp.ROuter

type G30 struct {
	LongFieldNameHere5 struct{} `json:"-"`
	LongFieldNameHere  []map[int8]*float64
	F1                 struct {
		D struct {
			Foo  bool   `json:"$,string"`
			Type *int16 `json:"mixedCase"`
			ID   uint64
		} `json:"-"`
		LongFieldNameHere struct{} `json:"long_tag_name_for_matching"`
		Y                 struct {
			Value  uint8 `json:"id"`
			Kk     jd.Number
			BarBaz time.Time `json:"x/y"`
			Type   uint64
			D      int16 `json:"kebab-case,string"`
		} `json:"Kelvin"`
		Größe27 uint8    `json:"-"`
		F2      struct{} `json:"a"`
		KSs     struct {
			Name   uint16 `json:"0"`
			uBar21 int32
			Bar21  sp.UTArr
			X27    any
			X21    big.Int `json:"x/y"`
			Kk0    bool    `json:"dotted.name"`
			Type   uint16  `json:"п"`
		} `json:"-"`
		Data uint
		ID   []int64 `json:"id"`
	} `json:",omitempty,string"`
	Ss    struct{}   `json:"0"`
	Value sp.UJSlice `json:",omitempty"`
}

type G30R struct {
	LongFieldNameHere5 struct{} `json:"-"`
	LongFieldNameHere  []map[int8]*float64
	F1                 struct {
		D struct {
			Foo  bool   `json:"$,string"`
			Type *int16 `json:"mixedCase"`
			ID   uint64
		} `json:"-"`
		LongFieldNameHere struct{} `json:"long_tag_name_for_matching"`
		Y                 struct {
			Value  uint8 `json:"id"`
			Kk     json.Number
			BarBaz time.Time `json:"x/y"`
			Type   uint64
			D      int16 `json:"kebab-case,string"`
		} `json:"Kelvin"`
		Größe27 uint8    `json:"-"`
		F2      struct{} `json:"a"`
		KSs     struct {
			Name   uint16 `json:"0"`
			uBar21 int32
			Bar21  sp.UTArr
			X27    any
			X21    big.Int `json:"x/y"`
			Kk0    bool    `json:"dotted.name"`
			Type   uint16  `json:"п"`
		} `json:"-"`
		Data uint
		ID   []int64 `json:"id"`
	} `json:",omitempty,string"`
	Ss    struct{}   `json:"0"`
	Value sp.UJSlice `json:",omitempty"`
}

type G31 struct {
	Bar [1]float64 `json:","`
	F1  [3]struct {
		Name7 time.Time `json:"-"`
	} `json:"k"`
	Type struct {
		Type15            sp.NU64 `json:"x/y"`
		Y                 bool    `json:","`
		BarBaz            any
		LongFieldNameHere sp.NBool
		KSs               uint8        `json:"-"`
		A                 sp.RMapFirst `json:","`
		D                 struct{}
		F2                sp.RSib
	} `json:"with space"`
}

type G32 map[sp.KTStr]*map[string]sp.UTStr

type G33 struct{}

type G34 [][]struct {
	Data uint16 `json:",string,omitempty"`
}

type G35 []struct {
	KSs int `json:"dotted.name"`
}

type G36 []struct {
	Kk []float32 `json:"s"`
}

type G37 []struct {
	A    int32
	Type int     `json:"foo_bar"`
	Ünï  sp.RSib `json:"UPPER"`
}

type G38 struct {
	C                 int8
	Y                 []map[uint]sp.NI16 `json:"dotted.name"`
	Ünï               sp.NMap
	LongFieldNameHere [4]*int `json:"Kelvin,omitempty,string"`
	Value             sp.RMapSlice
}

type G39 struct {
	C struct {
		B     uint64  `json:"-"`
		C     sp.NStr `json:"-,"`
		uName int32
		Name  float32 `json:"名前"`
		C27   sp.RMap `json:"a"`
		Bar   int32
		Größe struct {
			ID   sp.NStr
			ID11 int16
			Kk   sp.UT `json:",omitempty"`
		}
		F2 struct {
			C22  sp.UTArr
			KSs  jd.Number
			Name sp.RMany `json:",foo"`
			F1   int16
			A    any `json:","`
		}
		Kk   sp.NU64 `json:"-"`
		F217 any     `json:"foo_bar,string"`
	} `json:",foo"`
	Type *struct {
		F116   net.IP       `json:"名前"`
		BarBaz sp.RMapFirst `json:"with space"`
		Foo    sp.UTSlice
		Name4  sp.RLinks
		Kk     uint
		Name   sp.NI16  `json:"id"`
		Größe  sp.UJMap `json:"Kelvin"`
		A      any      `json:"a"`
		F2     sp.NBool
	}
	BarBaz struct{} `json:",omitempty"`
	KSs    [3]struct {
		Bar struct{} `json:"dotted.name"`
	} `json:",string,omitempty"`
	D18 map[sp.KTInt]*struct {
		Y17    int `json:"-,"`
		F2     sp.NEmp
		Data   sp.RTwo
		Ss     struct{} `json:"-"`
		A      float64  `json:"a,string"`
		Kk3    sp.NU64
		Name   sp.NI8 `json:"-"`
		Ünï    sp.UJArr
		uValue int32
		Value  sp.UTMap
	} `json:"0"`
}

type G39R struct {
	C struct {
		B     uint64  `json:"-"`
		C     sp.NStr `json:"-,"`
		uName int32
		Name  float32 `json:"名前"`
		C27   sp.RMap `json:"a"`
		Bar   int32
		Größe struct {
			ID   sp.NStr
			ID11 int16
			Kk   sp.UT `json:",omitempty"`
		}
		F2 struct {
			C22  sp.UTArr
			KSs  json.Number
			Name sp.RMany `json:",foo"`
			F1   int16
			A    any `json:","`
		}
		Kk   sp.NU64 `json:"-"`
		F217 any     `json:"foo_bar,string"`
	} `json:",foo"`
	Type *struct {
		F116   net.IP       `json:"名前"`
		BarBaz sp.RMapFirst `json:"with space"`
		Foo    sp.UTSlice
		Name4  sp.RLinks
		Kk     uint
		Name   sp.NI16  `json:"id"`
		Größe  sp.UJMap `json:"Kelvin"`
		A      any      `json:"a"`
		F2     sp.NBool
	}
	BarBaz struct{} `json:",omitempty"`
	KSs    [3]struct {
		Bar struct{} `json:"dotted.name"`
	} `json:",string,omitempty"`
	D18 map[sp.KTInt]*struct {
		Y17    int `json:"-,"`
		F2     sp.NEmp
		Data   sp.RTwo
		Ss     struct{} `json:"-"`
		A      float64  `json:"a,string"`
		Kk3    sp.NU64
		Name   sp.NI8 `json:"-"`
		Ünï    sp.UJArr
		uValue int32
		Value  sp.UTMap
	} `json:"0"`
}

type G40 struct {
	Foo    bool
	Ünï    [2]uint8 `json:"UPPER"`
	BarBaz struct {
		uFoo int32
		Foo  any `json:"é"`
		D8   sp.UJSlice
		F2   int32 `json:"id"`
	} `json:"Foo"`
	Value sp.NI8         `json:"0"`
	Bar   map[string]int `json:"dotted.name"`
}

type G41 struct {
	Data struct {
		Bar uint32
		F2  sp.UJ
	} `json:",foo"`
	X     []map[sp.KT]any
	Foo20 *jd.Number
	B     [2]int8 `json:"п"`
	Ünï   bool    `json:"k"`
	Foo   struct {
		F215 bool
		X    int64
		Y    sp.UJU8 `json:",omitempty"`
	}
	Name uint `json:"0"`
	Ss   struct {
		KSs   uint16   `json:",string"`
		Ss    []uint16 `json:"k"`
		Größe int64    `json:",foo"`
		X     [7]any   `json:"$"`
		uID   int32
		ID    struct {
			Value sp.NU64 `json:"-"`
			C     float64
			Ünï   sp.RLinks `json:"long_tag_name_for_matching"`
			Bar   sp.NU8    `json:"dotted.name"`
			Foo5  sp.UJArr
			ID    struct{} `json:"größe"`
			Foo   uint     `json:"Kelvin"`
			D     sp.UTI8
			Name  sp.UJMap `json:","`
		} `json:"-,"`
	} `json:","`
	B25 *jd.Number
}

type G41R struct {
	Data struct {
		Bar uint32
		F2  sp.UJ
	} `json:",foo"`
	X     []map[sp.KT]any
	Foo20 *json.Number
	B     [2]int8 `json:"п"`
	Ünï   bool    `json:"k"`
	Foo   struct {
		F215 bool
		X    int64
		Y    sp.UJU8 `json:",omitempty"`
	}
	Name uint `json:"0"`
	Ss   struct {
		KSs   uint16   `json:",string"`
		Ss    []uint16 `json:"k"`
		Größe int64    `json:",foo"`
		X     [7]any   `json:"$"`
		uID   int32
		ID    struct {
			Value sp.NU64 `json:"-"`
			C     float64
			Ünï   sp.RLinks `json:"long_tag_name_for_matching"`
			Bar   sp.NU8    `json:"dotted.name"`
			Foo5  sp.UJArr
			ID    struct{} `json:"größe"`
			Foo   uint     `json:"Kelvin"`
			D     sp.UTI8
			Name  sp.UJMap `json:","`
		} `json:"-,"`
	} `json:","`
	B25 *json.Number
}

type G42 map[sp.NU8][7][3]sp.UJMap

type G43 map[sp.KTInt]map[sp.KT][]sp.RB

type G44 []map[string]struct{}

type G45 *jd.Number

type G45R *json.Number

type G46 []map[sp.NInt]struct {
	X23    float32
	Value9 *sp.RSliceMap  `json:"名前"`
	F2     sp.RSliceSlice `json:"größe"`
	uY     int32
	Y      map[sp.KT]sp.NBool `json:",omitempty"`
	C      struct {
		BarBaz jd.Number `json:"-"`
		A      int16
	} `json:",string,omitempty"`
	B struct {
		A                 struct{} `json:",foo"`
		Value5            sp.RArr
		Kk                sp.UJArr
		Ünï               sp.UTStr `json:"foo"`
		Y                 any
		KSs               uint16 `json:",foo"`
		Name              sp.UJF
		LongFieldNameHere net.IP
		C                 int32 `json:"x/y,string"`
	} `json:"-"`
	Ünï25  uint `json:"-"`
	uBar12 int32
	Bar12  any `json:",omitempty"`
	Foo    sp.NU8
}

type G46R []map[sp.NInt]struct {
	X23    float32
	Value9 *sp.RSliceMap  `json:"名前"`
	F2     sp.RSliceSlice `json:"größe"`
	uY     int32
	Y      map[sp.KT]sp.NBool `json:",omitempty"`
	C      struct {
		BarBaz json.Number `json:"-"`
		A      int16
	} `json:",string,omitempty"`
	B struct {
		A                 struct{} `json:",foo"`
		Value5            sp.RArr
		Kk                sp.UJArr
		Ünï               sp.UTStr `json:"foo"`
		Y                 any
		KSs               uint16 `json:",foo"`
		Name              sp.UJF
		LongFieldNameHere net.IP
		C                 int32 `json:"x/y,string"`
	} `json:"-"`
	Ünï25  uint `json:"-"`
	uBar12 int32
	Bar12  any `json:",omitempty"`
	Foo    sp.NU8
}

type G47 [][][]int32

type G48 []uint64

type G49 map[sp.KTStr][7]map[int]sp.UBoth

type G50 *struct{}

type G51 struct {
	LongFieldNameHere float32 `json:"größe,string"`
	C17               struct {
		BarBaz uint32 `json:"with space"`
	} `json:"foo"`
	Bar9 sp.UJPtrs `json:"-"`
	Foo  struct {
		B    jd.Number `json:"-"`
		Name uint8     `json:"Kelvin,string"`
	} `json:"long_tag_name_for_matching"`
	A *struct {
		LongFieldNameHere int16    `json:",foo"`
		Name20            int      `json:","`
		Ss                struct{} `json:"-,"`
	} `json:"名前"`
}

type G51R struct {
	LongFieldNameHere float32 `json:"größe,string"`
	C17               struct {
		BarBaz uint32 `json:"with space"`
	} `json:"foo"`
	Bar9 sp.UJPtrs `json:"-"`
	Foo  struct {
		B    json.Number `json:"-"`
		Name uint8       `json:"Kelvin,string"`
	} `json:"long_tag_name_for_matching"`
	A *struct {
		LongFieldNameHere int16    `json:",foo"`
		Name20            int      `json:","`
		Ss                struct{} `json:"-,"`
	} `json:"名前"`
}

type G52 [2]map[uint16]any

type G53 map[sp.NU8]any

type G54 []uint16

type G55 struct {
	D struct {
		Type struct {
			BarBaz            int16 `json:"-"`
			D                 uint8
			LongFieldNameHere sp.NI16 `json:"foo_bar"`
			Value             sp.UJPtrs
			Value29           sp.NI16
			Y                 float32 `json:"Kelvin"`
			Bar               jd.Number
			Ünï               any `json:",omitempty,string"`
		}
	} `json:"s"`
}

type G55R struct {
	D struct {
		Type struct {
			BarBaz            int16 `json:"-"`
			D                 uint8
			LongFieldNameHere sp.NI16 `json:"foo_bar"`
			Value             sp.UJPtrs
			Value29           sp.NI16
			Y                 float32 `json:"Kelvin"`
			Bar               json.Number
			Ünï               any `json:",omitempty,string"`
		}
	} `json:"s"`
}

type G56 []float32

type G57 map[sp.KTArr]sp.RPSl

type G58 []map[uint16]jd.Number

type G58R []map[uint16]json.Number

type G59 *map[string]*string

type G60 [][]map[uint32]struct{}

type G61 *struct{ Data9 any }

type G62 struct {
	B *uint64 `json:","`
	A sp.NEmp
}

type G63 struct{}

type G64 struct {
	B []sp.NF32 `json:"s,string"`
	D [2]map[sp.NInt]uint64
}

type G65 struct {
	D       *[]map[int8]sp.UTMap `json:"mixedCase"`
	Y       [7][]uint32          `json:",string,omitempty"`
	Value   struct{}             `json:"$"`
	Name    map[uint16][]map[int32]int
	Größe16 *struct {
		LongFieldNameHere10 sp.NF64 `json:",foo"`
	}
	Ünï [4]struct {
		BarBaz [4]sp.UBoth `json:","`
		X      float64     `json:"0"`
		Data   sp.NI8
		KSs    sp.RSliceSlice
		Ss     int8
		Ünï    uint64
		Name3  [7]float64
		Foo    struct {
			A                  sp.NBool
			F1                 uint8
			Foo                uint `json:"-"`
			Value              uint32
			C                  uint64
			C17                int16
			Ünï                sp.RC
			LongFieldNameHere8 int64    `json:"é"`
			BarBaz             struct{} `json:",omitempty"`
		} `json:"-"`
		C uint32
	} `json:"п,string"`
}

type G66 []sp.RMany

type G67 struct {
	Kk uint8
	X  struct {
		Value int     `json:"s"`
		A     float64 `json:",string"`
	} `json:"foo_bar"`
	D struct {
		C9 struct {
			ID    uint
			Kk    int `json:","`
			Bar16 int
			C     uint32 `json:"x/y"`
		} `json:"id"`
		Value struct{}
		B     sp.NSS `json:"0"`
		Foo   bool   `json:"UPPER"`
	} `json:"-"`
}

type G68 [2]*int64

type G69 [0]sp.RBig

type G70 sp.RSliceMap

type G71 map[int64]map[sp.KT]map[int16]int32

type G72 struct {
	Name struct {
		C      int
		ID     struct{} `json:"-,"`
		BarBaz int32
	} `json:"foo_bar"`
	D   []int64 `json:"größe"`
	Ss  uint    `json:"п"`
	B25 struct {
		Foo int16
		C   any `json:"id"`
	} `json:"mixedCase,string,omitempty"`
	Bar   *map[sp.KTStr]float32 `json:",foo"`
	KSs   []int16               `json:"dotted.name"`
	Größe struct {
		Data1 [4]sp.UTF `json:"-"`
		Value any
		ID    map[string]string `json:",omitempty"`
		F1    struct {
			Foo int32 `json:"-"`
		} `json:",omitempty"`
		KSs28 bool `json:"-"`
		Type  int32
		C     uint16
		B     [2]sp.NF32 `json:"-"`
		Foo2  [4]struct{}
	}
	Ünï *int `json:"UPPER"`
}

type G73 **map[int64]float32

type G74 struct {
	LongFieldNameHere struct {
		A    struct{ ID uint64 } `json:",omitempty"`
		B    int64               `json:",omitempty"`
		KSs  uint16
		Ünï  int16
		Name uint8             `json:",foo"`
		Type map[string]uint16 `json:"-"`
	} `json:"x/y"`
}

type G75 map[sp.NStr][1]struct {
	Data sp.NMap `json:"Kelvin"`
	Y    *int16  `json:"$,omitempty,string"`
	B18  sp.RTextKey
	Ss   uint64    `json:"with space,string"`
	KSs  [1]uint16 `json:","`
	Ünï  sp.UT     `json:","`
	ID   sp.UTEmpty
	C    [4]jd.Number `json:"п"`
}

type G75R map[sp.NStr][1]struct {
	Data sp.NMap `json:"Kelvin"`
	Y    *int16  `json:"$,omitempty,string"`
	B18  sp.RTextKey
	Ss   uint64    `json:"with space,string"`
	KSs  [1]uint16 `json:","`
	Ünï  sp.UT     `json:","`
	ID   sp.UTEmpty
	C    [4]json.Number `json:"п"`
}

type G76 *struct {
	X       [1]sp.UJStr `json:"п,string"`
	A       int32       `json:"s"`
	Value16 map[uint8]sp.UTMap
}

type G77 struct {
	uX int32
	X  struct {
		LongFieldNameHere uint8 `json:"Kelvin,omitempty,string"`
		Data              any   `json:"dotted.name"`
		Value             sp.RA
		D                 sp.UTEmpty    `json:",foo"`
		Kk                sp.UJBool     `json:"-,"`
		KSs               *int64        `json:"mixedCase,string,omitempty"`
		B                 sp.NU8        `json:",omitempty,string"`
		F2                map[int64]any `json:",omitempty"`
		Ünï28             struct {
			Größe10 uint32 `json:"foo_bar"`
		} `json:",string,omitempty"`
	}
	BarBaz0 [7]struct{}
}

type G78 struct {
	D20 struct {
		Foo1 sp.RSlice `json:"foo"`
		Y27  struct {
			Ss   sp.NI16
			Data sp.NI8 `json:"foo"`
			F1   float64
			Kk   int32
		} `json:"k"`
	} `json:"mixedCase"`
	LongFieldNameHere12 struct {
		BarBaz            map[int8][]json.RawMessage
		LongFieldNameHere sp.UJF `json:"dotted.name"`
		B                 [0]struct {
			Data               string    `json:",string"`
			Kk                 sp.ROuter `json:"a"`
			LongFieldNameHere3 uint8     `json:",foo"`
		}
	}
}

type G79 struct {
	Type struct {
		F1 sp.RPtr `json:"long_tag_name_for_matching"`
	}
	KSs jd.Number `json:"-"`
}

type G79R struct {
	Type struct {
		F1 sp.RPtr `json:"long_tag_name_for_matching"`
	}
	KSs json.Number `json:"-"`
}

type G80 map[string][][0]sp.RUnm

type G81 []*[][]sp.UJEmpty

type G82 [][]struct {
	uName int32
	Name  net.IP  `json:"-"`
	F1    big.Int `json:"F1"`
	B     struct {
		Ünï sp.NMap `json:"-"`
	} `json:"id"`
	Value19 struct {
		ID      uint64
		Value   int64
		Value20 sp.NMap
		KSs     int
	}
	C    sp.NSl `json:"kebab-case,string"`
	Data int8
}

type G83 map[sp.NStr]sp.NBool

type G84 struct {
	Größe map[sp.NStr]map[uint32]int16 `json:"s"`
	A     jd.Number                    `json:"kebab-case"`
	Value [2]*sp.NSl                   `json:"UPPER"`
	Data  struct {
		Kk     uint64
		Type   sp.NU64 `json:"foo"`
		Ss     int32
		Type25 sp.UJArr `json:"名前"`
		Foo    uint64
		BarBaz []int `json:"s"`
		Bar    bool
		uX     int32
		X      map[uint16]sp.NI16 `json:"größe"`
	}
}

type G84R struct {
	Größe map[sp.NStr]map[uint32]int16 `json:"s"`
	A     json.Number                  `json:"kebab-case"`
	Value [2]*sp.NSl                   `json:"UPPER"`
	Data  struct {
		Kk     uint64
		Type   sp.NU64 `json:"foo"`
		Ss     int32
		Type25 sp.UJArr `json:"名前"`
		Foo    uint64
		BarBaz []int `json:"s"`
		Bar    bool
		uX     int32
		X      map[uint16]sp.NI16 `json:"größe"`
	}
}

type G85 *[]map[uint8]struct {
	uBarBaz8 int32
	BarBaz8  uint16
	B        uint
	Data     float64 `json:"kebab-case"`
	Name     uint16  `json:"s"`
	Foo      uint8
	uB17     int32
	B17      uint `json:"0"`
	Bar      bool
	Y17      sp.UJPtrs `json:"a"`
}

type G86 [2]struct {
	Value  uint16 `json:","`
	F2     struct{}
	BarBaz *float64           `json:",omitempty,string"`
	Type   map[sp.NU8]sp.NF32 `json:"Kelvin"`
	Value3 uint8              `json:"-"`
	KSs17  struct {
		F223 sp.UJMap `json:"s"`
		Bar  int64    `json:"dotted.name"`
		ID   sp.NSl
		F29  uint64 `json:"-,string"`
	}
	Größe18 []float64
	F1      sp.NSS `json:"dotted.name"`
}

type G87 struct {
	F2 []struct {
		F1   uint64 `json:"kebab-case"`
		X    any    `json:"é"`
		KSs  string `json:"k"`
		Name string `json:"s,string"`
		C    int
		uA   int32
		A    uint8 `json:",foo"`
	} `json:"mixedCase"`
	C                 []map[string]int8
	F12               int64 `json:"größe"`
	X                 []struct{ Bar string }
	Ünï               jd.Number
	LongFieldNameHere *map[uint16]jd.Number `json:"-,"`
}

type G87R struct {
	F2 []struct {
		F1   uint64 `json:"kebab-case"`
		X    any    `json:"é"`
		KSs  string `json:"k"`
		Name string `json:"s,string"`
		C    int
		uA   int32
		A    uint8 `json:",foo"`
	} `json:"mixedCase"`
	C                 []map[string]int8
	F12               int64 `json:"größe"`
	X                 []struct{ Bar string }
	Ünï               json.Number
	LongFieldNameHere *map[uint16]json.Number `json:"-,"`
}

type G88 *struct {
	Foo               int64
	KSs               bool `json:","`
	LongFieldNameHere any
}

type G89 **struct {
	BarBaz19 uint32            `json:"id"`
	Bar      map[string]sp.NU8 `json:",omitempty"`
	Data15   sp.RSib           `json:"-"`
	BarBaz   uint32            `json:"x/y"`
}

type G90 struct {
	ID  sp.UTI8
	Ünï uint64
	Y   uint64
}

type G91 struct{ Foo **sp.NStr }

type G92 struct {
	Größe17 map[int]*[]int8 `json:",foo"`
	F2      []sp.UJPtrs
	A0      int16
	Foo     struct {
		X      []sp.NI16
		KSs    int64 `json:",foo"`
		BarBaz struct {
			Bar    int64
			Kk     sp.RSliceSlice `json:"-,"`
			X      sp.NI8
			Kk27   sp.UTEmpty
			BarBaz sp.UTI8
			Name   int32 `json:"-"`
			Y16    sp.UJInt
			Value  uint8
			Größe  uint16
		}
		F2   sp.RC `json:"п"`
		D2   map[uint]int8
		Kk   *sp.UT
		ID26 sp.UBoth `json:"$"`
		ID   int
		D    sp.RAny
	} `json:"0"`
	Ünï6 **sp.UT
}

type G93 [4]struct {
	Name int16
	Foo  map[uint16]sp.NStr `json:"a"`
	Ss   [0]float32         `json:","`
}

type G94 struct {
	F2 struct {
		Kk uint64
		Ss struct {
			F2                 float64  `json:"-,"`
			Ss                 struct{} `json:"id"`
			LongFieldNameHere5 uint8
		} `json:"名前"`
	}
	BarBaz map[string]struct {
		Type2  map[int32]sp.RTag
		BarBaz struct {
			Kk  sp.NInt `json:"-,"`
			uSs int32
			Ss  sp.NSl `json:"dotted.name"`
		}
		Bar1 struct {
			BarBaz            uint32  `json:",omitempty,string"`
			Kk18              bool    `json:"UPPER"`
			LongFieldNameHere float32 `json:"dotted.name"`
			X18               int32   `json:"é"`
		}
	}
}

type G95 *[]map[int32]float32

type G96 struct{ Größe map[sp.NStr]map[int8]sp.UJInt }

type G97 []struct {
	C any `json:"foo_bar"`
}

type G98 jd.Number

type G98R json.Number

type G99 *map[string]struct{}

type G100 *struct {
	Ünï [4]uint64
	F2  *int `json:"F2"`
	F1  sp.RSliceSlice
}

type G101 map[int16]*[][4]int16

type G102 map[int]map[string][]struct {
	ID   sp.UJ `json:"mixedCase"`
	Type sp.RTwo
	Y    float64 `json:"Type,string"`
	Ss27 any
	X    uint `json:"foo,omitempty,string"`
	D20  any
	Name int32 `json:"п,string"`
	Foo  uint  `json:"dotted.name"`
	ID15 uint32
}

type G103 struct {
	F1 struct {
		Ünï                 int16  `json:",string"`
		KSs24               int32  `json:",string"`
		LongFieldNameHere13 uint32 `json:"-,"`
	} `json:"kebab-case"`
	Value *[]any `json:"with space"`
	B     map[int16]struct {
		F2                json.RawMessage
		Kk                sp.RPSl `json:"foo"`
		Ss21              sp.RStrTag
		Type              int32     `json:"-,"`
		Ünï               float64   `json:"x/y"`
		B25               sp.NSS    `json:"-"`
		LongFieldNameHere sp.UJBool `json:"a"`
		Y                 struct{}  `json:"UPPER"`
		C                 int32     `json:","`
	} `json:"$"`
	Bar struct {
		KSs21 struct {
			F10 any `json:"mixedCase"`
		}
		Größe7  sp.UTStr `json:"0"`
		B       [2]float32
		Value   uint64
		Y       any
		Größe11 sp.NF32 `json:"0"`
		F1      uint16  `json:"名前"`
		ID      any     `json:"foo_bar"`
	} `json:"k"`
	ID [2]struct {
		KSs  string `json:"s"`
		Data any    `json:"-"`
		Ss1  sp.NSS
	} `json:"-"`
}

type G104 struct {
	Kk     []time.Time `json:"-"`
	uGröße int32
	Größe  string
	F1     *sp.RSliceFirst
	A      *struct {
		LongFieldNameHere5 uint64 `json:"п"`
	} `json:"foo_bar"`
	BarBaz15 sp.UJF `json:"п"`
}

type G105 map[uint]struct{ B11 *big.Int }

type G106 struct {
	D struct {
		ID20 struct {
			Value int32 `json:"größe"`
		} `json:","`
		A   *jd.Number
		Ünï uint32 `json:"$"`
		Y   struct {
			Größe2 struct{} `json:"kebab-case"`
			X      sp.UJF
			Ss     sp.NSS `json:"id"`
		}
		Bar uint32
		Ss1 struct {
			Name              int16  `json:"foo_bar,string"`
			Data              sp.NSl `json:"名前,string"`
			Größe             string
			Type              uint64 `json:"-"`
			LongFieldNameHere uint16 `json:"mixedCase,string"`
		}
	} `json:"$"`
	ID  []string
	C18 *sp.UJU8              `json:",omitempty"`
	F1  struct{ D sp.UTBool } `json:"kebab-case,string"`
	Kk  map[sp.NInt]any
	F2  struct {
		Größe uint16 `json:"0"`
		Bar   sp.RB  `json:"long_tag_name_for_matching"`
		Ünï   int16
	} `json:"-,"`
}

type G106R struct {
	D struct {
		ID20 struct {
			Value int32 `json:"größe"`
		} `json:","`
		A   *json.Number
		Ünï uint32 `json:"$"`
		Y   struct {
			Größe2 struct{} `json:"kebab-case"`
			X      sp.UJF
			Ss     sp.NSS `json:"id"`
		}
		Bar uint32
		Ss1 struct {
			Name              int16  `json:"foo_bar,string"`
			Data              sp.NSl `json:"名前,string"`
			Größe             string
			Type              uint64 `json:"-"`
			LongFieldNameHere uint16 `json:"mixedCase,string"`
		}
	} `json:"$"`
	ID  []string
	C18 *sp.UJU8              `json:",omitempty"`
	F1  struct{ D sp.UTBool } `json:"kebab-case,string"`
	Kk  map[sp.NInt]any
	F2  struct {
		Größe uint16 `json:"0"`
		Bar   sp.RB  `json:"long_tag_name_for_matching"`
		Ünï   int16
	} `json:"-,"`
}

type G107 [][][7]sp.ROuter

type G108 map[uint8]*any

type G109 map[sp.NInt]sp.NF32

type G110 struct {
	Name [7][]struct {
		LongFieldNameHere19 uint16 `json:"foo"`
		Kk                  int8
		A                   float64 `json:","`
		Foo                 any
		C                   sp.NInt
		Data                string `json:"id"`
		Type28              sp.UJEmpty
		Ss                  struct{}
		D                   uint16
	} `json:"mixedCase"`
	F1 **[]sp.NI16 `json:",string"`
}

type G111 map[sp.NInt][7]*uint64

type G112 map[string]time.Time

type G113 []struct {
	Bar uint16 `json:"dotted.name,string,omitempty"`
}

type G114 *[]sp.UTArr

type G115 map[sp.KT][][1]bool

type G116 [][2][3]struct {
	Type   uint
	Data14 sp.NSS `json:"п"`
	C      int64
}

type G117 map[sp.KTArr]uint32

type G118 map[uint32]map[uint16]map[uint64]int64

type G119 struct {
	Ünï   map[int16][]int16
	Value []sp.UJ `json:",string"`
	Foo   struct {
		Kk1    []uint `json:"foo"`
		Ss14   int    `json:",foo"`
		X      uint64
		A      map[uint32]sp.UTArr `json:"größe"`
		Größe  sp.RSlice
		BarBaz sp.NI8    `json:",foo"`
		Data9  int32     `json:"x/y"`
		Data17 jd.Number `json:"-"`
	} `json:"with space"`
}

type G119R struct {
	Ünï   map[int16][]int16
	Value []sp.UJ `json:",string"`
	Foo   struct {
		Kk1    []uint `json:"foo"`
		Ss14   int    `json:",foo"`
		X      uint64
		A      map[uint32]sp.UTArr `json:"größe"`
		Größe  sp.RSlice
		BarBaz sp.NI8      `json:",foo"`
		Data9  int32       `json:"x/y"`
		Data17 json.Number `json:"-"`
	} `json:"with space"`
}

type G120 struct {
	uLongFieldNameHere int32
	LongFieldNameHere  []any
	Data               map[string]struct{ ID sp.RPP } `json:"UPPER"`
	F26                []sp.RUnm                      `json:",omitempty,string"`
	Y26                *struct {
		LongFieldNameHere0 float64
		Bar                bool
		Data               float32   `json:"long_tag_name_for_matching,string"`
		Type               sp.UTBool `json:"with space"`
		BarBaz             float64   `json:"a"`
	}
	BarBaz struct{} `json:"-"`
}

type G121 [1]uint32

type G122 []float64

type G123 struct {
	ID  map[uint16]any `json:",string"`
	Ünï [2][1]any
	F1  struct {
		X     jd.Number
		Value struct {
			ID                uint16   `json:"with space,string"`
			F2                uint32   `json:","`
			F13               struct{} `json:",string"`
			Y                 int
			LongFieldNameHere sp.NU64
			Data              any
			Größe19           sp.UTArr `json:"é"`
			Kk                int32
			Name              struct{} `json:"long_tag_name_for_matching"`
		} `json:"foo_bar"`
		Bar0 map[int64]sp.UTF `json:"Kelvin"`
		D    struct{ F2 int } `json:"-"`
		KSs  sp.NInt          `json:"é"`
		Data struct {
			LongFieldNameHere25 sp.RTag `json:","`
			Größe               sp.UTEmpty
			BarBaz              float32
		}
	}
	Größe27 []int32    `json:"with space"`
	Data    [3]sp.RPSl `json:"k"`
	X       [][]uint   `json:"s"`
	Value   struct {
		C struct {
			Ss     int16
			BarBaz bool `json:"-"`
			Ünï    jd.Number
			Bar    int `json:"Ss"`
		}
	} `json:"foo"`
	A *struct {
		F1 uint16
		A  uint
	} `json:",foo"`
}

type G123R struct {
	ID  map[uint16]any `json:",string"`
	Ünï [2][1]any
	F1  struct {
		X     json.Number
		Value struct {
			ID                uint16   `json:"with space,string"`
			F2                uint32   `json:","`
			F13               struct{} `json:",string"`
			Y                 int
			LongFieldNameHere sp.NU64
			Data              any
			Größe19           sp.UTArr `json:"é"`
			Kk                int32
			Name              struct{} `json:"long_tag_name_for_matching"`
		} `json:"foo_bar"`
		Bar0 map[int64]sp.UTF `json:"Kelvin"`
		D    struct{ F2 int } `json:"-"`
		KSs  sp.NInt          `json:"é"`
		Data struct {
			LongFieldNameHere25 sp.RTag `json:","`
			Größe               sp.UTEmpty
			BarBaz              float32
		}
	}
	Größe27 []int32    `json:"with space"`
	Data    [3]sp.RPSl `json:"k"`
	X       [][]uint   `json:"s"`
	Value   struct {
		C struct {
			Ss     int16
			BarBaz bool `json:"-"`
			Ünï    json.Number
			Bar    int `json:"Ss"`
		}
	} `json:"foo"`
	A *struct {
		F1 uint16
		A  uint
	} `json:",foo"`
}

type G124 []map[sp.KT]sp.UJBool

type G125 [2][]sp.NStr

type G126 sp.UJPtrs

type G127 struct {
	A     uint `json:"0"`
	Value [][]int
	F1    sp.RPtrSlice
}

type G128 *[]struct {
	A  map[uint8]bool
	ID []float32 `json:"-"`
}

type G129 struct{ Y bool }

type G130 []struct{}

type G131 [1]struct{}

type G132 struct{}

type G133 []struct {
	uB5  int32
	B5   []struct{}
	Foo9 jd.Number
}

type G133R []struct {
	uB5  int32
	B5   []struct{}
	Foo9 json.Number
}

type G134 []struct {
	F2      sp.NBool
	A       sp.NF64 `json:"-,"`
	Kk      jd.Number
	Value23 int64
	KSs     uint64 `json:"-"`
}

type G134R []struct {
	F2      sp.NBool
	A       sp.NF64 `json:"-,"`
	Kk      json.Number
	Value23 int64
	KSs     uint64 `json:"-"`
}

type G135 map[string][]map[sp.NInt][4]float32

type G136 map[sp.KT]struct {
	Y26  sp.NInt `json:"-,string"`
	Name sp.NF32 `json:",foo"`
	A    []sp.NI16
}

type G137 struct{}

type G138 map[int64]struct {
	KSs21             map[sp.KTStr]float64
	LongFieldNameHere int8
}

type G139 struct {
	F2   int8 `json:"-"`
	Name struct {
		Größe map[uint16]uint32
		X     map[sp.NInt]sp.RLinks `json:"id"`
		A     jd.Number             `json:"-"`
		Ss    uint16
		Bar   jd.Number `json:"größe"`
		ID    uint8
	}
}

type G139R struct {
	F2   int8 `json:"-"`
	Name struct {
		Größe map[uint16]uint32
		X     map[sp.NInt]sp.RLinks `json:"id"`
		A     json.Number           `json:"-"`
		Ss    uint16
		Bar   json.Number `json:"größe"`
		ID    uint8
	}
}

type G140 struct {
	Data uint8
	uSs  int32
	Ss   [4]struct {
		Ünï  sp.NI16
		A    sp.UTStr `json:"id"`
		Ss19 uint64   `json:"$"`
		Kk3  sp.NInt  `json:",string"`
		Foo  any
	} `json:"-"`
}

type G141 struct {
	Ünï23  []int16 `json:"a"`
	Y10    bool    `json:"0"`
	F215   map[uint]sp.NEmp
	D      map[string]map[string]string
	Name27 []*int16 `json:"kebab-case"`
}

type G142 *map[int32][2][3]uint16

type G143 map[uint16]struct {
	BarBaz map[int16]struct{} `json:"größe"`
	Ss9    uint64             `json:",string"`
	uFoo   int32
	Foo    any
	Bar    sp.NU8   `json:",omitempty"`
	B      sp.UTMap `json:"Bar"`
	Value  int32    `json:"$"`
	Y17    sp.NInt  `json:"foo"`
	F2     sp.NI16  `json:"0"`
}

type G144 map[string]struct{}

type G145 struct {
	Type    map[sp.NInt]sp.UTStr `json:"-"`
	Größe15 sp.UJEmpty
	Größe   [1]sp.UJPtrs `json:"mixedCase,omitempty,string"`
	Value   map[uint32]sp.NF32
	KSs     *[]any
	D       map[sp.KTInt]*sp.ROuter
	uID     int32
	ID      map[uint16]jd.Number `json:"k"`
	C       struct {
		LongFieldNameHere uint64 `json:"п"`
		Ünï               uint32
		Foo               sp.RPMap
	}
}

type G145R struct {
	Type    map[sp.NInt]sp.UTStr `json:"-"`
	Größe15 sp.UJEmpty
	Größe   [1]sp.UJPtrs `json:"mixedCase,omitempty,string"`
	Value   map[uint32]sp.NF32
	KSs     *[]any
	D       map[sp.KTInt]*sp.ROuter
	uID     int32
	ID      map[uint16]json.Number `json:"k"`
	C       struct {
		LongFieldNameHere uint64 `json:"п"`
		Ünï               uint32
		Foo               sp.RPMap
	}
}

type G146 sp.RMapFirst

type G147 [4]struct {
	X     jd.Number
	Größe [2]any
	Name  *int32 `json:"k"`
	ID    uint32 `json:"mixedCase"`
	B     sp.NSl
}

type G147R [4]struct {
	X     json.Number
	Größe [2]any
	Name  *int32 `json:"k"`
	ID    uint32 `json:"mixedCase"`
	B     sp.NSl
}

type G148 struct {
	Kk13  [][]sp.UJF                   `json:"-,"`
	Foo29 map[sp.KTArr]map[sp.NU8]int8 `json:",omitempty,string"`
	KSs7  [7]float64
	B     struct {
		C     bool    `json:",omitempty"`
		Type  float32 `json:",omitempty,string"`
		Value int     `json:",string"`
		X     bool    `json:",omitempty,string"`
		Name  uint16  `json:"s"`
		F1    int16   `json:"-"`
	} `json:"k"`
	KSs [7]string
}

type G149 [][][4]uint64

type G150 *struct {
	B                 int8            `json:"a"`
	C17               []any           `json:","`
	BarBaz3           json.RawMessage `json:"x/y"`
	LongFieldNameHere sp.RSib         `json:","`
}

type G151 [][4]struct {
	X   int8 `json:",string"`
	uKk int32
	Kk  int32 `json:"0"`
}

type G152 []struct {
	KSs   sp.UTMap
	B     []sp.NU8
	Value bool       `json:"id"`
	Größe sp.UJEmpty `json:"long_tag_name_for_matching"`
}

type G153 struct {
	Kk     int32 `json:"foo_bar,string"`
	Value1 time.Time
	Data   [1]string `json:",foo"`
}

type G154 struct {
	Value13 map[int32]uint8 `json:"dotted.name"`
	BarBaz  float32         `json:"kebab-case"`
}

type G155 []map[uint32][4][]string

type G156 map[sp.KTStr]map[uint]sp.UTMap

type G157 map[sp.KTArr]struct {
	B                 map[uint8]uint64 `json:"п"`
	Kk                sp.UTBool        `json:"id"`
	Data              float32          `json:",omitempty,string"`
	Y                 uint16
	F1                [2]int8
	A                 *sp.UTBool `json:"-"`
	Foo               [0]int16   `json:"foo_bar"`
	BarBaz            float32    `json:"s"`
	LongFieldNameHere struct{}   `json:"Kelvin"`
}

type G158 struct {
	uY     int32
	Y      []map[uint16]int8 `json:"größe"`
	BarBaz any               `json:",omitempty"`
	A      []int             `json:","`
}

type G159 *map[sp.KTArr]struct{}

type G160 map[int]uint8

type G161 jd.Number

type G161R json.Number

type G162 *map[int8]float32

type G163 map[sp.KT]sp.UJEmpty

type G164 struct {
	D                   []sp.NEmp        `json:",omitempty"`
	LongFieldNameHere27 [][]*uint16      `json:"0"`
	Name                map[uint64]*uint `json:"id"`
}

type G165 []map[uint]*int32

type G166 struct {
	B struct {
		Ünï  big.Int    `json:","`
		Data sp.RSibRec `json:"名前"`
		Bar  float64
	}
	C   map[string]sp.RPtr `json:"with space,omitempty,string"`
	Ünï map[int16]sp.NEmp  `json:"foo"`
}

type G167 struct {
	uFoo int32
	Foo  [][]jd.Number
}

type G167R struct {
	uFoo int32
	Foo  [][]json.Number
}

type G168 map[sp.NStr][][2]struct {
	Data uint32
	ID   uint32  `json:"-"`
	A    float32 `json:"x/y"`
	KSs  uint16  `json:"UPPER"`
	Type sp.NSl  `json:",foo"`
}

type G169 []**struct {
	Type              sp.NSl `json:"п"`
	KSs5              uint16 `json:"Kelvin"`
	LongFieldNameHere bool   `json:","`
}

type G170 struct{}

type G171 struct {
	Type1 int
	Value map[sp.NStr][2]int8 `json:"Kelvin"`
}

type G172 struct {
	Größe struct {
		BarBaz0 uint32          `json:"-"`
		Value   json.RawMessage `json:"Value"`
		uFoo    int32
		Foo     float64 `json:"é"`
	}
	F2   int8
	Type map[string]struct {
		C    string  `json:"-"`
		Type bool    `json:",string"`
		ID   sp.NF64 `json:"-"`
	}
	Type18 []*jd.Number
	Ünï    struct {
		Ss16  sp.UJEmpty `json:",foo"`
		F13   sp.UJInt   `json:"with space"`
		X     any
		Value uint
		Größe any   `json:"Größe"`
		Data  uint8 `json:"id"`
	}
	Kk []struct {
		D    int16 `json:"-,"`
		Name int32 `json:"п"`
		F1   uint  `json:"größe"`
	}
}

type G172R struct {
	Größe struct {
		BarBaz0 uint32          `json:"-"`
		Value   json.RawMessage `json:"Value"`
		uFoo    int32
		Foo     float64 `json:"é"`
	}
	F2   int8
	Type map[string]struct {
		C    string  `json:"-"`
		Type bool    `json:",string"`
		ID   sp.NF64 `json:"-"`
	}
	Type18 []*json.Number
	Ünï    struct {
		Ss16  sp.UJEmpty `json:",foo"`
		F13   sp.UJInt   `json:"with space"`
		X     any
		Value uint
		Größe any   `json:"Größe"`
		Data  uint8 `json:"id"`
	}
	Kk []struct {
		D    int16 `json:"-,"`
		Name int32 `json:"п"`
		F1   uint  `json:"größe"`
	}
}

type G173 [4]uint32

type G174 *map[string][2]float64

type G175 *struct {
	Größe25 []any
	C       uint16 `json:"名前,string"`
}

type G176 struct {
	C struct {
		Ünï    float32
		BarBaz sp.RMany
		C      string
	}
}

type G177 struct {
	Value struct {
		LongFieldNameHere sp.UJBool `json:"a"`
	}
	Data  map[int16]uint16 `json:"-"`
	Bar   int              `json:"-,"`
	D28   sp.NF64
	Größe float32 `json:"k"`
	A     [][]sp.UJInt
}

type G178 sp.RSelfU

type G179 map[int16]int

type G180 [4][]struct {
	Type     any `json:"Kelvin"`
	BarBaz22 sp.RPtrMap
}

type G181 [3]struct {
	BarBaz9 struct {
		Bar any `json:"x/y,string,omitempty"`
		Y   sp.NMap
	} `json:"-"`
	Bar                *int64 `json:",omitempty"`
	F1                 jd.Number
	Data               string
	LongFieldNameHere  int32
	LongFieldNameHere1 uint64 `json:"with space,string"`
}

type G181R [3]struct {
	BarBaz9 struct {
		Bar any `json:"x/y,string,omitempty"`
		Y   sp.NMap
	} `json:"-"`
	Bar                *int64 `json:",omitempty"`
	F1                 json.Number
	Data               string
	LongFieldNameHere  int32
	LongFieldNameHere1 uint64 `json:"with space,string"`
}

type G182 struct {
	F2 []struct {
		Größe jd.Number
		A     sp.NSS
		KSs   float64
		ID    uint64
	} `json:"-"`
	ID struct {
		F1    []string          `json:"п"`
		Größe map[uint]sp.UJStr `json:",omitempty,string"`
	}
	Type struct {
		D    int
		Kk   sp.NF64 `json:"Kelvin"`
		F1   sp.UJBool
		ID   int     `json:"-"`
		Type float64 `json:"a"`
		uC   int32
		C    bool  `json:"п"`
		Y    int64 `json:"D"`
		Kk9  uint
		F2   int8
	} `json:"s"`
}

type G182R struct {
	F2 []struct {
		Größe json.Number
		A     sp.NSS
		KSs   float64
		ID    uint64
	} `json:"-"`
	ID struct {
		F1    []string          `json:"п"`
		Größe map[uint]sp.UJStr `json:",omitempty,string"`
	}
	Type struct {
		D    int
		Kk   sp.NF64 `json:"Kelvin"`
		F1   sp.UJBool
		ID   int     `json:"-"`
		Type float64 `json:"a"`
		uC   int32
		C    bool  `json:"п"`
		Y    int64 `json:"D"`
		Kk9  uint
		F2   int8
	} `json:"s"`
}

type G183 [][][]uint64

type G184 []map[uint8]bool

type G185 [4]struct {
	Größe sp.UJU8 `json:"with space"`
	Ünï   struct {
		BarBaz uint64
		Type   sp.NF32
		A      sp.RUnm
		uGröße int32
		Größe  uint `json:"long_tag_name_for_matching"`
		Foo22  int  `json:"-"`
	}
	F2    []any   `json:"-"`
	ID    float64 `json:",string"`
	Ünï25 any     `json:"0"`
	Y1    sp.NSS  `json:"mixedCase"`
	C6    struct {
		Data sp.NMap
		Foo  float64 `json:"dotted.name"`
	} `json:"größe"`
	F1 int32
}

type G186 map[int32][]uint

type G187 []map[uint]*map[int]int

type G188 map[int64]struct {
	Ss15 struct {
		Name2 struct {
			ID15              jd.Number `json:"long_tag_name_for_matching"`
			LongFieldNameHere bool      `json:",string"`
			Kk26              bool      `json:"dotted.name"`
		}
		F2   struct{ LongFieldNameHere sp.RSliceMap }
		X    sp.RUnm `json:"F2"`
		Type uint16  `json:",omitempty"`
		Data struct {
			Ss26                bool `json:"0"`
			Type                any
			Kk27                struct{}
			D                   any       `json:",string"`
			Y7                  sp.NU64   `json:","`
			Ünï                 jd.Number `json:"0"`
			Y                   sp.UJU8   `json:"-"`
			LongFieldNameHere21 jd.Number
			Value               sp.NF32
		} `json:"п"`
		Ünï *struct{} `json:"id"`
		Bar sp.UJBool `json:"-"`
		KSs [7]int64  `json:"kebab-case"`
		D13 jd.Number `json:"mixedCase"`
	} `json:"Kelvin,omitempty,string"`
	F128 struct {
		Ss16 struct {
			Value  int8 `json:"-"`
			F2     uint16
			Data   jd.Number `json:"é"`
			ID17   int       `json:",omitempty"`
			Data27 sp.NF64
		} `json:"Kelvin"`
		D      time.Time
		F2     any               `json:"x/y"`
		X      map[uint]struct{} `json:"-"`
		Name   sp.RTwo
		Data13 string
	} `json:",string,omitempty"`
}

type G188R map[int64]struct {
	Ss15 struct {
		Name2 struct {
			ID15              json.Number `json:"long_tag_name_for_matching"`
			LongFieldNameHere bool        `json:",string"`
			Kk26              bool        `json:"dotted.name"`
		}
		F2   struct{ LongFieldNameHere sp.RSliceMap }
		X    sp.RUnm `json:"F2"`
		Type uint16  `json:",omitempty"`
		Data struct {
			Ss26                bool `json:"0"`
			Type                any
			Kk27                struct{}
			D                   any         `json:",string"`
			Y7                  sp.NU64     `json:","`
			Ünï                 json.Number `json:"0"`
			Y                   sp.UJU8     `json:"-"`
			LongFieldNameHere21 json.Number
			Value               sp.NF32
		} `json:"п"`
		Ünï *struct{}   `json:"id"`
		Bar sp.UJBool   `json:"-"`
		KSs [7]int64    `json:"kebab-case"`
		D13 json.Number `json:"mixedCase"`
	} `json:"Kelvin,omitempty,string"`
	F128 struct {
		Ss16 struct {
			Value  int8 `json:"-"`
			F2     uint16
			Data   json.Number `json:"é"`
			ID17   int         `json:",omitempty"`
			Data27 sp.NF64
		} `json:"Kelvin"`
		D      time.Time
		F2     any               `json:"x/y"`
		X      map[uint]struct{} `json:"-"`
		Name   sp.RTwo
		Data13 string
	} `json:",string,omitempty"`
}

type G189 map[sp.KTArr]struct {
	A                 *map[int]struct{}
	LongFieldNameHere []bool `json:"größe"`
	Ss                struct {
		Größe struct {
			D28    jd.Number
			Value  struct{} `json:"D28"`
			BarBaz int32    `json:"größe"`
		} `json:"-"`
	} `json:"long_tag_name_for_matching"`
}

type G189R map[sp.KTArr]struct {
	A                 *map[int]struct{}
	LongFieldNameHere []bool `json:"größe"`
	Ss                struct {
		Größe struct {
			D28    json.Number
			Value  struct{} `json:"D28"`
			BarBaz int32    `json:"größe"`
		} `json:"-"`
	} `json:"long_tag_name_for_matching"`
}

type G190 struct {
	F1     map[sp.NU8]sp.UTInt
	Größe  sp.RSliceFirst
	uBar11 int32
	Bar11  sp.UTStr
	KSs24  int64  `json:","`
	KSs    uint16 `json:"dotted.name"`
}

type G191 []struct{ Value [1]bool }

type G192 [3][]struct {
	Type int
	C    sp.NMap `json:"s"`
	Data uint16  `json:"п,omitempty,string"`
}

type G193 struct {
	F2     []float32 `json:"0"`
	Data24 struct {
		Data int64  `json:","`
		F1   uint64 `json:"x/y"`
		Foo  sp.NU8 `json:"Data,omitempty,string"`
		D    uint32 `json:"dotted.name"`
	}
	Value *uint8                  `json:"mixedCase"`
	Bar   map[uint][]sp.RPtrSlice `json:",string"`
}

type G194 struct {
	Kk struct {
		A                 uint32    `json:"-"`
		Value             sp.UTBool `json:"é"`
		LongFieldNameHere uint8
		Bar6              sp.RTextKey
		uValue22          int32
		Value22           float32
		Größe11           sp.UTArr `json:"foo_bar"`
	}
	Data [3]sp.RArrSlice `json:"foo"`
}

type G195 [1]sp.NU8

type G196 struct {
	Kk struct {
		BarBaz sp.UTInt        `json:"-"`
		Ünï    map[sp.NInt]any `json:",omitempty"`
		D      struct {
			C       int
			Value26 sp.NF32      `json:"kebab-case"`
			Ss      sp.NU8       `json:",omitempty"`
			Y       int          `json:"long_tag_name_for_matching"`
			Größe12 uint         `json:"a"`
			Ünï     sp.RPtrSlice `json:"-"`
			Größe27 jd.Number    `json:"-"`
			Kk      sp.UBoth     `json:"$"`
		} `json:",omitempty"`
		Data sp.NMap
		Type *sp.RPtr
		X13  sp.UJU8 `json:",omitempty"`
		KSs  any
		Ss   struct {
			Größe  float64
			BarBaz jd.Number
			Data14 bool `json:",string,omitempty"`
			Bar9   int16
			uY     int32
			Y      int     `json:"long_tag_name_for_matching"`
			Foo    sp.NMap `json:","`
			A      string  `json:"dotted.name"`
			F2     int8
		}
		C struct {
			Ünï   bool `json:"-"`
			ID    bool `json:"id"`
			Value bool `json:"a"`
		}
	} `json:","`
	Bar [3][7]float32     `json:"with space,string,omitempty"`
	F2  map[sp.NInt]*uint `json:"long_tag_name_for_matching"`
}

type G196R struct {
	Kk struct {
		BarBaz sp.UTInt        `json:"-"`
		Ünï    map[sp.NInt]any `json:",omitempty"`
		D      struct {
			C       int
			Value26 sp.NF32      `json:"kebab-case"`
			Ss      sp.NU8       `json:",omitempty"`
			Y       int          `json:"long_tag_name_for_matching"`
			Größe12 uint         `json:"a"`
			Ünï     sp.RPtrSlice `json:"-"`
			Größe27 json.Number  `json:"-"`
			Kk      sp.UBoth     `json:"$"`
		} `json:",omitempty"`
		Data sp.NMap
		Type *sp.RPtr
		X13  sp.UJU8 `json:",omitempty"`
		KSs  any
		Ss   struct {
			Größe  float64
			BarBaz json.Number
			Data14 bool `json:",string,omitempty"`
			Bar9   int16
			uY     int32
			Y      int     `json:"long_tag_name_for_matching"`
			Foo    sp.NMap `json:","`
			A      string  `json:"dotted.name"`
			F2     int8
		}
		C struct {
			Ünï   bool `json:"-"`
			ID    bool `json:"id"`
			Value bool `json:"a"`
		}
	} `json:","`
	Bar [3][7]float32     `json:"with space,string,omitempty"`
	F2  map[sp.NInt]*uint `json:"long_tag_name_for_matching"`
}

type G197 struct {
	A struct {
		Bar25             any
		Type              sp.UJStr   `json:"long_tag_name_for_matching"`
		Data              sp.RSibRec `json:"with space"`
		LongFieldNameHere sp.UJArr
		KSs8              int `json:",string"`
		ID                sp.NU8
		X                 uint64
		ID22              uint16
	}
	Name *[]sp.RAny `json:"mixedCase"`
}

type G198 *struct{ BarBaz map[int32]int }

type G199 map[uint64]map[int]struct {
	Type int32 `json:"-,string"`
}

type G200 struct {
	C    [3]sp.NEmp `json:"größe"`
	Ss10 struct {
		X   *uint16  `json:",string"`
		Bar *uint16  `json:"-"`
		F18 struct{} `json:"-"`
	} `json:"0"`
	ID map[sp.KTArr]struct {
		B     float32 `json:"x/y,omitempty,string"`
		Kk    sp.NI8
		A4    int16
		F1    uint32 `json:"A4"`
		Value string `json:"with space"`
		Größe int    `json:"-"`
		Ünï   int64
		Data  int64 `json:"A4"`
		Bar   int64
	}
}

type G201 [][]*sp.UJPtrs

type G202 []big.Int

type G203 [2]struct{}

type G204 []map[uint16]struct {
	KSs   sp.RC
	F111  int8 `json:",string"`
	D     int64
	Größe any    `json:",omitempty,string"`
	B     uint16 `json:"kebab-case"`
}

type G205 [4]struct {
	X10   int64 `json:"0,string"`
	Kk    *int16
	Foo23 []any `json:",omitempty,string"`
	Data  struct {
		KSs     sp.UJStr
		Type    float32
		Größe22 sp.NInt `json:"a"`
	} `json:"0"`
}

type G206 map[string]*map[sp.NU8][]sp.UTSlice

type G207 []*map[sp.KT]struct {
	Name   float32
	Größe5 sp.NEmp
	F12    string `json:",omitempty,string"`
}

type G208 map[sp.KTInt]struct {
	Type uint8 `json:",string"`
	Data uint  `json:"s"`
}

type G209 struct {
	F2  map[uint8]int32
	D4  *[]sp.RStrTag `json:"-"`
	X   *int64
	Ünï [0]uint8 `json:"k"`
	Foo struct{} `json:"-"`
}

type G210 []map[uint32]struct{}

type G211 []sp.UTMap

type G212 []map[uint]struct {
	B int8 `json:","`
}

type G213 map[uint64][]map[sp.KT]map[sp.KTArr]uint16

type G214 [][]map[string]map[int64]sp.UJ

type G215 struct {
	Name struct {
		Foo []sp.UJArr `json:",string"`
	}
	Größe [1]int    `json:"-,"`
	B18   **sp.NEmp `json:",string,omitempty"`
	Bar   sp.UTBool
}

type G216 struct{}

type G217 map[int16][]map[int64]string

type G218 struct {
	B3 struct {
		Größe int16   `json:"$"`
		F1    float64 `json:"dotted.name"`
		Y3    float64
	} `json:"$"`
	Bar  uint64
	Ss13 [][4]uint64 `json:",string"`
	C    struct {
		BarBaz3 [2]int32 `json:"名前"`
		uY      int32
		Y       *int8
		uID     int32
		ID      *jd.Number
	}
}

type G218R struct {
	B3 struct {
		Größe int16   `json:"$"`
		F1    float64 `json:"dotted.name"`
		Y3    float64
	} `json:"$"`
	Bar  uint64
	Ss13 [][4]uint64 `json:",string"`
	C    struct {
		BarBaz3 [2]int32 `json:"名前"`
		uY      int32
		Y       *int8
		uID     int32
		ID      *json.Number
	}
}

type G219 [][3]map[string]sp.RSliceSlice

type G220 []*map[sp.NU8]map[sp.NInt]int

type G221 [2]*struct {
	Type   sp.NU64
	C      int8 `json:",string"`
	uFoo12 int32
	Foo12  int64 `json:"größe,string"`
	Y      uint8
	A      uint64
	Name   uint
	Y11    struct{} `json:"-"`
	Foo    *sp.NI8  `json:"é"`
}

type G222 *struct {
	Ünï [0]int64
	Y10 struct {
		Ss   float64
		Foo  float64
		X    int64 `json:"Foo"`
		Name int8
		F2   uint8
		Ünï  int `json:"mixedCase"`
	}
}

type G223 struct {
	Data jd.Number `json:"-"`
}

type G223R struct {
	Data json.Number `json:"-"`
}

type G224 struct {
	Name struct {
		BarBaz json.RawMessage `json:"0"`
	} `json:"-"`
	KSs               map[sp.KTArr]uint
	X                 *map[string]any   `json:"UPPER"`
	Type20            map[uint64]uint32 `json:"foo"`
	Name9             bool              `json:","`
	LongFieldNameHere struct {
		Ss     any     `json:",omitempty,string"`
		Value7 sp.NMap `json:"é"`
		uD     int32
		D      sp.UJF
		C      any
		X      sp.UJF `json:"long_tag_name_for_matching"`
		Type   uint8  `json:"kebab-case"`
		F1     bool   `json:"Kelvin"`
		Größe  uint64
	} `json:"foo_bar"`
	Foo  sp.UJEmpty
	Type struct {
		ID  float64 `json:"s"`
		Ss  sp.NSS
		Foo sp.NF64 `json:"dotted.name"`
	}
	Ünï []jd.Number
}

type G224R struct {
	Name struct {
		BarBaz json.RawMessage `json:"0"`
	} `json:"-"`
	KSs               map[sp.KTArr]uint
	X                 *map[string]any   `json:"UPPER"`
	Type20            map[uint64]uint32 `json:"foo"`
	Name9             bool              `json:","`
	LongFieldNameHere struct {
		Ss     any     `json:",omitempty,string"`
		Value7 sp.NMap `json:"é"`
		uD     int32
		D      sp.UJF
		C      any
		X      sp.UJF `json:"long_tag_name_for_matching"`
		Type   uint8  `json:"kebab-case"`
		F1     bool   `json:"Kelvin"`
		Größe  uint64
	} `json:"foo_bar"`
	Foo  sp.UJEmpty
	Type struct {
		ID  float64 `json:"s"`
		Ss  sp.NSS
		Foo sp.NF64 `json:"dotted.name"`
	}
	Ünï []json.Number
}

type G225 struct{}

type G226 struct {
	LongFieldNameHere map[sp.KT]*big.Int `json:"long_tag_name_for_matching"`
}

type G227 [][][0]struct{}

type G228 struct {
	Kk27 map[string][]sp.UJ `json:"UPPER"`
	F226 any
	ID   *map[sp.NStr]*uint8    `json:"mixedCase"`
	C    [3]map[uint8]sp.UJBool `json:",omitempty"`
	Ss3  struct {
		F2   float64 `json:",omitempty"`
		X    bool
		uKSs int32
		KSs  *float32 `json:"k"`
		Data uint     `json:"п"`
	} `json:"foo_bar"`
	Type *sp.RSlice `json:"é"`
	Bar  struct {
		Ss   struct{ LongFieldNameHere3 time.Time } `json:",omitempty,string"`
		Data sp.NI8
		Ünï  int32 `json:"п,string"`
		Bar  *struct {
			Type sp.UTArr
			X    uint64
		} `json:"Kelvin"`
		C sp.NF64 `json:",omitempty"`
	} `json:"-,"`
	Kk map[int64]*sp.NU64
}

type G229 map[int16]struct {
	BarBaz26 sp.RLinks `json:"kebab-case"`
	Data     []sp.RAny
	Type     map[sp.NU8]struct{} `json:"k"`
	F2       struct {
		ID10 int       `json:"größe,omitempty,string"`
		D    jd.Number `json:"Kelvin"`
		Data int       `json:",string"`
		Bar  sp.NF64
		F1   sp.RSib `json:"x/y"`
		Kk   float64 `json:"-"`
	} `json:","`
	Ünï20  sp.UTArr           `json:"-"`
	KSs    sp.NSS             `json:"foo_bar"`
	BarBaz map[int64]sp.RPMap `json:"id"`
	Name   struct {
		Foo sp.NStr `json:",omitempty"`
	} `json:"-"`
	A []sp.NBool
}

type G229R map[int16]struct {
	BarBaz26 sp.RLinks `json:"kebab-case"`
	Data     []sp.RAny
	Type     map[sp.NU8]struct{} `json:"k"`
	F2       struct {
		ID10 int         `json:"größe,omitempty,string"`
		D    json.Number `json:"Kelvin"`
		Data int         `json:",string"`
		Bar  sp.NF64
		F1   sp.RSib `json:"x/y"`
		Kk   float64 `json:"-"`
	} `json:","`
	Ünï20  sp.UTArr           `json:"-"`
	KSs    sp.NSS             `json:"foo_bar"`
	BarBaz map[int64]sp.RPMap `json:"id"`
	Name   struct {
		Foo sp.NStr `json:",omitempty"`
	} `json:"-"`
	A []sp.NBool
}

type G230 [1]map[sp.NU8][][]int64

type G231 map[sp.NInt][][7]*float32

type G232 []map[sp.NInt]struct {
	Größe any `json:"id"`
	X     sp.NEmp
	Y26   any `json:",string"`
}

type G233 [4][7]uint16

type G234 struct {
	B     *int `json:",string"`
	Value struct {
		Ünï6 struct {
			ID  float64
			KSs any   `json:"mixedCase"`
			F1  int16 `json:"-"`
		} `json:"-"`
		uB0 int32
		B0  float64 `json:"-"`
		F20 int32
	} `json:"$"`
	C19 struct {
		X       uint32 `json:"long_tag_name_for_matching"`
		F1      sp.NInt
		ID      sp.NU8 `json:"名前"`
		uValue1 int32
		Value1  string `json:"kebab-case"`
		Data    uint32
	}
	Type struct {
		B    []jd.Number
		KSs6 struct {
			Kk   uint32     `json:"-"`
			Name sp.UJSlice `json:"$"`
		}
		LongFieldNameHere sp.UJEmpty
		Name              struct {
			Data uint64 `json:",string"`
			ID6  sp.NSl `json:",foo"`
			Foo  uint64 `json:"foo_bar,string"`
			Type uint   `json:"kebab-case"`
		} `json:"foo_bar"`
		X string `json:"s"`
	} `json:",foo"`
}

type G234R struct {
	B     *int `json:",string"`
	Value struct {
		Ünï6 struct {
			ID  float64
			KSs any   `json:"mixedCase"`
			F1  int16 `json:"-"`
		} `json:"-"`
		uB0 int32
		B0  float64 `json:"-"`
		F20 int32
	} `json:"$"`
	C19 struct {
		X       uint32 `json:"long_tag_name_for_matching"`
		F1      sp.NInt
		ID      sp.NU8 `json:"名前"`
		uValue1 int32
		Value1  string `json:"kebab-case"`
		Data    uint32
	}
	Type struct {
		B    []json.Number
		KSs6 struct {
			Kk   uint32     `json:"-"`
			Name sp.UJSlice `json:"$"`
		}
		LongFieldNameHere sp.UJEmpty
		Name              struct {
			Data uint64 `json:",string"`
			ID6  sp.NSl `json:",foo"`
			Foo  uint64 `json:"foo_bar,string"`
			Type uint   `json:"kebab-case"`
		} `json:"foo_bar"`
		X string `json:"s"`
	} `json:",foo"`
}

type G235 []struct {
	KSs               []int64 `json:"s"`
	LongFieldNameHere struct {
		Type map[sp.KTArr]sp.RTwo
		A    uint64
		B12  sp.NU8 `json:"A"`
		Bar  []float32
	} `json:"-"`
	uF2 int32
	F2  struct {
		Y    uint16      `json:"a"`
		X4   []struct{}  `json:"п"`
		F2   []sp.UTBool `json:",string"`
		KSs  sp.UTSlice
		F111 sp.UT `json:"F111"`
	}
	KSs28 struct {
		Ünï   int
		ID10  int16
		Größe float64
		Name  any `json:",omitempty"`
		Type6 sp.UJBool
		uF1   int32
		F1    sp.UJEmpty
	} `json:"kebab-case"`
	X [2]uint
}

type G236 [2]uint64

type G237 map[string]jd.Number

type G237R map[string]json.Number

type G238 struct {
	Value any `json:",omitempty,string"`
}

type G239 [0]struct {
	C struct {
		Ss float64 `json:"名前"`
	} `json:"a,omitempty,string"`
	Ünï    []int64
	Größe  uint64
	ID26   *uint32 `json:"s"`
	Value5 int32   `json:"-"`
}

func init() {
	hv.D[*G0]("*G0")
	hv.D[*G1]("*G1")
	hv.D[*G2]("*G2")
	hv.D[*G3]("*G3")
	hv.D[*G4]("*G4")
	hv.D[*G5]("*G5")
	hv.D[*G6]("*G6")
	hv.D[*G7]("*G7")
	hv.D[*G8]("*G8")
	hv.D[*G9]("*G9")
	hv.Reg[*G10, *G10R]("*G10")
	hv.D[*G11]("*G11")
	hv.D[*G12]("*G12")
	hv.D[*G13]("*G13")
	hv.D[*G14]("*G14")
	hv.Reg[*G15, *G15R]("*G15")
	hv.D[*G16]("*G16")
	hv.D[*G17]("*G17")
	hv.Reg[*G18, *G18R]("*G18")
	hv.D[*G19]("*G19")
	hv.D[*G20]("*G20")
	hv.D[*G21]("*G21")
	hv.D[*G22]("*G22")
	hv.D[*G23]("*G23")
	hv.D[*G24]("*G24")
	hv.D[*G25]("*G25")
	hv.D[*G26]("*G26")
	hv.D[*G27]("*G27")
	hv.D[*G28]("*G28")
	hv.D[*G29]("*G29")
	hv.Reg[*G30, *G30R]("*G30")
	hv.D[*G31]("*G31")
	hv.D[*G32]("*G32")
	hv.D[*G33]("*G33")
	hv.D[*G34]("*G34")
	hv.D[*G35]("*G35")
	hv.D[*G36]("*G36")
	hv.D[*G37]("*G37")
	hv.D[*G38]("*G38")
	hv.Reg[*G39, *G39R]("*G39")
	hv.D[*G40]("*G40")
	hv.Reg[*G41, *G41R]("*G41")
	hv.D[*G42]("*G42")
	hv.D[*G43]("*G43")
	hv.D[*G44]("*G44")
	hv.Reg[*G45, *G45R]("*G45")
	hv.Reg[*G46, *G46R]("*G46")
	hv.D[*G47]("*G47")
	hv.D[*G48]("*G48")
	hv.D[*G49]("*G49")
	hv.D[*G50]("*G50")
	hv.Reg[*G51, *G51R]("*G51")
	hv.D[*G52]("*G52")
	hv.D[*G53]("*G53")
	hv.D[*G54]("*G54")
	hv.Reg[*G55, *G55R]("*G55")
	hv.D[*G56]("*G56")
	hv.D[*G57]("*G57")
	hv.Reg[*G58, *G58R]("*G58")
	hv.D[*G59]("*G59")
	hv.D[*G60]("*G60")
	hv.D[*G61]("*G61")
	hv.D[*G62]("*G62")
	hv.D[*G63]("*G63")
	hv.D[*G64]("*G64")
	hv.D[*G65]("*G65")
	hv.D[*G66]("*G66")
	hv.D[*G67]("*G67")
	hv.D[*G68]("*G68")
	hv.D[*G69]("*G69")
	hv.D[*G70]("*G70")
	hv.D[*G71]("*G71")
	hv.D[*G72]("*G72")
	hv.D[*G73]("*G73")
	hv.D[*G74]("*G74")
	hv.Reg[*G75, *G75R]("*G75")
	hv.D[*G76]("*G76")
	hv.D[*G77]("*G77")
	hv.D[*G78]("*G78")
	hv.Reg[*G79, *G79R]("*G79")
	hv.D[*G80]("*G80")
	hv.D[*G81]("*G81")
	hv.D[*G82]("*G82")
	hv.D[*G83]("*G83")
	hv.Reg[*G84, *G84R]("*G84")
	hv.D[*G85]("*G85")
	hv.D[*G86]("*G86")
	hv.Reg[*G87, *G87R]("*G87")
	hv.D[*G88]("*G88")
	hv.D[*G89]("*G89")
	hv.D[*G90]("*G90")
	hv.D[*G91]("*G91")
	hv.D[*G92]("*G92")
	hv.D[*G93]("*G93")
	hv.D[*G94]("*G94")
	hv.D[*G95]("*G95")
	hv.D[*G96]("*G96")
	hv.D[*G97]("*G97")
	hv.Reg[*G98, *G98R]("*G98")
	hv.D[*G99]("*G99")
	hv.D[*G100]("*G100")
	hv.D[*G101]("*G101")
	hv.D[*G102]("*G102")
	hv.D[*G103]("*G103")
	hv.D[*G104]("*G104")
	hv.D[*G105]("*G105")
	hv.Reg[*G106, *G106R]("*G106")
	hv.D[*G107]("*G107")
	hv.D[*G108]("*G108")
	hv.D[*G109]("*G109")
	hv.D[*G110]("*G110")
	hv.D[*G111]("*G111")
	hv.D[*G112]("*G112")
	hv.D[*G113]("*G113")
	hv.D[*G114]("*G114")
	hv.D[*G115]("*G115")
	hv.D[*G116]("*G116")
	hv.D[*G117]("*G117")
	hv.D[*G118]("*G118")
	hv.Reg[*G119, *G119R]("*G119")
	hv.D[*G120]("*G120")
	hv.D[*G121]("*G121")
	hv.D[*G122]("*G122")
	hv.Reg[*G123, *G123R]("*G123")
	hv.D[*G124]("*G124")
	hv.D[*G125]("*G125")
	hv.D[*G126]("*G126")
	hv.D[*G127]("*G127")
	hv.D[*G128]("*G128")
	hv.D[*G129]("*G129")
	hv.D[*G130]("*G130")
	hv.D[*G131]("*G131")
	hv.D[*G132]("*G132")
	hv.Reg[*G133, *G133R]("*G133")
	hv.Reg[*G134, *G134R]("*G134")
	hv.D[*G135]("*G135")
	hv.D[*G136]("*G136")
	hv.D[*G137]("*G137")
	hv.D[*G138]("*G138")
	hv.Reg[*G139, *G139R]("*G139")
	hv.D[*G140]("*G140")
	hv.D[*G141]("*G141")
	hv.D[*G142]("*G142")
	hv.D[*G143]("*G143")
	hv.D[*G144]("*G144")
	hv.Reg[*G145, *G145R]("*G145")
	hv.D[*G146]("*G146")
	hv.Reg[*G147, *G147R]("*G147")
	hv.D[*G148]("*G148")
	hv.D[*G149]("*G149")
	hv.D[*G150]("*G150")
	hv.D[*G151]("*G151")
	hv.D[*G152]("*G152")
	hv.D[*G153]("*G153")
	hv.D[*G154]("*G154")
	hv.D[*G155]("*G155")
	hv.D[*G156]("*G156")
	hv.D[*G157]("*G157")
	hv.D[*G158]("*G158")
	hv.D[*G159]("*G159")
	hv.D[*G160]("*G160")
	hv.Reg[*G161, *G161R]("*G161")
	hv.D[*G162]("*G162")
	hv.D[*G163]("*G163")
	hv.D[*G164]("*G164")
	hv.D[*G165]("*G165")
	hv.D[*G166]("*G166")
	hv.Reg[*G167, *G167R]("*G167")
	hv.D[*G168]("*G168")
	hv.D[*G169]("*G169")
	hv.D[*G170]("*G170")
	hv.D[*G171]("*G171")
	hv.Reg[*G172, *G172R]("*G172")
	hv.D[*G173]("*G173")
	hv.D[*G174]("*G174")
	hv.D[*G175]("*G175")
	hv.D[*G176]("*G176")
	hv.D[*G177]("*G177")
	hv.D[*G178]("*G178")
	hv.D[*G179]("*G179")
	hv.D[*G180]("*G180")
	hv.Reg[*G181, *G181R]("*G181")
	hv.Reg[*G182, *G182R]("*G182")
	hv.D[*G183]("*G183")
	hv.D[*G184]("*G184")
	hv.D[*G185]("*G185")
	hv.D[*G186]("*G186")
	hv.D[*G187]("*G187")
	hv.Reg[*G188, *G188R]("*G188")
	hv.Reg[*G189, *G189R]("*G189")
	hv.D[*G190]("*G190")
	hv.D[*G191]("*G191")
	hv.D[*G192]("*G192")
	hv.D[*G193]("*G193")
	hv.D[*G194]("*G194")
	hv.D[*G195]("*G195")
	hv.Reg[*G196, *G196R]("*G196")
	hv.D[*G197]("*G197")
	hv.D[*G198]("*G198")
	hv.D[*G199]("*G199")
	hv.D[*G200]("*G200")
	hv.D[*G201]("*G201")
	hv.D[*G202]("*G202")
	hv.D[*G203]("*G203")
	hv.D[*G204]("*G204")
	hv.D[*G205]("*G205")
	hv.D[*G206]("*G206")
	hv.D[*G207]("*G207")
	hv.D[*G208]("*G208")
	hv.D[*G209]("*G209")
	hv.D[*G210]("*G210")
	hv.D[*G211]("*G211")
	hv.D[*G212]("*G212")
	hv.D[*G213]("*G213")
	hv.D[*G214]("*G214")
	hv.D[*G215]("*G215")
	hv.D[*G216]("*G216")
	hv.D[*G217]("*G217")
	hv.Reg[*G218, *G218R]("*G218")
	hv.D[*G219]("*G219")
	hv.D[*G220]("*G220")
	hv.D[*G221]("*G221")
	hv.D[*G222]("*G222")
	hv.Reg[*G223, *G223R]("*G223")
	hv.Reg[*G224, *G224R]("*G224")
	hv.D[*G225]("*G225")
	hv.D[*G226]("*G226")
	hv.D[*G227]("*G227")
	hv.D[*G228]("*G228")
	hv.Reg[*G229, *G229R]("*G229")
	hv.D[*G230]("*G230")
	hv.D[*G231]("*G231")
	hv.D[*G232]("*G232")
	hv.D[*G233]("*G233")
	hv.Reg[*G234, *G234R]("*G234")
	hv.D[*G235]("*G235")
	hv.D[*G236]("*G236")
	hv.Reg[*G237, *G237R]("*G237")
	hv.D[*G238]("*G238")
	hv.D[*G239]("*G239")
}
