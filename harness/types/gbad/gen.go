// Code generated by typegen -seed 1. DO NOT EDIT.

package gbad

import (
	"encoding"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"time"
	"unsafe"

	jd "github.com/romshark/jscan-experimental-decoder"
	"verif/harness/hv"
	"verif/harness/sp"
)

var (
	_ encoding.TextUnmarshaler
	_ fmt.Stringer
	_ io.Reader
	_ unsafe.Pointer
	_ json.RawMessage
	_ big.Int
	_ net.IP
	_ time.Time
	_ jd.Number
	_ sp.UJ
)

type G200000 struct {
	Kk map[uint64]struct {
		Foo  map[any]int
		Type sp.NBool
		F2   uint64
		KSs5 float64 `json:"-"`
	} `json:"0"`
	B [7]struct {
		LongFieldNameHere22 sp.NI16
		A23                 struct {
			Ünï  int `json:"dotted.name"`
			Bar  any
			Name float64
			Type sp.NInt
			Data sp.RTwo `json:"größe"`
		}
		Data map[int]int64
	} `json:",string,omitempty"`
}

type G200001 *jd.Number

type G200002 *struct {
	Data struct {
		Name  sp.BadMapSl `json:"-"`
		B     *int        `json:"0"`
		A     [3]float32
		Value sp.RPtrSlice
		KSs   struct {
			ID int `json:"é"`
		} `json:"foo"`
		F2     sp.RC
		BarBaz int
		Type   uint64     `json:"x/y"`
		Ss     []struct{} `json:"п"`
	}
	Name18            [0][]uint32 `json:",omitempty,string"`
	LongFieldNameHere [][]uint32  `json:"п"`
}

type G200003 [][2]sp.BadMap

type G200004 [][][]sp.RSliceFirst

type G200005 map[sp.KTInt]map[sp.UJEmpty]int

type G200006 struct {
	Name map[string]struct {
		BarBaz any `json:",foo"`
		Bar    sp.BadMutB
	}
	Value map[sp.NInt]sp.UTSlice `json:"-"`
}

type G200007 struct{}

type G200008 struct {
	F2 struct {
		A      *complex128 `json:"名前"`
		X26    int         `json:"foo_bar"`
		BarBaz int
		Ss     int
		uID19  int32
		ID19   int `json:"-"`
	} `json:",omitempty"`
	uSs6 int32
	Ss6  struct{} `json:"名前"`
}

type G200009 []struct {
	Data    map[any]int
	Bar     int
	BarBaz4 jd.Number
	ID      []sp.RPP `json:"kebab-case"`
}

type G200010 []struct {
	Value time.Time `json:"0"`
	D22   any
	F2    uint8 `json:"$"`
	C     struct{}
}

type G200011 struct {
	D                   [0]sp.BadSlSl  `json:"名前"`
	LongFieldNameHere19 map[uint32]int `json:"foo"`
	KSs                 struct {
		Kk    uint16   `json:",string"`
		Data  any      `json:"foo"`
		Type  struct{} `json:",string"`
		Value any
		Foo   int `json:"-"`
	}
	Value   int
	Value15 int `json:"é"`
	Größe   *map[sp.NInt]sp.NSS
	Type14  *sp.NEmp
	Ünï     map[sp.KTStr]sp.RBig `json:",foo"`
	Data27  map[int64]int32
}

type G200012 []struct {
	Größe map[uint32]jd.Number
	C4    map[uint]any        `json:"foo_bar"`
	Ünï   *map[float64]string `json:","`
	KSs   sp.UTArr            `json:"Kelvin"`
}

type G200013 map[int16][][3]struct{}

type G200014 struct {
	ID     struct{}
	Type19 struct {
		Ünï uint64 `json:",foo"`
		D   bool
	} `json:",string"`
	X     [7]map[[2]int]string `json:"é"`
	D     int
	Ss20  map[uint64]map[uint]sp.NSl `json:"$"`
	A     *sp.UJEmpty                `json:"UPPER"`
	Größe int
	Ss    *[1]sp.RLinks
}

type G200015 [][]map[sp.KTStr]sp.BadSl

type G200016 map[sp.KT]*map[sp.NU8]struct {
	uKk int32
	Kk  sp.NMap
	F1  bool   `json:"foo_bar"`
	A   uint32 `json:"$,omitempty,string"`
	Y   float32
}

type G200017 struct {
	B                  [2]sp.UJSlice
	LongFieldNameHere8 *int32 `json:",omitempty,string"`
	Type3              complex64
	Type               struct {
		LongFieldNameHere int    `json:"mixedCase"`
		Type7             uint32 `json:"Type7"`
	} `json:",omitempty"`
	Bar     [][]jd.Number
	KSs     []string `json:"é"`
	uÜnï    int32
	Ünï     map[string]int32
	uData29 int32
	Data29  sp.NSl `json:"id"`
}

type G200018 map[sp.KTArr]*struct {
	Foo struct{}         `json:"id"`
	B   map[sp.NBool]int `json:"x/y"`
	Ss  int
}

type G200019 struct{}

type G200020 struct {
	Foo13   []sp.UJMap `json:","`
	C       sp.UTInt   `json:"id,string"`
	BarBaz  []struct{}
	BarBaz8 *complex128 `json:"k"`
	X       string      `json:",string"`
	uF1     int32
	F1      []struct {
		BarBaz int8
		Ünï    uint      `json:"mixedCase,string,omitempty"`
		F2     sp.RSlice `json:"x/y"`
		Name5  uint      `json:",omitempty"`
		Bar    uint32
		Y      sp.NMap
		F116   int8
		F118   uint
		Type   struct{}
	} `json:",omitempty"`
	Größe struct{} `json:"s,string"`
	Kk    struct {
		X        int16 `json:"é"`
		BarBaz29 int
	}
	KSs []int64 `json:"with space"`
}

type G200021 [][0][]map[sp.UJEmpty]int

type G200022 struct {
	Name4  *any
	uGröße int32
	Größe  map[uint64]uint
}

type G200023 struct {
	Name0 struct {
		Foo    sp.UTArr            `json:"größe"`
		KSs4   float64             `json:","`
		BarBaz sp.UTStr            `json:"kebab-case"`
		F1     sp.UTMap            `json:"UPPER"`
		D      map[sp.UJArr]string `json:"0"`
		Name   uint                `json:"-,"`
	} `json:"é"`
	Type  []any `json:"kebab-case"`
	F1    *int  `json:"with space"`
	C     []map[uint32]sp.RSelfU
	Größe *uint `json:"a"`
}

type G200024 []map[int][]map[complex64]int

type G200025 map[uint16]map[int64]struct {
	Y     uint16 `json:"-,"`
	Bar   int8   `json:",omitempty"`
	Größe int
	Type  sp.NInt `json:"id"`
	B     any     `json:"k"`
	Data  bool
	KSs0  int64
	C     int64 `json:","`
}

type G200026 []map[int64]struct {
	ID map[sp.UJArr]string
	Y  int8 `json:",omitempty"`
	B  int
}

type G200027 struct {
	uBar int32
	Bar  map[uint32]map[string]struct {
		Foo chan int
		A   int
		C   int8
		KSs sp.NI16 `json:"-"`
		B   sp.UTSlice
	}
	B uint16 `json:"B"`
}

type G200028 [][]int8

type G200029 struct {
	Ss struct {
		ID                  uint16 `json:"with space"`
		Name                uint32
		Value               map[sp.UJEmpty]int
		LongFieldNameHere20 int
	}
	Value struct{ Name19 sp.RMix }
	Type  string `json:"kebab-case"`
	Foo   *int   `json:"foo_bar"`
	Ss5   struct {
		X7  int
		Y24 uint16
	} `json:"a"`
}

type G200030 []struct {
	Data  int16 `json:",string,omitempty"`
	ID27  *json.RawMessage
	X     []sp.RTextKey `json:"dotted.name"`
	Ünï23 sp.NMap       `json:"a"`
	Ss    *float64
	ID    map[sp.KTInt]int32
	Type  map[[2]int]string `json:"$"`
	Value [0]sp.NU8         `json:"foo"`
	KSs   string            `json:"-,"`
}

type G200031 struct {
	F1 []uint32 `json:"a,omitempty,string"`
}

type G200032 [4]struct {
	Foo int32 `json:"-"`
	A3  uintptr
}

type G200033 []map[string][4]struct {
	KSs               uint64
	Value             any       `json:","`
	Foo               sp.BadMap `json:"UPPER"`
	ID                int       `json:",omitempty,string"`
	Type              sp.RMany
	BarBaz19          sp.RIntMap
	C1                int      `json:"BarBaz19"`
	LongFieldNameHere struct{} `json:"with space"`
}

type G200034 struct {
	uÜnï int32
	Ünï  [2]struct {
		Data  sp.UJU8
		Type  float64 `json:","`
		Name  sp.RPtr
		Y     int16
		F2    sp.NInt
		uC    int32
		C     sp.UTArr
		Foo   uint `json:"with space,string,omitempty"`
		Größe bool `json:"kebab-case"`
		A     sp.UTSlice
	} `json:"Kelvin"`
	Name struct {
		Größe             []uint8
		B                 json.RawMessage
		Type              sp.UTEmpty `json:"-,"`
		LongFieldNameHere uint       `json:",foo"`
		BarBaz            uint32     `json:",omitempty"`
		Größe23           uint32
		Data              struct{}
		Name              sp.NEmp `json:"Kelvin"`
	}
}

type G200035 map[int32]struct {
	X     map[int16]sp.BadStruct `json:"-"`
	C     sp.NI8                 `json:",omitempty,string"`
	Größe map[int8][2]int        `json:"kebab-case"`
	Name  map[sp.KTInt]int
	Ünï   []map[uint64]any
}

type G200036 struct {
	Type25 *struct {
		Type int8 `json:"mixedCase"`
	}
	F2 map[uint16]map[sp.NStr]map[bool]int
	B  float32 `json:",string"`
}

type G200037 struct {
	KSs25 sp.UJF           `json:"-"`
	Y     *sp.NStr         `json:",string"`
	Type  map[int8][2]uint `json:",omitempty"`
	Kk    struct {
		Data     int8     `json:",omitempty,string"`
		Ünï      sp.UTMap `json:"-"`
		F2       uint64
		C        [3]sp.RLinks `json:"-"`
		Foo      [2]int32     `json:"-"`
		BarBaz21 []int64
		C1       struct {
			X    sp.RPtrSlice `json:"-"`
			B11  int32
			KSs  bool `json:"-"`
			C    int16
			C23  sp.UTMap
			A    int64
			Data int8
			Foo8 uint64 `json:","`
		} `json:"mixedCase"`
		ID21 []struct{} `json:",foo"`
		B    sp.NF32
	} `json:"-"`
	ID   []struct{}
	Ss   uint
	ID11 struct {
		Bar14 *float64 `json:"with space,string"`
		Ünï   uint16   `json:","`
		Data  *int
	}
	KSs map[uint]net.IP
}

type G200038 []map[int16]map[[2]int]string

type G200039 struct {
	Type  *any `json:"kebab-case"`
	Foo14 [2]*sp.BadMap
}

type G200040 *[2]struct {
	Name sp.NStr   `json:"mixedCase"`
	Bar  sp.UTI8   `json:"$"`
	ID   int32     `json:"-,"`
	F2   sp.UJArr  `json:"-"`
	B23  jd.Number `json:"k"`
}

type G200041 map[sp.KTStr]*struct {
	Kk      int8 `json:"-"`
	Value   sp.BadMap
	D9      int     `json:"k"`
	KSs     sp.NI16 `json:"foo"`
	B       int
	ID      json.RawMessage
	Ünï10   int    `json:"UPPER"`
	BarBaz4 uint32 `json:"kebab-case,string"`
	B29     any    `json:"foo_bar"`
}

type G200042 map[int16][]sp.BadMutA

type G200043 struct {
	A15 map[uint16]struct {
		X map[sp.NU8]sp.UTF `json:"x/y"`
	}
	Data16            [][1]int `json:"foo_bar"`
	Foo23             any      `json:"-"`
	Name17            uint16
	LongFieldNameHere [3][2]sp.RMix `json:"п"`
	X23               [1]struct{}   `json:"with space"`
	Value13           struct{}
	uBarBaz           int32
	BarBaz            struct {
		D    []int      `json:"k"`
		Type uint       `json:"Kelvin,string"`
		KSs  sp.RPtrMap `json:","`
	} `json:"0"`
}

type G200044 struct {
	uType int32
	Type  struct {
		Value sp.UJSlice
		Bar   bool
		Größe any
		Ünï4  map[complex64]int `json:"dotted.name"`
		C5    string            `json:"a"`
		Name5 struct {
			Größe uint16 `json:"-"`
			Kk    uint8  `json:"größe,string,omitempty"`
			D6    sp.UT  `json:"x/y"`
			Ünï14 int
			D     int
		}
	} `json:"$"`
	Bar     sp.RPtrSlice
	Value26 sp.NBool
	KSs     struct {
		Kk     map[sp.NStr]jd.Number
		Value3 uint
		Y      map[int16]int
	} `json:",string"`
	Name struct {
		uData int32
		Data  []float64            `json:"with space"`
		Ünï   uint                 `json:"0,string,omitempty"`
		X     map[sp.KTInt]sp.NU64 `json:"名前"`
		Value jd.Number            `json:",string"`
		Größe int
		Name  map[sp.NStr]int
		Kk    *int `json:"dotted.name"`
		A     uint
	}
}

type G200045 struct {
	Größe uint `json:"名前"`
	Name  struct{ Name chan int }
}

type G200046 struct {
	Type struct {
		ID  *sp.UBoth
		KSs struct {
			A3                  float32
			Value               sp.UTArr
			LongFieldNameHere26 sp.NInt `json:"foo"`
		}
		Größe float64     `json:"id,omitempty,string"`
		Type8 []int8      `json:"-"`
		Kk    [3][4]sp.RC `json:"mixedCase"`
		D     struct {
			Kk    sp.UTInt
			Value sp.NSl `json:"-,"`
		} `json:"-"`
		F2   sp.NU64 `json:"-"`
		Name *uint64 `json:"long_tag_name_for_matching"`
	} `json:"dotted.name"`
	KSs uint32             `json:",string"`
	ID1 map[sp.NU8][]int32 `json:"with space"`
	Kk  struct {
		Ünï  int8
		KSs  [2]sp.UTI8 `json:"-"`
		B    *sp.NEmp   `json:"Kelvin"`
		Name struct {
			Kk    struct{} `json:",omitempty"`
			B     any      `json:"-"`
			D13   sp.NSl   `json:"п"`
			Foo   any      `json:"-"`
			KSs   bool
			X     int16
			Foo24 int8
			KSs7  sp.NI16
			F1    uint64 `json:"0,string,omitempty"`
		} `json:"$"`
		Foo   map[int16]sp.RD   `json:",foo"`
		F1    map[sp.KTInt]int8 `json:"größe,string"`
		A17   []int16           `json:"a"`
		Foo16 struct {
			Value uint8 `json:"0"`
			Kk    uint  `json:",string"`
		}
	} `json:"-"`
}

type G200047 *struct {
	F2   map[uint16]sp.BadSl
	Ss   float64 `json:"é"`
	Kk   int
	Data sp.NF32 `json:"mixedCase"`
	ID7  big.Int `json:"s"`
	Name sp.NStr
	A    *struct{} `json:"п"`
	F1   int       `json:","`
	C    int
}

type G200048 struct {
	Y struct {
		D struct {
			C25 <-chan string
			Bar sp.RIntMap `json:",foo"`
			B   int16
			ID  sp.NU64 `json:"id"`
			X   sp.NBool
		} `json:"größe"`
		ID27   uint
		Type20 json.RawMessage `json:"id"`
	} `json:"kebab-case"`
	BarBaz struct {
		C struct{} `json:",foo"`
	} `json:",string"`
	Bar   []struct{ KSs20 sp.UJArr }
	KSs19 struct {
		C    float64 `json:"-"`
		Name sp.UJ
		F1   int32
	} `json:"-"`
	Ss struct {
		KSs int `json:"UPPER"`
	}
	Kk [0][2]int16
}

type G200049 []map[string]map[uint]uint64

type G200050 struct {
	F2 uint64
	ID struct {
		F1   []uint8    `json:",omitempty,string"`
		B    *sp.BadPtr `json:"-"`
		Type []uint64   `json:"id"`
		F2   struct {
			F1    struct{}
			ID    float64 `json:"with space"`
			A19   uint32
			KSs20 int8 `json:"s"`
		} `json:"kebab-case"`
		Data int
		ID   map[uint]int
		KSs6 []map[int64]int
		Kk   [1]int64 `json:"x/y"`
	}
	A map[uint8]struct {
		A15  int
		Kk   sp.NMap `json:"foo,string,omitempty"`
		Data sp.NInt
	}
	LongFieldNameHere7 **int
	Value              map[string]int `json:",omitempty"`
	KSs                [7]struct {
		X  int    `json:"0"`
		F1 uint16 `json:",omitempty"`
	} `json:",foo"`
}

type G200051 struct {
	F22 *int `json:","`
	A   struct {
		Type  map[sp.KTInt]uint `json:"名前"`
		KSs28 [3]big.Int        `json:"UPPER"`
		uB    int32
		B     uint64          `json:"-"`
		KSs   uint16          `json:"größe"`
		Größe map[uint64]int8 `json:",foo"`
		Y     sp.RSibRec      `json:"kebab-case"`
	}
	D     map[string]*jd.Number `json:"-,"`
	Name2 struct {
		uKSs              int32
		KSs               map[sp.UJEmpty]int `json:"k"`
		LongFieldNameHere any                `json:"with space"`
	} `json:"dotted.name"`
	Kk int
}

type G200052 *struct {
	C struct {
		Value int64 `json:"п,string"`
		B     int   `json:"0,string"`
	} `json:"UPPER"`
	Größe0 [2]*uint `json:"k"`
	Ss     [][]bool
}

type G200053 []struct{ ID map[uint32][]sp.BadMutB }

type G200054 map[uint32]map[chan int]int

type G200055 [0]uint16

type G200056 []map[uint64]sp.BadPtr

type G200057 [][]struct {
	uF1    int32
	F1     float32
	Bar    sp.NU8 `json:"dotted.name"`
	Ünï27  sp.NMap
	D      sp.NEmp
	Größe9 map[sp.UJEmpty]int
	X15    int
	ID     net.IP
	F20    sp.RSliceSlice `json:"foo"`
	C      sp.NBool
}

type G200058 [2]int64

type G200059 struct {
	ID *[]struct{} `json:"é"`
	F1 struct {
		C    map[string]int16 `json:"dotted.name"`
		Kk   map[string]sp.UT
		ID24 struct {
			F1                  map[sp.NF64][]int `json:"with space"`
			Ünï14               int16             `json:"s"`
			Type                int
			C13                 int32 `json:"-"`
			LongFieldNameHere13 any   `json:"-"`
		}
		ID  *any
		Y   []int `json:"-"`
		KSs uint
	} `json:"UPPER"`
}

type G200060 struct {
	Y    [3]map[float64]string
	A    []sp.NF32          `json:"-"`
	KSs  map[sp.KTInt][]int `json:"mixedCase"`
	F223 [0]sp.NSS          `json:"k"`
	Ss   sp.RA
}

type G200061 struct {
	LongFieldNameHere struct {
		Y4   [][3]any         `json:"foo"`
		Ss10 map[string]uint8 `json:",omitempty,string"`
	}
}

type G200062 map[int8]*struct {
	Y    sp.NSS
	X    sp.UTStr `json:"a"`
	ID17 sp.BadPtrSl
}

type G200063 struct {
	Value              *map[int16]bool              `json:"dotted.name"`
	Ss                 map[sp.NStr]*json.RawMessage `json:"-"`
	B                  []map[sp.NU8]sp.NF32
	LongFieldNameHere7 map[sp.KT]struct {
		B    sp.NU64 `json:"id"`
		Bar  uint32
		KSs  int8
		X    string `json:",omitempty,string"`
		Data sp.RSib
	}
	F1    map[uint64]sp.BadMutB
	Größe jd.Number
	ID    [1]struct {
		Data  sp.RD `json:"foo_bar"`
		Name  jd.Number
		D3    uint8           `json:"foo"`
		Y     json.RawMessage `json:"п"`
		D     int             `json:"UPPER"`
		F2    sp.UTI8
		Value int
		Ss    sp.RSelfU `json:"$"`
		B4    int       `json:",omitempty"`
	}
	Foo8 map[sp.NU8]float64
	C    int32 `json:"UPPER"`
}

type G200064 map[sp.KTStr]map[sp.KTArr]*sp.UTSlice

type G200065 []map[uint8]struct {
	KSs6 sp.UJ                    `json:"long_tag_name_for_matching"`
	Bar  encoding.TextUnmarshaler `json:","`
	C    sp.UBoth                 `json:"Kelvin"`
	D    uint
}

type G200066 map[string]struct {
	Kk struct {
		A    uint
		Type uint32
		uB   int32
		B    sp.BadStruct `json:"UPPER"`
	}
	Type sp.RSliceFirst `json:"$"`
	ID   map[uint16]sp.RMany
	Data sp.NEmp `json:"größe"`
	B    int
	Ünï  int64   `json:"dotted.name"`
	Y    uint32  `json:"UPPER"`
	D    []int32 `json:"$"`
}

type G200067 [3]struct{}

type G200068 struct {
	Größe []any
	A     []struct {
		A, B int
		C    chan int
	} `json:"kebab-case"`
}

type G200069 map[sp.NStr]*map[string]func(int) error

type G200070 struct {
	D25 []jd.Number `json:"foo_bar"`
	KSs struct {
		Kk    uint8     `json:"x/y"`
		Größe uint      `json:",string,omitempty"`
		A     []sp.NI16 `json:"s"`
		Ünï   sp.NInt   `json:"п"`
		Value []int
		Data  jd.Number `json:"id"`
	} `json:"Kelvin"`
	LongFieldNameHere map[uint8]sp.NU64
	Kk                *struct {
		F1                float32
		Ünï14             sp.NInt `json:"long_tag_name_for_matching,string"`
		A                 uint16
		LongFieldNameHere net.IP
		Foo               float32
		Ss13              int64
	} `json:"п"`
	A []sp.UBoth
}

type G200071 map[uint64][][]map[[2]int]string

type G200072 struct {
	Data13 struct {
		Data map[complex64]int
		Ünï  int
	} `json:"-"`
	Ss9   *int       `json:"Kelvin"`
	Ünï   *jd.Number `json:"-"`
	Größe []struct {
		Ünï sp.UJU8 `json:"-"`
	} `json:",string,omitempty"`
	ID                *sp.UTEmpty
	B                 [2]float64 `json:"-"`
	LongFieldNameHere struct {
		Y      int    `json:"dotted.name"`
		Foo26  string `json:"foo_bar"`
		F2     int32  `json:",omitempty"`
		Ünï    struct{}
		Foo7   uint64 `json:","`
		BarBaz int
	} `json:"long_tag_name_for_matching"`
	Bar map[uint16]int
	F18 map[sp.KTInt]struct {
		A    any       `json:"$"`
		Data jd.Number `json:"x/y"`
		Y24  string    `json:",string"`
	} `json:","`
}

type G200073 struct {
	B struct {
		Type []uint64 `json:"foo_bar"`
	} `json:"k"`
}

type G200074 struct {
	Name float64
	uB   int32
	B    []sp.NF64        `json:"$"`
	A4   [1]map[*int]bool `json:"$"`
	F2   [][2]struct{}
}

type G200075 map[sp.KTStr][0][]struct {
	Bar    sp.UJStr `json:",foo"`
	BarBaz sp.UJSlice
	A      map[[2]int]string `json:"-"`
	Y      uint8             `json:"0"`
	F2     jd.Number
}

type G200076 struct {
	D      []uint
	BarBaz []struct {
		ID                  sp.NU8
		Ünï                 int64
		Foo8                json.RawMessage `json:"Kelvin"`
		F2                  float64
		uD                  int32
		D                   string `json:"-"`
		LongFieldNameHere19 sp.UJU8
	}
}

type G200077 *struct {
	Type   map[int]string
	D      *map[sp.KT]jd.Number `json:",foo"`
	F1     []string             `json:"foo_bar"`
	BarBaz map[any]int
	ID16   [2]struct {
		Größe  sp.NF32
		Value  struct{}
		Foo    sp.NEmp `json:"s"`
		uÜnï   int32
		Ünï    sp.NU8 `json:"-,"`
		BarBaz any    `json:"名前"`
	}
}

type G200078 struct {
	BarBaz2 struct {
		ID      sp.BadArr `json:"-"`
		C       int       `json:"long_tag_name_for_matching"`
		Value27 int64     `json:"-"`
	} `json:"dotted.name"`
}

type G200079 ***jd.Number

type G200080 []struct {
	A23               map[uint64]string `json:"long_tag_name_for_matching"`
	Value             map[sp.NBool]int  `json:",foo"`
	LongFieldNameHere map[int16]int
	F1                *uint8 `json:"Kelvin"`
	Bar               string `json:"a"`
	C                 *int
}

type G200081 struct {
	Ss     map[int]*sp.NI8
	KSs    *sp.BadArr           `json:"п"`
	B5     struct{}             `json:"x/y"`
	BarBaz map[uint16]sp.UJPtrs `json:"Ss"`
	Data   [3][2]int32          `json:",omitempty,string"`
	uD     int32
	D      struct {
		LongFieldNameHere struct{}
		Ünï               bool `json:"LongFieldNameHere"`
		Kk18              int
		Y                 int `json:"-"`
		F1                int `json:"x/y"`
	}
	ID struct {
		F110 any `json:"foo_bar"`
	}
	X11 map[string]struct {
		Bar    int `json:"with space"`
		F2     int16
		Ünï    int `json:"größe"`
		Value7 int16
		C8     sp.NI16 `json:"$"`
		Foo    int
		BarBaz sp.NSS `json:"-"`
		ID     int
	}
}

type G200082 struct{ F1 jd.Number }

type G200083 map[sp.KT][]struct {
	A, B int
	C    chan int
}

type G200084 struct {
	Type0 struct {
		Ss   encoding.TextUnmarshaler `json:"0"`
		Bar  map[sp.NU8]sp.NStr
		Type map[int]sp.UTSlice `json:","`
		F2   uint8
	} `json:"п"`
	B   sp.UTInt
	Foo []struct{}
	B8  struct {
		Größe uint8
		Y8    sp.NSl `json:"名前"`
		Kk    int16  `json:"Größe,string,omitempty"`
		Data  int
		F1    sp.RArr
		X     sp.UJ `json:"-,"`
		ID    float32
		B     int `json:"s"`
		C     sp.NMap
	} `json:"Kelvin"`
	KSs uint   `json:","`
	ID  uint64 `json:","`
}

type G200085 map[sp.KT]*struct {
	F1 string `json:"kebab-case"`
	A  sp.UJPtrs
}

type G200086 []*struct{ D map[[2]int]string }

type G200087 *[2][1]struct {
	X  fmt.Stringer
	Y9 int
}

type G200088 map[int64]*[7]float32

type G200089 *struct {
	Kk complex128 `json:"0"`
	D  int        `json:"-,"`
	Ss struct {
		F2 uint `json:",foo"`
		ID int  `json:"dotted.name"`
	}
}

type G200090 struct {
	Data18 map[uint16]sp.NI8
	Value  *string `json:"-"`
	Ünï    struct {
		Ss      int
		Größe18 bool `json:"a,string,omitempty"`
		Type    func(int) error
		ID      any     `json:","`
		BarBaz  float64 `json:"foo"`
	} `json:"-"`
	A     struct{ F2 sp.RMapFirst }
	Größe struct {
		Ss                sp.RB `json:"0"`
		uBar              int32
		Bar               int    `json:"-"`
		Value23           sp.UTF `json:","`
		LongFieldNameHere map[int16]uint8
		Y29               int `json:"dotted.name"`
	}
	BarBaz map[uint16]uint
}

type G200091 []struct{}

type G200092 *[]struct {
	X       uint16             `json:","`
	Foo8    map[sp.UJEmpty]int `json:"Foo8"`
	Größe29 int32
}

type G200093 [][]map[sp.KTArr]fmt.Stringer

type G200094 struct {
	Name struct{ B *struct{} } `json:",omitempty,string"`
	Foo  map[sp.NStr]string    `json:"п"`
	ID   []struct {
		BarBaz29 *sp.NF32
		Foo      sp.NU8    `json:"-"`
		F2       [3]uint32 `json:"-"`
		C        struct {
			F2 bool `json:"é"`
		} `json:"größe,string,omitempty"`
		ID []uint64 `json:",foo"`
	} `json:"-"`
}

type G200095 [2]struct {
	Y16 struct {
		Größe sp.RArrMap     `json:"s,omitempty,string"`
		Ünï7  sp.RSliceSlice `json:",string"`
	} `json:"foo"`
	ID5 map[sp.NBool]int `json:"a"`
}

type G200096 struct {
	Ünï struct {
		BarBaz8 sp.UBoth `json:"foo_bar,string"`
		BarBaz  sp.NSl
		Größe   jd.Number
		Ss      encoding.TextUnmarshaler `json:"-"`
		Y       bool                     `json:",string"`
		F2      string                   `json:",omitempty,string"`
		Data    int                      `json:"п"`
		ID      sp.RMix
		D       sp.NInt `json:"kebab-case"`
	} `json:"dotted.name"`
}

type G200097 *[]struct {
	Value             sp.RTag
	D                 uint32 `json:",omitempty,string"`
	LongFieldNameHere int8   `json:"-"`
	Value24           sp.RA  `json:","`
	Data              sp.UJArr
	C                 jd.Number `json:"s"`
}

type G200098 **[4]map[float64]string

type G200099 map[int16]struct {
	A6  [1]uint32
	D5  [2]uint `json:"名前"`
	B   struct{}
	Foo struct {
		Kk     map[string]error
		KSs    int
		C18    sp.UTStr
		F220   int
		Type28 int64 `json:"mixedCase"`
	} `json:",string"`
	C   []jd.Number
	KSs []uint32
}

type G200100 map[uint][7]jd.Number

type G200101 struct {
	Ss [][]error
	Y  big.Int
}

type G200102 map[uint8]*[]complex64

type G200103 struct {
	X struct {
		Kk    float64
		Größe int8
	} `json:"kebab-case"`
}

type G200104 struct {
	Größe struct {
		A sp.BadStSl `json:"-"`
	}
	B *struct {
		A18      int
		BarBaz19 struct {
			Data float64 `json:"-"`
			F212 sp.RUnm `json:"п"`
			Name int     `json:"s"`
		}
	}
	F2     []sp.NI8
	F1     map[uint]map[sp.NU8][4]sp.RSliceMap
	BarBaz *[]sp.NSl
	C2     struct {
		B                 []int32
		Ünï               [3]sp.NU8 `json:"größe"`
		LongFieldNameHere jd.Number
		ID                *int `json:"s"`
	} `json:"-,"`
	Ünï int32
	Bar *map[int16]int
}

type G200105 struct {
	Foo22 map[int8]sp.RTag
	uX19  int32
	X19   [0]any `json:"é"`
	Bar10 struct {
		Value             sp.NMap
		ID                int `json:"0"`
		LongFieldNameHere fmt.Stringer
		KSs24             uint32 `json:"größe"`
		D                 int    `json:"-"`
	} `json:"名前"`
}

type G200106 struct {
	BarBaz [3]struct {
		KSs28 sp.RIntMap
		D     int8 `json:",foo"`
		Value uint
		Y     int8 `json:"-"`
		X     string
		C     sp.RMapSlice `json:",omitempty"`
	} `json:"é"`
	Foo struct {
		Name struct {
			Ünï uint `json:",omitempty,string"`
			C   jd.Number
			F1  []uint16 `json:"UPPER"`
			F29 struct {
				Name    sp.NI8
				Value19 sp.RLinks `json:",omitempty"`
				KSs     sp.UJInt  `json:"-"`
				A       jd.Number `json:"long_tag_name_for_matching"`
				X       int32
				Kk      any `json:",omitempty"`
			}
			A struct {
				F2                int64 `json:"x/y,omitempty,string"`
				uÜnï              int32
				Ünï               uint32  `json:"größe,string"`
				D12               float32 `json:",string"`
				LongFieldNameHere jd.Number
				Kk2               jd.Number `json:"UPPER"`
			}
		} `json:",string"`
		BarBaz [4]bool `json:"$"`
	} `json:"名前"`
	Ss []map[sp.NInt][]uint64 `json:","`
	F1 *map[int32]uint64      `json:"long_tag_name_for_matching"`
}

type G200107 map[uint16]map[uintptr]int

type G200108 struct {
	Name *sp.BadMapSl                  `json:"é"`
	Type map[sp.NStr]map[sp.KTInt]bool `json:"s,omitempty,string"`
	ID24 [3]int                        `json:"-"`
	Data []int
}

type G200109 struct {
	F226 map[sp.NStr]struct {
		Name   string
		A      sp.UJBool `json:"dotted.name"`
		D      float32
		Größe5 []sp.NI8
		F25    int32 `json:"Kelvin"`
	} `json:"UPPER"`
	C28   sp.NI16
	Value []sp.RTwo
}

type G200110 map[string]map[uint32]struct {
	Y      encoding.TextUnmarshaler `json:"-,"`
	BarBaz float32
}

type G200111 struct {
	X struct {
		B string `json:"id"`
		D sp.NU8 `json:"long_tag_name_for_matching"`
	} `json:"-"`
	F119 []*func(int) error
	Y    int `json:"k"`
	Data struct {
		A    sp.UTMap
		Ss   bool `json:"-"`
		C    int
		Name int `json:"-"`
		Data int `json:"$"`
		Type uint16
		X28  int     `json:"dotted.name"`
		Ünï  float32 `json:","`
		ID   sp.NStr `json:"名前"`
	} `json:"mixedCase"`
	A struct {
		F1 uint `json:"größe,string"`
	} `json:"п"`
	B struct {
		LongFieldNameHere uint16
		Kk                int
		Größe25           sp.NU8
		X                 int
		Y                 sp.UTBool `json:"-"`
		KSs               int32
		BarBaz            int    `json:","`
		Value             uint32 `json:"-"`
		Name              float32
	}
	Foo               int `json:"kebab-case"`
	LongFieldNameHere struct {
		Ünï    int
		BarBaz [7]struct{}
		Bar    [4]int8 `json:"é"`
		Value  sp.UJArr
		KSs    sp.NStr
		Y      sp.UJSlice
		Data27 map[uint16]any `json:",string"`
		Ss     int            `json:"größe"`
	}
	Type14 *struct {
		F118 int      `json:"with space"`
		KSs  sp.UJInt `json:"k"`
	}
}

type G200112 struct {
	BarBaz struct {
		Ünï  map[sp.KTInt]uint16
		Data map[int8]sp.NU8      `json:"id"`
		Foo  map[sp.KTArr]sp.NEmp `json:"UPPER"`
		F1   *int16               `json:",string"`
	} `json:"$"`
	B      *[0]jd.Number `json:"kebab-case"`
	uName7 int32
	Name7  map[sp.KTStr]string
	ID     []struct {
		Kk   sp.UJPtrs `json:"mixedCase"`
		X    jd.Number `json:"s"`
		B    json.RawMessage
		F1   int8
		Bar  int16    `json:",string"`
		Y    uint8    `json:"id,string,omitempty"`
		Type struct{} `json:",string"`
		uC3  int32
		C3   sp.RMapSlice
	}
	D struct {
		Foo [2]jd.Number
		F1  map[int]sp.UJU8 `json:"s"`
	}
}

type G200113 struct {
	Bar    [2]sp.RLinks `json:",omitempty"`
	F1     []sp.BadArr  `json:"a"`
	Name28 uint64       `json:","`
	Data   *sp.RPtr     `json:"foo"`
	KSs    [0]struct {
		Bar  uint `json:"größe"`
		Data sp.NSS
	} `json:"Kelvin"`
	Name16 map[uint16]string `json:"dotted.name"`
}

type G200114 struct {
	Ss29 sp.BadMap `json:"名前"`
}

type G200115 []map[int16]struct {
	Ünï29 uint `json:"s,string"`
}

type G200116 struct {
	KSs struct {
		Value *struct{}                      `json:"mixedCase"`
		ID12  []map[sp.NStr]map[chan int]int `json:"$"`
		F15   struct{}
		Y     []uint `json:"x/y"`
		D     [1]sp.NF64
	} `json:"-"`
	B *[]int64 `json:"s"`
}

type G200117 struct {
	Y   map[uint16]map[sp.KTStr]time.Time `json:","`
	Bar int64
	Foo struct {
		Bar   float32
		KSs   map[bool]int `json:","`
		Foo23 bool         `json:"é"`
	} `json:"with space"`
	X struct {
		ID struct {
			C    int   `json:"kebab-case"`
			Type sp.UJ `json:"größe"`
		}
		Ünï    float32 `json:"ID"`
		uValue int32
		Value  bool      `json:",omitempty,string"`
		KSs    jd.Number `json:"kebab-case"`
		Kk     float32   `json:"foo_bar"`
	}
	Ünï  *int64 `json:",omitempty,string"`
	Data sp.UTF `json:"mixedCase"`
}

type G200118 map[int16]map[uint32]*map[sp.KTStr]sp.NF32

type G200119 struct {
	Kk12 struct {
		F2   int32 `json:"-,"`
		X    struct{}
		Data []int16 `json:"with space"`
		KSs  struct {
			D      any
			Data28 sp.RArr `json:"s"`
			Y      sp.NU8
			Größe  int `json:",omitempty"`
			C      int16
			Data   int     `json:"foo"`
			X      uintptr `json:"C"`
			Name14 int
		} `json:"-,"`
		C26               map[int64]int8 `json:","`
		Größe1            uint           `json:"é"`
		Type              [2]bool
		LongFieldNameHere struct {
			A int32 `json:"k"`
		} `json:"-,"`
	} `json:"id"`
	BarBaz map[uint16]uint16 `json:"0"`
	D      int               `json:"é"`
	Foo    float32
	Ünï    struct {
		C                 int   `json:"long_tag_name_for_matching"`
		Kk26              []int `json:"é"`
		Y                 int64 `json:"-"`
		LongFieldNameHere jd.Number
		Y29               uint8 `json:"foo"`
	} `json:","`
	ID struct {
		Data28 int  `json:"kebab-case"`
		KSs    int8 `json:"id,string"`
	} `json:"foo_bar"`
}

type G200120 struct {
	Name time.Time `json:"-"`
	Ünï  struct {
		Foo               uint32 `json:"UPPER"`
		uBar              int32
		Bar               sp.UTEmpty `json:"-"`
		LongFieldNameHere float32    `json:",string"`
		KSs7              uint       `json:"foo_bar,omitempty,string"`
	} `json:"id"`
	X struct {
		ID4 map[uint8]any `json:"foo_bar"`
	}
	C  [3]struct{ KSs29 encoding.TextUnmarshaler }
	ID struct {
		Ünï  sp.UJStr `json:"größe"`
		C    bool
		F117 time.Time `json:"foo_bar"`
		F2   sp.UTF
		X    any
		Bar  sp.UJBool
	}
	uBar int32
	Bar  *[]sp.RC
}

type G200121 struct {
	Data19 sp.RPP
	KSs    []uint32    `json:",omitempty"`
	Ss24   *[]sp.UTArr `json:",omitempty"`
}

type G200122 struct {
	Foo struct {
		F1     map[sp.UJEmpty]int
		BarBaz int64
		Größe  *any
		Kk     int    `json:"Kelvin"`
		Type   [0]int `json:",foo"`
	} `json:"-"`
}

type G200123 [1]struct {
	D13     int16
	Value10 []float64
	uKk     int32
	Kk      sp.BadMapSl `json:"名前"`
	D       struct {
		A                 sp.RD `json:"名前"`
		Y                 uint16
		LongFieldNameHere uint16  `json:"dotted.name,string"`
		F2                float64 `json:","`
		Kk                uint16  `json:"-,"`
		D                 int     `json:"0"`
		Type              int
		X                 sp.NU64 `json:"x/y"`
		Ünï24             uint32  `json:"-"`
	}
	A0     uint16 `json:",string"`
	Data25 struct {
		D                 sp.UTInt `json:"a"`
		Kk                uint8    `json:"foo,string"`
		LongFieldNameHere bool     `json:"dotted.name"`
		Value             sp.NU8
	} `json:"a"`
}

type G200124 struct {
	Type []uint `json:"-,"`
	Data bool
	F1   []string
}

type G200125 struct {
	BarBaz struct {
		Größe26 struct{} `json:"dotted.name"`
		Value   any      `json:"s"`
	}
	F1 struct {
		X      sp.UT
		BarBaz int16
	} `json:"id"`
	Type              []interface{ M() } `json:"名前"`
	LongFieldNameHere map[uint8]int      `json:"größe"`
	Type27            [][2]sp.UT
	KSs               sp.UJU8 `json:"mixedCase,string,omitempty"`
	C                 [7]int16
	B24               []struct{} `json:"-"`
}

type G200126 struct {
	D18 *map[int8]uint
	uY  int32
	Y   struct {
		Y16 encoding.TextUnmarshaler
		F1  uint `json:"mixedCase"`
	}
	uF2 int32
	F2  [1]sp.RSlice
	Bar struct {
		Größe             int
		X                 sp.UJArr  `json:"Größe"`
		Bar               time.Time `json:"with space"`
		Type12            sp.RDeep3 `json:","`
		LongFieldNameHere int64
		Y                 any `json:",string"`
	} `json:",foo"`
	Ünï1 [2]uint8 `json:"x/y"`
}

type G200127 struct{}

type G200128 [4]struct {
	uGröße14          int32
	Größe14           uint64 `json:"UPPER"`
	Foo               int    `json:"kebab-case"`
	LongFieldNameHere int    `json:"long_tag_name_for_matching"`
	Value1            map[sp.KTStr]sp.UTBool
	F2                sp.NSS
	Y                 map[bool]int `json:"п"`
	Type              string
	D8                struct {
		Name18 sp.NSl
		uFoo   int32
		Foo    int
	} `json:","`
}

type G200129 *[7]map[string]<-chan string

type G200130 struct {
	D2  int32
	D21 **struct {
		Y uint64 `json:"id,string"`
	} `json:"UPPER"`
	LongFieldNameHere16 []map[string]sp.NEmp `json:"-,"`
	F2                  map[int8]*float32    `json:"größe"`
}

type G200131 []map[string]struct {
	X9    float64
	KSs20 complex128 `json:"Kelvin"`
}

type G200132 [2]struct {
	Bar  sp.BadMutA
	ID   [3]jd.Number `json:"Bar"`
	Foo  struct{}     `json:"Bar"`
	Name uint8        `json:"é"`
	Y12  *uint        `json:",omitempty,string"`
	C    []sp.NF32    `json:",omitempty"`
	F226 int16        `json:","`
	Kk18 int
}

type G200133 [2][][]int8

type G200134 struct {
	BarBaz [0]int16
	uD     int32
	D      []map[string]struct {
		ID struct {
			A int `json:",string"`
			C func()
		}
		uC                 int32
		C                  sp.NF64
		B                  int64 `json:",string"`
		Ss8                int   `json:"foo_bar"`
		LongFieldNameHere1 int   `json:"名前"`
	}
	X   sp.NSl
	F13 struct {
		X struct {
			KSs      any       `json:",string,omitempty"`
			Type9    sp.UJPtrs `json:",string"`
			BarBaz13 sp.RMany
			B24      int
			Ss       sp.UTMap `json:"mixedCase"`
			X16      jd.Number
		} `json:"größe"`
		Name any `json:",foo"`
		F2   int `json:",omitempty"`
		B    int
		Ss   jd.Number
	} `json:"$"`
}

type G200135 *struct {
	C       map[chan int]int `json:"foo"`
	Type    float64
	BarBaz1 map[uint32]big.Int `json:",omitempty"`
	Ünï     int8               `json:",string"`
	D14     int                `json:"kebab-case"`
}

type G200136 struct {
	Name struct {
		B *sp.UTI8 `json:"$"`
		D []sp.UTMap
	}
	Bar   struct{} `json:",omitempty"`
	Größe *map[int64]sp.UTMap
	Kk    *float32           `json:"dotted.name,omitempty,string"`
	X     int8               `json:"-"`
	Name2 map[uint][]sp.RPSl `json:"a"`
	Y     struct{}           `json:",string"`
	ID    []struct {
		uKSs               int32
		KSs                struct{}
		uLongFieldNameHere int32
		LongFieldNameHere  [3]any `json:"long_tag_name_for_matching"`
		ID                 int64
		F126               struct {
			F1 sp.UJEmpty `json:",foo"`
		} `json:","`
		F220 map[string]sp.NU8 `json:"-"`
	}
	Foo *struct {
		KSs                 string          `json:"名前"`
		Größe               any             `json:"s"`
		LongFieldNameHere11 map[int32]int16 `json:"with space"`
		uY                  int32
		Y                   []int32 `json:"Kelvin"`
		Kk                  sp.NSl
		Name                uint64
	} `json:"k"`
}

type G200137 [7]struct {
	Kk                sp.NU8 `json:"x/y"`
	D                 sp.BadMutA
	F26               map[sp.KTInt]int `json:"UPPER"`
	C                 sp.NSl           `json:"foo_bar"`
	Bar               []int64
	LongFieldNameHere int8 `json:"k"`
}

type G200138 struct {
	Y26 struct {
		uC      int32
		C       float64 `json:"-"`
		uValue  int32
		Value   sp.NU64
		Größe11 jd.Number `json:"Value"`
		Name    struct {
			Value sp.BadSlSl `json:"-"`
		} `json:",string,omitempty"`
		KSs   any `json:"long_tag_name_for_matching"`
		A     int `json:"mixedCase"`
		C18   sp.UJ
		KSs28 float32 `json:"k"`
	}
	Kk27 struct {
		Bar               int
		LongFieldNameHere int `json:"名前"`
	}
	LongFieldNameHere sp.UTBool `json:"long_tag_name_for_matching"`
}

type G200139 map[sp.NU8][]struct {
	Bar    sp.UJU8
	Value  uint16
	B      int32
	X      uint16  `json:"UPPER,omitempty,string"`
	BarBaz sp.NI16 `json:"-,"`
	Größe  any
	C7     bool       `json:"dotted.name"`
	F1     sp.UJEmpty `json:",omitempty"`
	Ss     sp.UJ      `json:"id"`
}

type G200140 struct {
	B    []map[sp.NInt]sp.BadPtr
	Type struct {
		KSs bool `json:"x/y"`
	}
	Data int
}

type G200141 struct {
	Ünï [3]struct {
		Data  jd.Number `json:"dotted.name"`
		KSs   uint8     `json:"п"`
		Größe sp.NF64   `json:"$"`
	} `json:"-"`
	Kk   sp.RUnm `json:",foo"`
	Name struct {
		KSs sp.NF64          `json:"-"`
		ID  json.Unmarshaler `json:"kebab-case"`
		D7  sp.UTBool
	}
	Größe struct {
		Ss20 uint32
		Y25  jd.Number
		uA   int32
		A    int32 `json:"id,omitempty,string"`
	}
	Bar26 map[sp.NU8]struct {
		B       jd.Number `json:"-"`
		F1      float64   `json:"п"`
		Type    int
		Kk      json.RawMessage `json:"foo_bar"`
		X       jd.Number       `json:"dotted.name"`
		BarBaz5 any
		ID1     uint32 `json:"é"`
		Data    uint16 `json:"-"`
		Ss12    uint   `json:",omitempty,string"`
	} `json:"-"`
}

type G200142 []struct{ X sp.RPSl }

type G200143 struct {
	Name  sp.BadSlSl
	Value int `json:"-"`
}

type G200144 [][7]*sp.BadStSl

type G200145 []sp.UTSlice

type G200146 [2]struct {
	F1 *json.Unmarshaler `json:"$"`
}

type G200147 *[4]struct {
	Value   bool `json:"-"`
	Ss      sp.UJSlice
	B18     sp.NI8  `json:","`
	KSs     sp.NInt `json:"-"`
	Größe13 struct {
		A, B int
		C    chan int
	} `json:"dotted.name"`
	Kk  int
	Ünï int      `json:"foo"`
	D   sp.UJStr `json:"-"`
	Y4  int32    `json:",string"`
}

type G200148 [0]struct{ BarBaz int64 }

type G200149 []struct {
	Data4   any
	Value   time.Time                `json:",foo"`
	A       encoding.TextUnmarshaler `json:"п"`
	D       int                      `json:"-"`
	Größe16 struct{}
	ID      [0]float32
	Name3   struct{} `json:"名前"`
	BarBaz  []any
}

type G200150 struct {
	KSs  map[sp.KTStr]float32 `json:","`
	Ss   []func(int) error    `json:"Kelvin"`
	Bar  map[sp.KTArr]sp.RUnm
	Type *[7]uint64
}

type G200151 map[sp.NInt]struct {
	Größe    [4]string
	Type     int  `json:"dotted.name"`
	F1       bool `json:"größe,string"`
	A        uint8
	X        []uint64 `json:"foo_bar"`
	F2       sp.NStr
	Ss18     sp.NSS
	uGröße22 int32
	Größe22  int8
}

type G200152 map[string]map[sp.NStr]unsafe.Pointer

type G200153 struct {
	KSs   struct{ BarBaz1 []map[[2]int]string }
	Name  []sp.UJStr
	D15   map[sp.NStr]struct{}
	Größe *struct {
		Value17           int16   `json:"UPPER,string"`
		F1                int     `json:","`
		C                 sp.NEmp `json:"п"`
		Größe             uint8
		Data              sp.NI16 `json:"with space"`
		Foo               int
		LongFieldNameHere uint8  `json:",foo"`
		ID                int16  `json:"größe,string"`
		Ünï               uint64 `json:","`
	} `json:",omitempty"`
	D struct {
		LongFieldNameHere17 int `json:"k"`
		Name5               int `json:"é"`
		C                   struct {
			Y1                int `json:",omitempty,string"`
			LongFieldNameHere any `json:",omitempty"`
			Foo               int
			Y                 int
			ID                int32 `json:","`
			Kk                sp.UTSlice
			Ünï               sp.UTInt
			Type              sp.UT `json:"$"`
			uData             int32
			Data              sp.NF32
		} `json:"$"`
		Data struct {
			X    string `json:"-"`
			Data int    `json:"Kelvin"`
		} `json:"-"`
		Type23 sp.UT `json:"foo_bar"`
		X      int   `json:"mixedCase"`
	}
	B                 map[sp.KTStr]uint16
	F2                net.IP `json:",omitempty,string"`
	X26               struct{ Data3 map[int]sp.NI8 }
	LongFieldNameHere *map[int64]sp.RMapSlice `json:",foo"`
}

type G200154 []struct {
	F1  *sp.RPP
	KSs sp.UTSlice
	ID  struct {
		Bar uint `json:"s"`
		Ss  sp.UTSlice
		X   sp.UJBool `json:"UPPER"`
		ID  sp.NU64   `json:"Kelvin"`
	}
	Foo struct{ F2 bool } `json:"$"`
	D   map[int32]float64 `json:"id,omitempty,string"`
}

type G200155 []struct {
	BarBaz            *sp.UJU8 `json:"-"`
	uName             int32
	Name              uint `json:",string"`
	LongFieldNameHere int  `json:"id"`
	Y                 struct {
		Bar sp.BadArr
		B   int `json:"a"`
		ID  int
	} `json:"s"`
	A    []int32
	Ss23 int `json:"foo_bar"`
}

type G200156 *struct {
	Größe struct {
		Größe uint8 `json:","`
		Foo   struct{}
		Foo15 sp.BadArr `json:"0"`
		A     int
		KSs15 uint8 `json:",string"`
		uC    int32
		C     int8 `json:"mixedCase"`
		Ünï   sp.NU64
		F1    sp.RPMap
		ID    jd.Number
	}
	X9 sp.NU8 `json:"$"`
}

type G200157 map[int8]int32

type G200158 struct {
	BarBaz sp.BadStSl
	F1     *int
	Foo    *map[string]sp.UTMap `json:","`
	Kk     *[]int
	KSs    sp.UTSlice `json:"x/y"`
	D      struct {
		BarBaz sp.RAny
		Y      struct {
			BarBaz            int16
			Kk15              sp.UTArr `json:"-"`
			LongFieldNameHere sp.UJU8  `json:"foo"`
		}
		Y1   int8 `json:"a"`
		F2   map[sp.NInt]sp.NSl
		Data int
		ID   int
	}
	A     *[2]int32 `json:"名前"`
	Größe struct {
		ID    int        `json:"x/y"`
		Foo10 struct{}   `json:"dotted.name"`
		Ss    sp.UJEmpty `json:"名前"`
	}
	uType int32
	Type  [2]bool
}

type G200159 *struct{ X *complex128 }

func init() {
	hv.B[*G200000]("*G200000")
	hv.B[*G200001]("*G200001")
	hv.B[*G200002]("*G200002")
	hv.B[*G200003]("*G200003")
	hv.B[*G200004]("*G200004")
	hv.B[*G200005]("*G200005")
	hv.B[*G200006]("*G200006")
	hv.B[*G200007]("*G200007")
	hv.B[*G200008]("*G200008")
	hv.B[*G200009]("*G200009")
	hv.B[*G200010]("*G200010")
	hv.B[*G200011]("*G200011")
	hv.B[*G200012]("*G200012")
	hv.B[*G200013]("*G200013")
	hv.B[*G200014]("*G200014")
	hv.B[*G200015]("*G200015")
	hv.B[*G200016]("*G200016")
	hv.B[*G200017]("*G200017")
	hv.B[*G200018]("*G200018")
	hv.B[*G200019]("*G200019")
	hv.B[*G200020]("*G200020")
	hv.B[*G200021]("*G200021")
	hv.B[*G200022]("*G200022")
	hv.B[*G200023]("*G200023")
	hv.B[*G200024]("*G200024")
	hv.B[*G200025]("*G200025")
	hv.B[*G200026]("*G200026")
	hv.B[*G200027]("*G200027")
	hv.B[*G200028]("*G200028")
	hv.B[*G200029]("*G200029")
	hv.B[*G200030]("*G200030")
	hv.B[*G200031]("*G200031")
	hv.B[*G200032]("*G200032")
	hv.B[*G200033]("*G200033")
	hv.B[*G200034]("*G200034")
	hv.B[*G200035]("*G200035")
	hv.B[*G200036]("*G200036")
	hv.B[*G200037]("*G200037")
	hv.B[*G200038]("*G200038")
	hv.B[*G200039]("*G200039")
	hv.B[*G200040]("*G200040")
	hv.B[*G200041]("*G200041")
	hv.B[*G200042]("*G200042")
	hv.B[*G200043]("*G200043")
	hv.B[*G200044]("*G200044")
	hv.B[*G200045]("*G200045")
	hv.B[*G200046]("*G200046")
	hv.B[*G200047]("*G200047")
	hv.B[*G200048]("*G200048")
	hv.B[*G200049]("*G200049")
	hv.B[*G200050]("*G200050")
	hv.B[*G200051]("*G200051")
	hv.B[*G200052]("*G200052")
	hv.B[*G200053]("*G200053")
	hv.B[*G200054]("*G200054")
	hv.B[*G200055]("*G200055")
	hv.B[*G200056]("*G200056")
	hv.B[*G200057]("*G200057")
	hv.B[*G200058]("*G200058")
	hv.B[*G200059]("*G200059")
	hv.B[*G200060]("*G200060")
	hv.B[*G200061]("*G200061")
	hv.B[*G200062]("*G200062")
	hv.B[*G200063]("*G200063")
	hv.B[*G200064]("*G200064")
	hv.B[*G200065]("*G200065")
	hv.B[*G200066]("*G200066")
	hv.B[*G200067]("*G200067")
	hv.B[*G200068]("*G200068")
	hv.B[*G200069]("*G200069")
	hv.B[*G200070]("*G200070")
	hv.B[*G200071]("*G200071")
	hv.B[*G200072]("*G200072")
	hv.B[*G200073]("*G200073")
	hv.B[*G200074]("*G200074")
	hv.B[*G200075]("*G200075")
	hv.B[*G200076]("*G200076")
	hv.B[*G200077]("*G200077")
	hv.B[*G200078]("*G200078")
	hv.B[*G200079]("*G200079")
	hv.B[*G200080]("*G200080")
	hv.B[*G200081]("*G200081")
	hv.B[*G200082]("*G200082")
	hv.B[*G200083]("*G200083")
	hv.B[*G200084]("*G200084")
	hv.B[*G200085]("*G200085")
	hv.B[*G200086]("*G200086")
	hv.B[*G200087]("*G200087")
	hv.B[*G200088]("*G200088")
	hv.B[*G200089]("*G200089")
	hv.B[*G200090]("*G200090")
	hv.B[*G200091]("*G200091")
	hv.B[*G200092]("*G200092")
	hv.B[*G200093]("*G200093")
	hv.B[*G200094]("*G200094")
	hv.B[*G200095]("*G200095")
	hv.B[*G200096]("*G200096")
	hv.B[*G200097]("*G200097")
	hv.B[*G200098]("*G200098")
	hv.B[*G200099]("*G200099")
	hv.B[*G200100]("*G200100")
	hv.B[*G200101]("*G200101")
	hv.B[*G200102]("*G200102")
	hv.B[*G200103]("*G200103")
	hv.B[*G200104]("*G200104")
	hv.B[*G200105]("*G200105")
	hv.B[*G200106]("*G200106")
	hv.B[*G200107]("*G200107")
	hv.B[*G200108]("*G200108")
	hv.B[*G200109]("*G200109")
	hv.B[*G200110]("*G200110")
	hv.B[*G200111]("*G200111")
	hv.B[*G200112]("*G200112")
	hv.B[*G200113]("*G200113")
	hv.B[*G200114]("*G200114")
	hv.B[*G200115]("*G200115")
	hv.B[*G200116]("*G200116")
	hv.B[*G200117]("*G200117")
	hv.B[*G200118]("*G200118")
	hv.B[*G200119]("*G200119")
	hv.B[*G200120]("*G200120")
	hv.B[*G200121]("*G200121")
	hv.B[*G200122]("*G200122")
	hv.B[*G200123]("*G200123")
	hv.B[*G200124]("*G200124")
	hv.B[*G200125]("*G200125")
	hv.B[*G200126]("*G200126")
	hv.B[*G200127]("*G200127")
	hv.B[*G200128]("*G200128")
	hv.B[*G200129]("*G200129")
	hv.B[*G200130]("*G200130")
	hv.B[*G200131]("*G200131")
	hv.B[*G200132]("*G200132")
	hv.B[*G200133]("*G200133")
	hv.B[*G200134]("*G200134")
	hv.B[*G200135]("*G200135")
	hv.B[*G200136]("*G200136")
	hv.B[*G200137]("*G200137")
	hv.B[*G200138]("*G200138")
	hv.B[*G200139]("*G200139")
	hv.B[*G200140]("*G200140")
	hv.B[*G200141]("*G200141")
	hv.B[*G200142]("*G200142")
	hv.B[*G200143]("*G200143")
	hv.B[*G200144]("*G200144")
	hv.B[*G200145]("*G200145")
	hv.B[*G200146]("*G200146")
	hv.B[*G200147]("*G200147")
	hv.B[*G200148]("*G200148")
	hv.B[*G200149]("*G200149")
	hv.B[*G200150]("*G200150")
	hv.B[*G200151]("*G200151")
	hv.B[*G200152]("*G200152")
	hv.B[*G200153]("*G200153")
	hv.B[*G200154]("*G200154")
	hv.B[*G200155]("*G200155")
	hv.B[*G200156]("*G200156")
	hv.B[*G200157]("*G200157")
	hv.B[*G200158]("*G200158")
	hv.B[*G200159]("*G200159")
}
