// Code generated by typegen -seed 1. DO NOT EDIT.

package gdir

import (
	"encoding"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"time"
	"unsafe"

	jd "github.com/romshark/jscan-experimental-decoder"
	"verif/harness/hv"
	"verif/harness/sp"
)

var (
	_ encoding.TextUnmarshaler
	_ fmt.Stringer
	_ io.Reader
	_ unsafe.Pointer
	_ json.RawMessage
	_ big.Int
	_ net.IP
	_ time.Time
	_ jd.Number
	_ sp.UJ
)

type G100000 []map[int16]sp.NInt

type G100001 map[sp.KTArr]map[sp.KTArr]struct {
	C     int
	Type  uint
	F2    sp.RBig
	Ünï   float32
	F1    int64
	Größe float32 `json:"foo"`
}

type G100002 map[string]*struct {
	F1   sp.RTwo  `json:"foo_bar"`
	Type sp.NInt  `json:","`
	Ünï  struct{} `json:"with space"`
}

type G100003 *[]struct {
	Foo    int32
	A13    sp.UJ
	Kk     map[int8]jd.Number
	BarBaz sp.UBoth
	X      sp.NEmp `json:",foo"`
	Ss     int64   `json:"-"`
}

type G100003R *[]struct {
	Foo    int32
	A13    sp.UJ
	Kk     map[int8]json.Number
	BarBaz sp.UBoth
	X      sp.NEmp `json:",foo"`
	Ss     int64   `json:"-"`
}

type G100004 sp.RTextKey

type G100005 [][]struct {
	C20    any
	Value1 [4]jd.Number `json:"Kelvin"`
	Ss     struct {
		B     json.RawMessage `json:"s"`
		Ss    float32         `json:"mixedCase"`
		F2    float64         `json:"größe"`
		Data8 sp.UTF
		Value sp.NF32 `json:",omitempty"`
		ID7   uint    `json:"-"`
	} `json:","`
	KSs8  map[string]sp.NU8 `json:",string"`
	Value string            `json:"dotted.name"`
	Foo   int64             `json:",foo"`
}

type G100005R [][]struct {
	C20    any
	Value1 [4]json.Number `json:"Kelvin"`
	Ss     struct {
		B     json.RawMessage `json:"s"`
		Ss    float32         `json:"mixedCase"`
		F2    float64         `json:"größe"`
		Data8 sp.UTF
		Value sp.NF32 `json:",omitempty"`
		ID7   uint    `json:"-"`
	} `json:","`
	KSs8  map[string]sp.NU8 `json:",string"`
	Value string            `json:"dotted.name"`
	Foo   int64             `json:",foo"`
}

type G100006 [2]string

type G100007 struct {
	ID                 sp.NEmp
	Value              sp.UTStr `json:"with space"`
	Y                  struct{}
	LongFieldNameHere7 struct {
		X       *any
		BarBaz6 struct {
			A      map[sp.NInt]sp.NU8 `json:"п,omitempty,string"`
			BarBaz [3]sp.NI8          `json:"kebab-case"`
			uB27   int32
			B27    int32 `json:","`
			Kk     struct{}
		}
		A       []bool `json:"$"`
		BarBaz5 []struct {
			uX                int32
			X                 int32      `json:"größe,string"`
			LongFieldNameHere int64      `json:"dotted.name,string"`
			Type              sp.NSl     `json:"-,"`
			Value             jd.Number  `json:",omitempty"`
			Ünï               sp.RArr    `json:"with space"`
			A2                bool       `json:"a"`
			Ss                sp.UTSlice `json:","`
			F29               uint8
			D                 jd.Number
		} `json:",string"`
		Kk3    sp.UTArr
		BarBaz sp.NU8 `json:",foo"`
		uGröße int32
		Größe  struct {
			Data int8 `json:"kebab-case"`
		} `json:"$"`
		Data float32 `json:",foo"`
	}
	Ünï map[sp.NInt][1]sp.NMap `json:"Kelvin,omitempty,string"`
}

type G100007R struct {
	ID                 sp.NEmp
	Value              sp.UTStr `json:"with space"`
	Y                  struct{}
	LongFieldNameHere7 struct {
		X       *any
		BarBaz6 struct {
			A      map[sp.NInt]sp.NU8 `json:"п,omitempty,string"`
			BarBaz [3]sp.NI8          `json:"kebab-case"`
			uB27   int32
			B27    int32 `json:","`
			Kk     struct{}
		}
		A       []bool `json:"$"`
		BarBaz5 []struct {
			uX                int32
			X                 int32       `json:"größe,string"`
			LongFieldNameHere int64       `json:"dotted.name,string"`
			Type              sp.NSl      `json:"-,"`
			Value             json.Number `json:",omitempty"`
			Ünï               sp.RArr     `json:"with space"`
			A2                bool        `json:"a"`
			Ss                sp.UTSlice  `json:","`
			F29               uint8
			D                 json.Number
		} `json:",string"`
		Kk3    sp.UTArr
		BarBaz sp.NU8 `json:",foo"`
		uGröße int32
		Größe  struct {
			Data int8 `json:"kebab-case"`
		} `json:"$"`
		Data float32 `json:",foo"`
	}
	Ünï map[sp.NInt][1]sp.NMap `json:"Kelvin,omitempty,string"`
}

type G100008 [1]*int8

type G100009 [7]*struct {
	B   sp.NU64
	KSs *float64 `json:",omitempty"`
}

type G100010 sp.UTStr

type G100011 [][]map[sp.NStr][2]uint32

type G100012 map[sp.NStr]int16

type G100013 map[sp.NInt][]*sp.NMap

type G100014 struct {
	Name  int64 `json:","`
	Value []any
	F129  *map[int8]float32
	C     struct {
		C                   [0]int16 `json:","`
		D                   sp.UJEmpty
		BarBaz              uint32  `json:",string"`
		LongFieldNameHere23 uint32  `json:",string"`
		Name                *uint64 `json:"long_tag_name_for_matching"`
	} `json:"id"`
	B struct {
		Foo   sp.NSS
		Type  string
		ID    uint8
		D     uint64   `json:"with space"`
		A     sp.UBoth `json:"-"`
		uB    int32
		B     sp.NInt `json:",string"`
		Kk    uint32
		Größe sp.UJF
	} `json:"$,string"`
	LongFieldNameHere map[int]map[sp.NStr]sp.UJArr `json:"with space"`
}

type G100015 struct{ B []map[sp.NStr]map[sp.KT]int64 }

type G100016 [4]struct {
	Ünï map[string]struct{} `json:",string"`
}

type G100017 map[sp.KTArr]struct{}

type G100018 sp.UJBool

type G100019 [][]*struct{}

type G100020 struct {
	Ss   []sp.UTArr `json:"with space"`
	Bar3 [][]int
	Kk8  sp.NSl
}

type G100021 [7][]string

type G100022 [7]struct {
	F2 struct {
		Type23 sp.NU8 `json:",foo"`
		C      int8   `json:",omitempty,string"`
		Ünï    any    `json:",string"`
	} `json:"dotted.name"`
	Bar *struct{}
}

type G100023 [2]struct {
	Foo6 struct {
		X        [1]sp.NSl `json:"foo_bar"`
		ID       int32     `json:"Kelvin"`
		BarBaz10 []uint64  `json:"a"`
	} `json:"é"`
	Ss     [1]map[sp.KTArr]int32 `json:"$"`
	BarBaz map[int32]struct{}    `json:"a"`
	Größe  []jd.Number           `json:"foo_bar"`
	Y5     struct {
		X5     int16
		BarBaz []sp.UT
		Foo    sp.RB `json:"-,"`
		D      sp.UJ `json:"-"`
	} `json:"0"`
}

type G100023R [2]struct {
	Foo6 struct {
		X        [1]sp.NSl `json:"foo_bar"`
		ID       int32     `json:"Kelvin"`
		BarBaz10 []uint64  `json:"a"`
	} `json:"é"`
	Ss     [1]map[sp.KTArr]int32 `json:"$"`
	BarBaz map[int32]struct{}    `json:"a"`
	Größe  []json.Number         `json:"foo_bar"`
	Y5     struct {
		X5     int16
		BarBaz []sp.UT
		Foo    sp.RB `json:"-,"`
		D      sp.UJ `json:"-"`
	} `json:"0"`
}

func init() {
	hv.D[G100000]("G100000")
	hv.D[G100001]("G100001")
	hv.D[G100002]("G100002")
	hv.Reg[G100003, G100003R]("G100003")
	hv.D[G100004]("G100004")
	hv.Reg[G100005, G100005R]("G100005")
	hv.D[G100006]("G100006")
	hv.Reg[G100007, G100007R]("G100007")
	hv.D[G100008]("G100008")
	hv.D[G100009]("G100009")
	hv.D[G100010]("G100010")
	hv.D[G100011]("G100011")
	hv.D[G100012]("G100012")
	hv.D[G100013]("G100013")
	hv.D[G100014]("G100014")
	hv.D[G100015]("G100015")
	hv.D[G100016]("G100016")
	hv.D[G100017]("G100017")
	hv.D[G100018]("G100018")
	hv.D[G100019]("G100019")
	hv.D[G100020]("G100020")
	hv.D[G100021]("G100021")
	hv.D[G100022]("G100022")
	hv.Reg[G100023, G100023R]("G100023")
}
