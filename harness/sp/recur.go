package sp

// Recursive types of many shapes.
type (
	RPtr struct {
		V    int
		Next *RPtr
	}
	RPtrFirst struct {
		Next *RPtrFirst
		V    int
	}
	RSlice struct {
		ID   string
		Kids []RSlice
		V    int
	}
	RSliceFirst struct {
		Kids []RSliceFirst
		V    int
		W    string
	}
	RMap struct {
		ID string
		M  map[string]RMap
		V  int
	}
	RMapFirst struct {
		M map[string]RMapFirst
		V int
	}
	RMix struct {
		P *RMix
		S []RMix
		M map[string]RMix
		V int
		A any
	}
	RPtrSlice struct {
		V int
		S []*RPtrSlice
		W int8
	}
	RPtrMap struct {
		M map[string]*RPtrMap
		V int
	}
	RMapSlice struct {
		M map[string][]RMapSlice
		V int
	}
	RSliceMap struct {
		S []map[string]RSliceMap
		V int
	}
	RSliceSlice struct {
		W string
		S [][]RSliceSlice
		V int
	}
	RArr struct {
		A [2]*RArr
		V int
	}
	RArrMap struct {
		V int
		A [2]map[string]RArrMap
		W string
	}
	RArrSlice struct {
		A [2][]RArrSlice
		V int
	}
	RNest struct {
		W string
		N struct {
			P *RNest
			Q int
			L []RNest
			R string
		}
		V int
	}
	RPP struct {
		P **RPP
		V int
	}
	RPSl struct {
		P *[]RPSl
		V int
	}
	RPMap struct {
		P *map[string]RPMap
		V int
	}
	RA struct {
		B *RB
		V int
	}
	RB struct {
		A []RA
		S string
		M map[string]RB
	}
	RC struct {
		V int
		D RD
		W string
	}
	RD struct {
		C []RC
		M map[int]RC
		D *RD
		V int
	}
	SX struct {
		A int
		B string
		C *int
	}
	RSib struct {
		A SX
		B []SX
		C map[string]SX
		D *SX
		E SX
		F []SX
		G *SX
	}
	RX struct {
		L []RSibRec
		V int
	}
	RSibRec struct {
		A RX
		B []RX
		C []RSibRec
		D *RX
		V string
		M map[string]RX
	}
	RIntMap struct {
		V int
		M map[int]RIntMap
		N map[uint8]RIntMap
	}
	RTextKey struct {
		M map[KT]RTextKey
		V int
		N map[KTStr]RTextKey
	}
	RAny struct {
		A any
		N *RAny
		B []any
	}
	RUnm struct {
		U UJ
		N *RUnm
		T UT
		L []RUnm
		K []UJ
	}
	RStrTag struct {
		V int `json:",string"`
		N []RStrTag
		B bool `json:"b,string"`
		P *RStrTag
	}
	ROuter struct {
		X int
		N RPtr
		Y int
		L []RSlice
		Z string
		M map[string]RMap
		A [2]RPtr
		Q RSlice
		R RMap
		W int
	}
	// RU decodes itself although it contains itself.
	RSelfU struct {
		A UJ
		B []UJ
		C *UJ
		D map[string]UJ
		E []*UJ
		F UT
		G []UT
		H *UT
		I map[string]UT
	}
	RTwo struct {
		L, R *RTwo
		V    int
	}
	RBig struct {
		Pad [20]int64
		M   map[string]RBig
		V   int
		S   []RBig
	}
	RMany struct {
		A, B, C, D, E int
		P             *RMany `json:"p"`
		Q             []RMany
		F, G          string
		R             map[string]RMany `json:"r,omitempty"`
	}
	RLinks struct {
		V  int
		P1 *RLinks
		X  struct {
			P2 *RLinks
			Y  int
		}
		P3 *RLinks
		Z  []struct {
			A int
			P *RLinks
			B string
		}
		W string
	}
	RTag struct {
		V int
		S []RTag `json:"s"`
		I int    `json:"-"`
		u int
		T string `json:"t,string"`
	}
	RDeep3 struct {
		A struct {
			B struct {
				C []RDeep3
				V int
			}
			W []int
		}
		M map[string]struct {
			K *RDeep3
			L string
		}
		V string
	}
)

func (r *RTag) touch() { r.u++ }
