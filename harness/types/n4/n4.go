// Package n4 has generic types, types declared in functions, types made of
// different types of the same name, and types of the standard library.
package n4

import (
	"database/sql"
	"encoding/json"
	"log/slog"
	"math/big"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"os"
	"sync"
	"time"

	jd "github.com/romshark/jscan-experimental-decoder"
	"verif/harness/hv"
	n1 "verif/harness/types/n1/shape"
	n2 "verif/harness/types/n2/shape"
	n3 "verif/harness/types/n3/shape"
)

type (
	// Box is recursive for every V.
	Box[V any] struct {
		V    V
		Next *Box[V]
		M    map[string]Box[V]
		L    []Box[V]
	}
	Pair[A, B any] struct {
		A A
		B B
	}
	Set[K comparable] map[K]struct{}
	List[V any]       []V
	Opt[V any]        struct {
		Set bool `json:"set,omitempty"`
		V   *V
	}
	// X, Y and Z are mutually recursive through generic types.
	X struct {
		P Pair[Y, *Y]
		N int
	}
	Y struct {
		L List[X]
		O Opt[Z]
		S string
	}
	Z struct {
		X *X
		B Box[int8]
		Y List[Y]
		V int16
	}
	// Mix and MixR contain different types of the same name.
	Mix struct {
		A n1.T
		B n2.T
		C n3.T
		D []n1.T
		E []n2.T
		F map[string]n3.T
		G map[n1.E]n2.E
		H n2.U
		I n3.U
		J n1.U
	}
	MixR struct {
		A *n1.R
		B n2.R
		C *n3.R
		D []n1.R
		E map[string]n2.R
		F []*n3.R
		G *MixR
	}
	MixW struct {
		A n3.W
		B []n2.W
		C *n1.W
	}
	// T hides nothing but has the name of the others.
	T struct {
		T n1.T
		U struct{ T n2.T }
		V []struct{ T *n3.T }
	}
	Std struct {
		mu sync.Mutex
		A  sql.NullString
		B  *sql.NullInt64
		C  url.URL
		D  []netip.Addr
		E  map[netip.Addr]net.IP
		F  *slog.Level
		G  http.Header
		H  time.Duration
		I  *big.Float
		J  os.FileMode
		K  []net.IPNet
		L  json.RawMessage
		M  time.Time
		N  map[time.Month]time.Weekday
		O  net.HardwareAddr
	}
)

func (s *Std) touch() { s.mu.Lock() }

// Three local types of the same name, two of them recursive.
func local1() {
	type Local struct {
		A int
		N *Local
	}
	hv.D[Local]("local1")
	hv.D[[]Local]("[]local1")
	hv.D[Pair[Local, int]]("Pair[local1,int]")
}

func local2() {
	type Local struct {
		N []Local
		A string
	}
	hv.D[Local]("local2")
	hv.D[map[string]Local]("map[string]local2")
	hv.D[Pair[Local, int]]("Pair[local2,int]")
}

func local3() {
	type Local struct{ A, N []int8 }
	hv.D[Local]("local3")
	hv.D[[]Local]("[]local3")
	hv.D[Pair[Local, int]]("Pair[local3,int]")
}

func init() {
	local1()
	local2()
	local3()
	hv.D[Box[int]]("Box[int]")
	hv.D[Box[string]]("Box[string]")
	hv.D[*Box[[]string]]("*Box[[]string]")
	hv.D[Box[Box[int8]]]("Box[Box[int8]]")
	hv.D[Box[any]]("Box[any]")
	hv.D[Box[n1.T]]("Box[n1.T]")
	hv.D[Box[n2.T]]("Box[n2.T]")
	hv.D[Box[n3.R]]("Box[n3.R]")
	hv.D[Box[struct{}]]("Box[struct{}]")
	hv.D[[]Box[map[string]int]]("[]Box[map[string]int]")
	hv.Reg[Box[jd.Number], Box[json.Number]]("Box[Number]")
	hv.D[Pair[Box[int], Box[string]]]("Pair[Box[int],Box[string]]")
	hv.D[Pair[Box[string], []Box[int]]]("Pair[Box[string],[]Box[int]]")
	hv.D[Pair[n1.R, n2.R]]("Pair[n1.R,n2.R]")
	hv.D[Pair[n3.R, n1.R]]("Pair[n3.R,n1.R]")
	hv.D[Pair[n1.S, Pair[n2.S, n3.S]]]("Pair[n1.S,Pair[n2.S,n3.S]]")
	hv.D[Pair[n1.M, Pair[n2.M, n3.M]]]("Pair[n1.M,Pair[n2.M,n3.M]]")
	hv.D[Set[string]]("Set[string]")
	hv.D[Set[int8]]("Set[int8]")
	hv.D[List[List[int]]]("List[List[int]]")
	hv.D[List[Opt[int]]]("List[Opt[int]]")
	hv.D[Opt[Opt[[]int]]]("Opt[Opt[[]int]]")
	hv.D[X]("n4.X")
	hv.D[*Y]("*n4.Y")
	hv.D[[]Z]("[]n4.Z")
	hv.D[Mix]("n4.Mix")
	hv.D[[]Mix]("[]n4.Mix")
	hv.D[MixR]("n4.MixR")
	hv.D[map[string]MixR]("map[string]n4.MixR")
	hv.D[*MixW]("*n4.MixW")
	hv.D[T]("n4.T")
	hv.D[[2]T]("[2]n4.T")
	hv.D[Std]("n4.Std")
	hv.D[[]*Std]("[]*n4.Std")
	hv.D[slog.Level]("slog.Level")
	hv.D[netip.Addr]("netip.Addr")
	hv.D[sql.NullBool]("sql.NullBool")
	hv.D[url.Values]("url.Values")
	hv.D[time.Duration]("time.Duration")
}
