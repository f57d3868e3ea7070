// Package orc compares, copies and fills values by reflection.
package orc

import (
	"fmt"
	"math"
	"math/big"
	"net/netip"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"verif/harness/pbt"
)

// Eq compares two values that have the same shape (the types may differ in
// Number versus json.Number). It returns "" or the path of a difference.
func Eq(a, b reflect.Value) string { return eq(a, b, "v", 0) }

func eq(a, b reflect.Value, path string, d int) string {
	if a.Kind() != b.Kind() {
		return fmt.Sprintf("%s: kind %v versus %v", path, a.Kind(), b.Kind())
	}
	diff := func() string { return fmt.Sprintf("%s: %s versus %s", path, Show(a, 300), Show(b, 300)) }
	switch a.Kind() {
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return diff()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return diff()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return diff()
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return diff()
		}
	case reflect.String:
		if a.String() != b.String() {
			return diff()
		}
	case reflect.Pointer:
		if a.IsNil() != b.IsNil() {
			return diff()
		}
		if a.IsNil() {
			return ""
		}
		if a.Type() == b.Type() && a.Pointer() == b.Pointer() && !strings.HasPrefix(a.Type().String(), "*struct {}") {
			if a.Type() == tLoc {
				return ""
			}
		}
		return eq(a.Elem(), b.Elem(), "*"+path, d+1)
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return diff()
		}
		if a.IsNil() {
			return ""
		}
		a, b = a.Elem(), b.Elem()
		if a.Type() != b.Type() {
			return fmt.Sprintf("%s: dynamic type %v versus %v", path, a.Type(), b.Type())
		}
		return eq(a, b, path+".(any)", d+1)
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return fmt.Sprintf("%s: slice nil=%v len=%d versus nil=%v len=%d", path, a.IsNil(), a.Len(), b.IsNil(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if r := eq(a.Index(i), b.Index(i), path+"["+strconv.Itoa(i)+"]", d+1); r != "" {
				return r
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if r := eq(a.Index(i), b.Index(i), path+"["+strconv.Itoa(i)+"]", d+1); r != "" {
				return r
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return fmt.Sprintf("%s: map nil=%v len=%d versus nil=%v len=%d", path, a.IsNil(), a.Len(), b.IsNil(), b.Len())
		}
		n := 0
		for it := a.MapRange(); it.Next(); n++ {
			k := it.Key()
			if k.Type() != b.Type().Key() {
				k = k.Convert(b.Type().Key())
			}
			bv := b.MapIndex(k)
			if !bv.IsValid() {
				return fmt.Sprintf("%s: key %s only in one map", path, Show(k, 100))
			}
			if r := eq(it.Value(), bv, path+"["+Show(k, 60)+"]", d+1); r != "" {
				return r
			}
			if !a.MapIndex(it.Key()).IsValid() {
				return fmt.Sprintf("%s: key %s is in the map but lookup fails", path, Show(k, 100))
			}
		}
		if n != a.Len() {
			return fmt.Sprintf("%s: map of length %d has %d entries", path, a.Len(), n)
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).Name == "_" {
				continue
			}
			if r := eq(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name, d+1); r != "" {
				return r
			}
		}
	}
	return ""
}

var (
	tMutex = reflect.TypeOf(sync.Mutex{})
	tAddr  = reflect.TypeOf(netip.Addr{})
	tLoc   = reflect.TypeOf((*time.Location)(nil))
	tTime  = reflect.TypeOf(time.Time{})
	tBig   = reflect.TypeOf(big.Int{})
)

// Hash digests a value (same for Eq values).
func Hash(v reflect.Value) uint64 { return pbt.HashBytes(Show(v, 1<<16)) }

// Show prints a value, with at most max bytes.
func Show(v reflect.Value, max int) string {
	var b strings.Builder
	show(&b, v, max)
	s := b.String()
	if len(s) > max {
		s = s[:max] + "..."
	}
	return s
}

func show(b *strings.Builder, v reflect.Value, max int) {
	if b.Len() > max {
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
		if f := v.Float(); f == 0 && math.Signbit(f) {
			b.WriteString("(negative)")
		}
	case reflect.String:
		s := v.String()
		if len(s) > max {
			s = s[:max]
		}
		b.WriteString(strconv.Quote(s))
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Type() == tLoc {
			b.WriteString("loc")
			return
		}
		b.WriteByte('&')
		show(b, v.Elem(), max)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%v(", v.Elem().Type())
		show(b, v.Elem(), max)
		b.WriteByte(')')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len() && b.Len() <= max; i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			show(b, v.Index(i), max)
		}
		b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		var es []string
		for it := v.MapRange(); it.Next(); {
			es = append(es, Show(it.Key(), 200)+":"+Show(it.Value(), max))
		}
		sort.Strings(es)
		b.WriteString("map[" + strings.Join(es, " ") + "]")
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			show(b, v.Field(i), max)
		}
		b.WriteByte('}')
	default:
		b.WriteString(v.Kind().String())
	}
}

// rw makes a (possibly unexported) field of an addressable struct writable.
func rw(v reflect.Value) reflect.Value {
	if v.CanSet() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// Copy copies src deeply into the addressable dst of the same shape, with the
// same slice capacities and contents beyond the length.
func Copy(dst, src reflect.Value) {
	dst = rw(dst)
	switch src.Kind() {
	case reflect.Pointer:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		if src.Type() == tLoc {
			dst.Set(rw(src))
			return
		}
		p := reflect.New(dst.Type().Elem())
		Copy(p.Elem(), src.Elem())
		dst.Set(p.Convert(dst.Type()))
	case reflect.Interface:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		e := src.Elem()
		n := reflect.New(e.Type()).Elem()
		Copy(n, e)
		dst.Set(n)
	case reflect.Slice:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		s := src.Slice3(0, src.Cap(), src.Cap())
		n := reflect.MakeSlice(dst.Type(), s.Len(), s.Len())
		for i := 0; i < s.Len(); i++ {
			Copy(n.Index(i), s.Index(i))
		}
		dst.Set(n.Slice3(0, src.Len(), src.Cap()))
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			Copy(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		m := reflect.MakeMapWithSize(dst.Type(), src.Len())
		for it := src.MapRange(); it.Next(); {
			k := reflect.New(dst.Type().Key()).Elem()
			Copy(k, it.Key())
			e := reflect.New(dst.Type().Elem()).Elem()
			Copy(e, it.Value())
			m.SetMapIndex(k, e)
		}
		dst.Set(m)
	case reflect.Struct:
		if src.Type() == tAddr {
			dst.Set(rw(src))
			return
		}
		for i := 0; i < src.NumField(); i++ {
			f := src.Field(i)
			if !f.CanInterface() && !f.CanAddr() {
				// a map value with unexported fields
				c := reflect.New(src.Type()).Elem()
				c.Set(src)
				src = c
				f = src.Field(i)
			}
			Copy(dst.Field(i), rw(f))
		}
	default:
		if src.Type() != dst.Type() {
			src = src.Convert(dst.Type())
		}
		dst.Set(src)
	}
}

// Canary is memory that must not change.
type Canary struct{ now, want reflect.Value }

// Filler fills values with random contents.
type Filler struct {
	S        *pbt.Src
	Depth    int
	Budget   int
	Spare    bool // fill the spare capacity of slices
	Canaries []Canary
	// Text and Literal make strings and number literals, if set; then all
	// numbers are possible, too.
	Text, Literal func() string
	// WithCanaries puts elements behind the capacity of slices.
	WithCanaries bool
}

// Intact returns a description of the first changed canary.
func (f *Filler) Intact() string {
	for i, c := range f.Canaries {
		if r := Eq(c.now, c.want); r != "" {
			return fmt.Sprintf("canary %d behind the capacity of a %v changed: %s", i, c.now.Type(), r)
		}
	}
	return ""
}

// Fill sets the addressable v to random contents.
func (f *Filler) Fill(v reflect.Value) { f.fill(v, 0) }

func (f *Filler) fill(v reflect.Value, d int) {
	s := f.S
	f.Budget--
	t := v.Type()
	switch t {
	case tTime:
		v.Set(reflect.ValueOf(time.Unix(int64(s.Intn(1e9)), 0).UTC()))
		return
	case tAddr:
		v.Set(reflect.ValueOf(netip.AddrFrom4([4]byte{10, 0, 0, byte(s.Intn(4))})))
		return
	case tBig:
		v.Addr().Interface().(*big.Int).SetInt64(int64(s.Intn(1000)))
		return
	}
	small := d > f.Depth || f.Budget <= 0
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(s.P(700))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if f.Text != nil {
			v.SetInt(int64(f.bits(t.Bits())) << (64 - t.Bits()) >> (64 - t.Bits()))
			return
		}
		v.SetInt(int64(s.Intn(100) + 7))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if f.Text != nil {
			v.SetUint(f.bits(t.Bits()) << (64 - t.Bits()) >> (64 - t.Bits()))
			return
		}
		v.SetUint(s.U64n(100) + 7)
	case reflect.Float32, reflect.Float64:
		if f.Text != nil {
			x := math.Float64frombits(s.U64())
			switch s.Intn(4) {
			case 0:
				x = float64(math.Float32frombits(uint32(s.U64())))
			case 1:
				x = float64(int64(f.bits(64)))
			case 2:
				x = float64(int32(f.bits(32))) / 1000
			}
			if t.Bits() == 32 {
				x = float64(float32(x))
			}
			if x != x || math.IsInf(x, 0) {
				x = 1e21
			}
			v.SetFloat(x)
			return
		}
		v.SetFloat(float64(s.Intn(100)) + 0.5)
	case reflect.String:
		if t.String() == "jscandec.Number" || t.String() == "json.Number" {
			v.SetString(strconv.Itoa(s.Intn(1000)))
			if f.Literal != nil {
				v.SetString(f.Literal())
			}
		} else if f.Text != nil {
			v.SetString(f.Text())
		} else {
			v.SetString(pbt.Pick(s, []string{"old", "previous", "", "x", "stale value"}))
		}
	case reflect.Pointer:
		if small || s.P(250) {
			v.SetZero()
			return
		}
		p := reflect.New(t.Elem())
		f.fill(p.Elem(), d+1)
		v.Set(p.Convert(t))
	case reflect.Interface:
		v.Set(f.dyn(d))
	case reflect.Slice:
		if s.P(150) {
			v.SetZero()
			return
		}
		n := s.Intn(4)
		if small {
			n = 0
		} else if f.Budget > 20 && s.P(60) {
			n = s.Range(4, 40)
		}
		c := n + pbt.Pick(s, []int{0, 0, 1, 2, 5})
		x := 0
		if small {
			c = 0
		} else if f.WithCanaries {
			x = 2
		}
		b := reflect.MakeSlice(t, c+x, c+x)
		for i := 0; i < c+x; i++ {
			if i < n && (i < 4 || f.Budget > -40 || i == n-1) || i >= c || f.Spare {
				f.fill(b.Index(i), d+1)
			}
		}
		if x > 0 && t.Elem().Size() > 0 {
			want := reflect.MakeSlice(t, x, x)
			for i := 0; i < x; i++ {
				Copy(want.Index(i), b.Index(c+i))
			}
			f.Canaries = append(f.Canaries, Canary{b.Slice(c, c+x), want})
		}
		v.Set(b.Slice3(0, n, c))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if i > 0 && f.Budget <= 0 {
				return
			}
			f.fill(v.Index(i), d+1)
		}
	case reflect.Map:
		if s.P(200) {
			v.SetZero()
			return
		}
		m := reflect.MakeMap(t)
		n := s.Intn(4)
		if small {
			n = 0
		} else if f.Budget > 20 && s.P(60) {
			n = s.Range(4, 24)
		}
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			f.key(k)
			e := reflect.New(t.Elem()).Elem()
			f.fill(e, d+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !t.Field(i).IsExported() && t.Name() != "" && !strings.HasPrefix(t.PkgPath(), "verif/") || t.Field(i).Type == tMutex {
				continue // invariants of the type might be violated
			}
			f.fill(rw(v.Field(i)), d+1)
		}
	}
}

// bits makes a number of up to n bits.
func (f *Filler) bits(n int) uint64 {
	x := f.S.U64() >> (64 - n) >> f.S.Intn(n)
	switch f.S.Intn(4) {
	case 0:
		x = -x
	case 1:
		x = uint64(1)<<f.S.Intn(n) - f.S.U64n(2)
	}
	return x
}

func (f *Filler) key(k reflect.Value) {
	s := f.S
	if f.Text != nil && s.P(600) {
		f.fill(k, 0)
		return
	}
	switch k.Kind() {
	case reflect.String:
		k.SetString(pbt.Pick(s, []string{"a", "b", "c", "foo", "", "key", "K", "0", "k:a", "k:foo", "zz"}))
		if s.P(200) {
			k.SetString("old" + strconv.Itoa(s.Intn(100)))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		k.SetInt(int64(s.Intn(pbt.Pick(s, []int{8, 8, 8, 100}))))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		k.SetUint(uint64(s.Intn(pbt.Pick(s, []int{8, 8, 8, 100}))))
	default:
		f.fill(k, 0)
	}
}

type odd struct {
	A int
	B []string
}

// dyn makes the content of an interface; never a pointer, which encoding/json
// and the decoder treat differently.
func (f *Filler) dyn(d int) reflect.Value {
	s := f.S
	any0 := reflect.TypeOf((*any)(nil)).Elem()
	w := func(x any) reflect.Value {
		v := reflect.New(any0).Elem()
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return v
	}
	switch s.Intn(12) {
	case 0:
		return w(nil)
	case 1:
		return w("old")
	case 2:
		return w(1.5)
	case 3:
		return w(true)
	case 4:
		return w([]any{"x", 2.0})
	case 5:
		return w(map[string]any{"a": 1.0, "old": "y"})
	case 6:
		return w(int32(7))
	case 7:
		return w([]int{1, 2, 3, 4, 5})
	case 8:
		return w(odd{3, []string{"q"}})
	case 9:
		return w(map[string]int{"a": 5})
	case 10:
		return w([2]string{"l", "r"})
	default:
		return w([]byte("bytes"))
	}
}
