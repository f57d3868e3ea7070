// Package sp holds the hand-written destination types.
package sp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
)

// CallbackErr is what the unmarshalers below return for input holding "ERR!".
type CallbackErr struct{ Who, Data string }

func (e *CallbackErr) Error() string { return fmt.Sprintf("callback error: %s %q", e.Who, e.Data) }

// CallbackPanic is what the unmarshalers below panic with for input holding "PANIC!"
// (depending on its length, as it is, as an error, a pointer, a string or a number).
type CallbackPanic struct{ Who, Data string }

type CallbackPanicErr struct{ Who, Data string }

func (e CallbackPanicErr) Error() string { return "panic " + e.Who + " " + e.Data }

var panicPtr = &CallbackPanic{Who: "pointer"}

func doPanic(who string, data []byte) {
	switch len(data) % 6 {
	case 0, 1:
		panic(CallbackPanicErr{who, string(data)})
	case 2:
		panic(panicPtr)
	case 3:
		panic("PANIC! " + who + string(data))
	case 4:
		panic(10000 + len(data))
	}
	panic(CallbackPanic{who, string(data)})
}

// IsCallbackPanic tells whether an unmarshaler below panicked with v.
func IsCallbackPanic(v any) bool {
	switch v := v.(type) {
	case CallbackPanic, *CallbackPanic, CallbackPanicErr:
		return true
	case string:
		return strings.HasPrefix(v, "PANIC! ")
	case int:
		return v > 10000
	}
	return false
}

// Nest is called by the unmarshalers below for input holding "NEST!".
var Nest func()

// Track, if set, makes the strings that UJ and UT keep.
var Track func(b []byte) string

func keep(b []byte) string {
	if Track != nil {
		return Track(b)
	}
	return string(b)
}

// Calls is the log of unmarshaler calls; recording is off when Rec is false.
var (
	Rec      bool
	Calls    []string
	FirstErr error
)

func ResetLog(on bool) { Rec, Calls, FirstErr = on, nil, nil }

func call(who string, data []byte) error {
	if Rec {
		Calls = append(Calls, who+" "+string(data))
	}
	if bytes.Contains(data, []byte("PANIC!")) {
		doPanic(who, data)
	}
	if Nest != nil && bytes.Contains(data, []byte("NEST!")) {
		Nest()
	}
	if bytes.Contains(data, []byte("ERR!")) {
		e := &CallbackErr{who, string(data)}
		if Rec && FirstErr == nil {
			FirstErr = e
		}
		return e
	}
	return nil
}

// JSON unmarshalers of several kinds.
type (
	UJ struct {
		Raw string
		N   int
	} // pointer receiver
	UJStr   string
	UJInt   int32
	UJBool  bool
	UJF     float64
	UJSlice []int8
	UJMap   map[string]int // value receiver
	UJEmpty struct{}
	UJArr   [3]uint16
	UBoth   struct {
		S string
		N int
	} // JSON and text
	UJPtrs struct {
		P *int
		M map[string]string
	}
	UJU8 uint8
)

func (u *UJ) UnmarshalJSON(b []byte) error { u.N++; u.Raw = keep(b); return call("UJ", b) }
func (u *UJStr) UnmarshalJSON(b []byte) error {
	*u = UJStr("<" + string(b) + ">")
	return call("UJStr", b)
}
func (u *UJInt) UnmarshalJSON(b []byte) error  { *u += UJInt(len(b)); return call("UJInt", b) }
func (u *UJBool) UnmarshalJSON(b []byte) error { *u = !*u; return call("UJBool", b) }
func (u *UJF) UnmarshalJSON(b []byte) error    { *u += UJF(len(b)) / 2; return call("UJF", b) }
func (u *UJU8) UnmarshalJSON(b []byte) error   { *u += UJU8(len(b)); return call("UJU8", b) }
func (u *UJSlice) UnmarshalJSON(b []byte) error {
	*u = append(*u, int8(len(b)))
	return call("UJSlice", b)
}
func (u UJMap) UnmarshalJSON(b []byte) error {
	if u != nil {
		u[string(b)]++
	}
	return call("UJMap", b)
}
func (u *UJEmpty) UnmarshalJSON(b []byte) error { return call("UJEmpty", b) }
func (u *UJArr) UnmarshalJSON(b []byte) error   { u[len(b)%3]++; return call("UJArr", b) }
func (u *UBoth) UnmarshalJSON(b []byte) error   { u.N++; u.S = "J" + string(b); return call("UBothJ", b) }
func (u *UBoth) UnmarshalText(b []byte) error {
	u.N += 100
	u.S = "T" + string(b)
	return call("UBothT", b)
}
func (u *UJPtrs) UnmarshalJSON(b []byte) error {
	n := len(b)
	u.P = &n
	u.M = map[string]string{string(b): "x"}
	return call("UJPtrs", b)
}

// Text unmarshalers of several kinds.
type (
	UT struct {
		S string
		N int
	}
	UTStr   string
	UTInt   int
	UTI8    int8
	UTBool  bool
	UTF     float32
	UTSlice []byte
	UTEmpty struct{}
	UTMap   map[string]int
	UTArr   [2]string
	// map keys
	KT struct {
		S string
		N int
	}
	KTStr string
	KTInt int16
	KTArr [2]uint8
)

func (u *UT) UnmarshalText(b []byte) error { u.N++; u.S = keep(b); return call("UT", b) }
func (u *UTStr) UnmarshalText(b []byte) error {
	*u = UTStr("<" + string(b) + ">")
	return call("UTStr", b)
}
func (u *UTInt) UnmarshalText(b []byte) error  { *u += UTInt(len(b)); return call("UTInt", b) }
func (u *UTI8) UnmarshalText(b []byte) error   { *u += UTI8(len(b)); return call("UTI8", b) }
func (u *UTBool) UnmarshalText(b []byte) error { *u = !*u; return call("UTBool", b) }
func (u *UTF) UnmarshalText(b []byte) error    { *u += UTF(len(b)); return call("UTF", b) }
func (u *UTSlice) UnmarshalText(b []byte) error {
	*u = append(append(*u, '#'), b...)
	return call("UTSlice", b)
}
func (u *UTEmpty) UnmarshalText(b []byte) error { return call("UTEmpty", b) }
func (u UTMap) UnmarshalText(b []byte) error {
	if u != nil {
		u[string(b)]++
	}
	return call("UTMap", b)
}
func (u *UTArr) UnmarshalText(b []byte) error { u[len(b)%2] += string(b); return call("UTArr", b) }

func (u *KT) UnmarshalText(b []byte) error    { u.N++; u.S += "k:" + string(b); return call("KT", b) }
func (u *KTStr) UnmarshalText(b []byte) error { *u += KTStr("k:" + string(b)); return call("KTStr", b) }
func (u *KTInt) UnmarshalText(b []byte) error { *u += KTInt(len(b)); return call("KTInt", b) }
func (u *KTArr) UnmarshalText(b []byte) error {
	for i, c := range b {
		u[i%2] += c
	}
	return call("KTArr", b)
}

// Named scalars without methods.
type (
	NStr  string
	NInt  int
	NI8   int8
	NI16  int16
	NU8   uint8
	NU64  uint64
	NF32  float32
	NF64  float64
	NBool bool
	NAny  any
	NSl   []int
	NMap  map[string]int
	NSS   map[NStr]NStr
	NEmp  struct{}
	NNum  json.Number // not a Number but a string
)
