package jg

import (
	"encoding"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	jd "github.com/romshark/jscan-experimental-decoder"
)

// FaultKind classifies what a destination cannot accept.
type FaultKind int

const (
	None FaultKind = iota
	Unexpected
	Overflow
	UnknownField
	Callback
	FloatRange
	Base64
)

func (k FaultKind) String() string {
	return [...]string{"none", "ErrUnexpectedValue", "ErrIntegerOverflow", "ErrUnknownField", "unmarshaler error", "float range error", "base64 error"}[k]
}

// Fault is the first thing in document order a destination cannot accept.
type Fault struct {
	Kind FaultKind
	Node *Node // the offending value or key
	Err  error // of the callback
}

// Model judges a document for a destination type: it finds the first fault,
// calling the unmarshalers (on scratch values) in the order the decoder has
// to. It also annotates the document: ST of objects decoded into structs and
// Raw of values passed to UnmarshalJSON.
type Model struct {
	Opt   jd.DecodeOptions
	Text  []byte // the printed document
	NoRun bool   // do not call unmarshalers
	// KeySel and KeyUnknown count selected and unknown struct members.
	KeySel, KeyUnknown int
	// KeyCalls counts text unmarshalers called for map keys.
	KeyCalls, ValCalls int
}

// Run returns the first fault (Kind None if there is none).
func (m *Model) Run(n *Node, t reflect.Type) Fault {
	if f := m.val(n, t); f != nil {
		return *f
	}
	return Fault{}
}

func bad(n *Node, k FaultKind) *Fault { return &Fault{Kind: k, Node: n} }

func (m *Model) val(n *Node, t reflect.Type) *Fault {
	if n.K == 'n' {
		if IsJSONU(t) {
			return m.callJSON(n, t)
		}
		return nil
	}
	if t.Kind() == reflect.Pointer {
		return m.val(n, t.Elem())
	}
	if IsJSONU(t) {
		return m.callJSON(n, t)
	}
	if IsTextU(t) {
		if n.K != '"' {
			return bad(n, Unexpected)
		}
		return m.callText(n, t, false)
	}
	if IsNumber(t) {
		if n.K == '#' || n.K == '"' && ValidNumber(n.Str) {
			return nil
		}
		return bad(n, Unexpected)
	}
	switch t.Kind() {
	case reflect.Bool:
		if n.K != 't' {
			return bad(n, Unexpected)
		}
	case reflect.String:
		if n.K != '"' {
			return bad(n, Unexpected)
		}
	case reflect.Float32, reflect.Float64:
		if n.K != '#' {
			return bad(n, Unexpected)
		}
		if _, err := strconv.ParseFloat(n.Lit, t.Bits()); err != nil {
			return bad(n, FloatRange)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n.K != '#' {
			return bad(n, Unexpected)
		}
		if k := IntFault(n.Lit, t.Kind()); k != None {
			return bad(n, k)
		}
	case reflect.Interface:
		var f *Fault
		n.Walk(func(x *Node) {
			if f == nil && x.K == '#' {
				if _, err := strconv.ParseFloat(x.Lit, 64); err != nil {
					f = bad(x, FloatRange)
				}
			}
		})
		return f
	case reflect.Slice:
		if n.K == '"' && t.Elem().Kind() == reflect.Uint8 {
			if _, err := base64.StdEncoding.DecodeString(n.Str); err == nil {
				return nil
			}
			return bad(n, Base64)
		}
		if n.K != '[' {
			return bad(n, Unexpected)
		}
		for _, k := range n.Kids {
			if f := m.val(k, t.Elem()); f != nil {
				return f
			}
		}
	case reflect.Array:
		if n.K != '[' {
			return bad(n, Unexpected)
		}
		for i, k := range n.Kids {
			if i >= t.Len() {
				break
			}
			if f := m.val(k, t.Elem()); f != nil {
				return f
			}
		}
	case reflect.Map:
		if n.K != '{' {
			return bad(n, Unexpected)
		}
		for i, k := range n.Kids {
			if f := m.key(n.Keys[i], t.Key()); f != nil {
				return f
			}
			if f := m.val(k, t.Elem()); f != nil {
				return f
			}
		}
	case reflect.Struct:
		if n.K != '{' {
			return bad(n, Unexpected)
		}
		n.ST = t
		fs := Fields(t)
		for i, k := range n.Kids {
			fd := Select(fs, n.Keys[i], &m.Opt)
			if fd == nil {
				m.KeyUnknown++
				if m.Opt.DisallowUnknownFields {
					return bad(n.Keys[i], UnknownField)
				}
				continue
			}
			m.KeySel++
			var f *Fault
			if fd.Quoted {
				f = m.quoted(k, fd.Type)
			} else {
				f = m.val(k, fd.Type)
			}
			if f != nil {
				return f
			}
		}
	default:
		panic("unsupported type " + t.String())
	}
	return nil
}

// Select applies the decode options to a key.
func Select(fs []Field, key *Node, o *jd.DecodeOptions) *Field {
	name := key.Str
	if o.DisableFieldNameUnescaping {
		name = key.Lit[1 : len(key.Lit)-1]
	}
	return Lookup(fs, name, !o.DisableCaseInsensitiveMatching)
}

func (m *Model) key(n *Node, t reflect.Type) *Fault {
	if IsTextKey(t) {
		return m.callText(n, t, true)
	}
	switch k := t.Kind(); k {
	case reflect.String:
		return nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits, _ := kindBits(k)
		if _, err := strconv.ParseInt(n.Str, 10, bits); err != nil {
			return bad(n, Unexpected)
		}
	default:
		bits, _ := kindBits(k)
		if _, err := strconv.ParseUint(n.Str, 10, bits); err != nil {
			return bad(n, Unexpected)
		}
	}
	return nil
}

func (m *Model) quoted(n *Node, t reflect.Type) *Fault {
	if n.K == 'n' {
		return nil
	}
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if n.K != '"' {
		return bad(n, Unexpected)
	}
	c := n.Str
	if c == "null" {
		return nil
	}
	ok := false
	switch k := t.Kind(); k {
	case reflect.Bool:
		ok = c == "true" || c == "false"
	case reflect.String:
		ok = len(c) >= 2 && c[0] == '"' && c[len(c)-1] == '"' && json.Valid([]byte(c))
	case reflect.Float32, reflect.Float64:
		if ok = ValidNumber(c); ok {
			if _, err := strconv.ParseFloat(c, t.Bits()); err != nil {
				return bad(n, FloatRange)
			}
		}
	default:
		ok = ValidNumber(c) && IntFault(c, k) == None
	}
	if !ok {
		return bad(n, Unexpected)
	}
	return nil
}

func (m *Model) callJSON(n *Node, t reflect.Type) *Fault {
	n.Raw = true
	m.ValCalls++
	if m.NoRun {
		return nil
	}
	u := reflect.New(t).Interface().(json.Unmarshaler)
	if err := u.UnmarshalJSON(append([]byte(nil), m.Text[n.Pos:n.End]...)); err != nil {
		return &Fault{Callback, n, err}
	}
	return nil
}

func (m *Model) callText(n *Node, t reflect.Type, key bool) *Fault {
	if key {
		m.KeyCalls++
	} else {
		m.ValCalls++
	}
	if m.NoRun {
		return nil
	}
	u := reflect.New(t).Interface().(encoding.TextUnmarshaler)
	if err := u.UnmarshalText([]byte(n.Str)); err != nil {
		return &Fault{Callback, n, err}
	}
	return nil
}

// ValidNumber tells whether s is a JSON number literal.
func ValidNumber(s string) bool {
	i := 0
	digits := func() int {
		n := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
			n++
		}
		return n
	}
	if i < len(s) && s[i] == '-' {
		i++
	}
	if i < len(s) && s[i] == '0' {
		i++
	} else if digits() == 0 {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		if digits() == 0 {
			return false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if digits() == 0 {
			return false
		}
	}
	return i == len(s)
}

// IntFault judges a JSON number literal for an integer kind, by arbitrary
// precision arithmetic.
func IntFault(lit string, k reflect.Kind) FaultKind {
	if strings.ContainsAny(lit, ".eE") {
		return Unexpected
	}
	bits, signed := kindBits(k)
	if !signed && lit[0] == '-' {
		return Unexpected
	}
	v, ok := new(big.Int).SetString(lit, 10)
	if !ok {
		return Unexpected
	}
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	if v.Cmp(lo) < 0 || v.Cmp(hi) >= 0 {
		return Overflow
	}
	return None
}

// Check verifies a decoded value (from a zero destination and a document
// without repeated members) against the document itself, independently of
// encoding/json. Values built by unmarshalers are not looked into.
func Check(n *Node, t reflect.Type, v reflect.Value, quoted bool, o *jd.DecodeOptions) error {
	e := func(format string, a ...any) error {
		return fmt.Errorf("at offset %d: %s", n.Pos, fmt.Sprintf(format, a...))
	}
	if t.Kind() == reflect.Pointer {
		if n.K == 'n' || quoted && n.Str == "null" && n.K == '"' {
			if !v.IsNil() {
				return e("pointer is not nil after null")
			}
			return nil
		}
		if v.IsNil() {
			return e("pointer is nil")
		}
		return Check(n, t.Elem(), v.Elem(), quoted, o)
	}
	if IsJSONU(t) || IsTextU(t) {
		return nil
	}
	if n.K == 'n' {
		if !v.IsZero() {
			return e("not zero after null")
		}
		return nil
	}
	lit, str := n.Lit, n.Str
	if quoted {
		if n.Str == "null" {
			return nil
		}
		lit = n.Str
		if t.Kind() == reflect.String {
			str = StrLit(n.Str).Str
		}
	}
	if IsNumber(t) {
		if n.K == '"' {
			lit = n.Str
		}
		if v.String() != lit {
			return e("Number is %q, want %q", v.String(), lit)
		}
		return nil
	}
	switch t.Kind() {
	case reflect.Bool:
		if v.Bool() != (lit == "true") {
			return e("bool is %v", v.Bool())
		}
	case reflect.String:
		if v.String() != str {
			return e("string is %q, want %q", v.String(), str)
		}
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(lit, t.Bits())
		if err != nil {
			return e("out of range number %s accepted", lit)
		}
		if math.Float64bits(f) != math.Float64bits(v.Float()) {
			return e("float is %v (%x), want %v (%x)", v.Float(), math.Float64bits(v.Float()), f, math.Float64bits(f))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if w, ok := new(big.Int).SetString(lit, 10); !ok || w.Cmp(big.NewInt(v.Int())) != 0 {
			return e("integer is %d, want %s", v.Int(), lit)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if w, ok := new(big.Int).SetString(lit, 10); !ok || w.Cmp(new(big.Int).SetUint64(v.Uint())) != 0 {
			return e("integer is %d, want %s", v.Uint(), lit)
		}
	case reflect.Interface:
		return checkAny(n, v.Interface())
	case reflect.Slice:
		if n.K == '"' {
			if b, err := base64.StdEncoding.DecodeString(n.Str); err != nil || v.IsNil() || string(v.Bytes()) != string(b) {
				return e("bytes are %q, want %q (error %v)", v.Bytes(), b, err)
			}
			return nil
		}
		if v.IsNil() || v.Len() != len(n.Kids) {
			return e("slice has length %d (nil: %v), want %d", v.Len(), v.IsNil(), len(n.Kids))
		}
		for i, k := range n.Kids {
			if err := Check(k, t.Elem(), v.Index(i), false, o); err != nil {
				return err
			}
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			if i >= len(n.Kids) {
				if !v.Index(i).IsZero() {
					return e("array element %d is not zero", i)
				}
			} else if err := Check(n.Kids[i], t.Elem(), v.Index(i), false, o); err != nil {
				return err
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return e("map is nil")
		}
		last := map[string]int{}
		for i, k := range n.Keys {
			last[k.Str] = i
		}
		if !IsTextKey(t.Key()) {
			if t.Key().Kind() == reflect.String && v.Len() != len(last) {
				return e("map has %d entries, want %d", v.Len(), len(last))
			}
			byVal := map[any]int{}
			for i, k := range n.Keys {
				byVal[keyVal(k.Str, t.Key()).Interface()] = i
			}
			if v.Len() != len(byVal) {
				return e("map has %d entries, want %d", v.Len(), len(byVal))
			}
			for kv, i := range byVal {
				mv := v.MapIndex(reflect.ValueOf(kv))
				if !mv.IsValid() {
					return e("map lacks key %v", kv)
				}
				if err := Check(n.Kids[i], t.Elem(), mv, false, o); err != nil {
					return err
				}
			}
		}
		cnt := 0
		for it := v.MapRange(); it.Next(); {
			cnt++
			if !v.MapIndex(it.Key()).IsValid() {
				return e("map key %v cannot be looked up", it.Key())
			}
		}
		if cnt != v.Len() {
			return e("map has length %d but %d entries", v.Len(), cnt)
		}
	case reflect.Struct:
		fs := Fields(t)
		seen := map[int]bool{}
		for i, k := range n.Kids {
			fd := Select(fs, n.Keys[i], o)
			if fd == nil {
				continue
			}
			seen[fd.Index] = true
			if err := Check(k, fd.Type, v.Field(fd.Index), fd.Quoted, o); err != nil {
				return err
			}
		}
		for i := 0; i < t.NumField(); i++ {
			if !seen[i] && !v.Field(i).IsZero() {
				return e("field %s is not in the document but set", t.Field(i).Name)
			}
		}
	}
	return nil
}

func keyVal(s string, t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i, _ := strconv.ParseInt(s, 10, 64)
		v.SetInt(i)
	default:
		i, _ := strconv.ParseUint(s, 10, 64)
		v.SetUint(i)
	}
	return v
}

func checkAny(n *Node, v any) error {
	e := func() error { return fmt.Errorf("at offset %d: any holds %T %v", n.Pos, v, v) }
	switch n.K {
	case 'n':
		if v != nil {
			return e()
		}
	case 't':
		if b, ok := v.(bool); !ok || b != (n.Lit == "true") {
			return e()
		}
	case '#':
		f, _ := strconv.ParseFloat(n.Lit, 64)
		if x, ok := v.(float64); !ok || math.Float64bits(x) != math.Float64bits(f) {
			return e()
		}
	case '"':
		if x, ok := v.(string); !ok || x != n.Str {
			return e()
		}
	case '[':
		x, ok := v.([]any)
		if !ok || x == nil || len(x) != len(n.Kids) {
			return e()
		}
		for i, k := range n.Kids {
			if err := checkAny(k, x[i]); err != nil {
				return err
			}
		}
	case '{':
		x, ok := v.(map[string]any)
		last := map[string]*Node{}
		for i, k := range n.Keys {
			last[k.Str] = n.Kids[i]
		}
		if !ok || x == nil || len(x) != len(last) {
			return e()
		}
		for k, w := range last {
			y, ok := x[k]
			if !ok {
				return e()
			}
			if err := checkAny(w, y); err != nil {
				return err
			}
		}
	}
	return nil
}

// HasRepeats tells whether a struct object selects a field twice, where
// merging makes the value depend on both.
func HasRepeats(n *Node, o *jd.DecodeOptions) bool {
	r := false
	n.Walk(func(x *Node) {
		if x.ST == nil {
			return
		}
		seen := map[int]bool{}
		for _, k := range x.Keys {
			if f := Select(Fields(x.ST), k, o); f != nil {
				r = r || seen[f.Index]
				seen[f.Index] = true
			}
		}
	})
	return r
}

// WellFormed tells whether s can be written with other escapes without
// changing its meaning for anyone.
func WellFormed(s string) bool { return !strings.ContainsRune(s, '\ufffd') }

// Repeats tells whether any object has members that select the same thing: equal
// keys, keys equal in another case, or integer keys of equal value.
func Repeats(n *Node) bool {
	r := false
	repl := strings.NewReplacer("\u212a", "k", "\u017f", "s", "+", "")
	n.Walk(func(x *Node) {
		seen := map[string]bool{}
		for _, k := range x.Keys {
			f := strings.ToLower(strings.ToUpper(k.Str))
			f = repl.Replace(f)
			if v, err := strconv.ParseInt(f, 10, 64); err == nil {
				f = strconv.FormatInt(v, 10)
			}
			if v, err := strconv.ParseUint(f, 10, 64); err == nil {
				f = strconv.FormatUint(v, 10)
			}
			r = r || seen[f]
			seen[f] = true
		}
	})
	return r
}
