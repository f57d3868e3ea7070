HEAD = '''package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"

	jscandec "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan/v2"
@IMPORTS@)

var _ = bytes.Equal
var _ = json.Valid
var _ = jscan.Valid[string]

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

func eq(what string, got, want any) {
	if !reflect.DeepEqual(got, want) {
		fail("%s: got %#v, want %#v", what, got, want)
	}
}

// dec returns a new decoder.
func dec[S []byte | string, T any]() *jscandec.Decoder[S, T] {
	d, err := jscandec.NewDecoder[S, T](jscan.NewTokenizer[S](64, 1024), jscandec.DefaultInitOptions)
	if err != nil {
		fail("NewDecoder: %v", err)
	}
	return d
}

// same decodes in into the values that mk returns by means of the package
// and encoding/json and compares values and acceptance.
func same[T any](in string, mk func() T) {
	want, got, gotB := mk(), mk(), mk()
	errWant := json.Unmarshal([]byte(in), &want)
	_, err := dec[string, T]().Decode(in, &got, jscandec.DefaultOptions)
	_, errB := dec[[]byte, T]().Decode([]byte(in), &gotB, jscandec.DefaultOptions)
	if (errWant == nil) != (err == nil) || (errWant == nil) != (errB == nil) {
		fail("%s: errors %v and %v, want %v", in, err, errB, errWant)
	}
	if errWant == nil {
		eq(in, got, want)
		eq(in, gotB, want)
	}
}

func zero[T any]() (z T) { return z }
'''

J = "jscandec.go"
A = "append_type_stack.go"
I = "internal/atoi/atoi.go"
N = "internal/jsonnum/jsonnum.go"
U = "internal/unescape/unescape.go"

SEEDS = []
def seed(id, property, needs, breaks, edits, main, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, **kw))

seed("c04-slice-cap", "C04", "a destination slice of structs with spare capacity behind its length and a document with more elements than the length but not more than the capacity",
  "the slice is reallocated although its capacity suffices: the caller's backing array isn't written",
  [(J, "if h := *(*sliceHeader)(p); h.Cap < uintptr(tokens[ti].Elements) {\n						sh := sliceHeader{Len: elems, Cap: elems}", "if h := *(*sliceHeader)(p); h.Len < uintptr(tokens[ti].Elements) {\n						sh := sliceHeader{Len: elems, Cap: elems}")],
  '''
type E struct{ A, B int }

func main() {
	same(`[{"A":1},{"B":2},{"A":3}]`, func() []E { return append(make([]E, 0, 4), E{7, 8}) })
	backing := make([]E, 1, 4)
	v := backing
	if _, err := dec[string, []E]().Decode(`[{"A":1},{"B":2},{"A":3}]`, &v, jscandec.DefaultOptions); err != nil {
		fail("%v", err)
	}
	w := make([]E, 1, 4)
	w0 := w
	_ = json.Unmarshal([]byte(`[{"A":1},{"B":2},{"A":3}]`), &w)
	eq("backing array", backing[:3], w0[:3])
	eq("capacity", cap(v), cap(w))
}
''')

seed("c05-stale-offset", "C05", "a decoder that fails in the middle of a slice (after at least one element) and is then used again",
  "a reused decoder begins to write at the element at which the previous decode failed",
  [(J, "					ti++\n					si++\n					d.stackExp[si].Dest = dp\n					d.stackExp[si].Offset = 0\n\n				case ExpectTypeSliceRecur:", "					ti++\n					si++\n					d.stackExp[si].Dest = dp\n\n				case ExpectTypeSliceRecur:"),
   (J, "				si--\n				goto ON_VAL_END\n			}\n			continue", "				// Rewind for the next slice\n				d.stackExp[si].Offset = 0\n				si--\n				goto ON_VAL_END\n			}\n			continue")],
  '''
func main() {
	type E struct{ N int }
	d := dec[string, []E]()
	var v []E
	if _, err := d.Decode(`[{"N":1},{"N":2},{"N":false}]`, &v, jscandec.DefaultOptions); err == nil {
		fail("no error")
	}
	w := make([]E, 8)
	if _, err := d.Decode(`[{"N":4},{"N":5}]`, &w, jscandec.DefaultOptions); err != nil {
		fail("%v", err)
	}
	eq("reused", w, []E{{4}, {5}})
}
''')

seed("c11-surrogate-then-escape", "C11", "an unpaired high surrogate escape directly followed by another \\\\u escape",
  "the escape that follows an unpaired surrogate is dropped",
  [(U, "				buf = append(buf, RuneError...) // Error placeholder rune\n", "				buf = append(buf, RuneError...) // Error placeholder rune\n				if r <= surrogateMax && len(s) >= 12 && s[6] == '\\\\' && s[7] == 'u' {\n					s = s[6:]\n				}\n")],
  '''
func main() {
	same(`"\\ud800\\u0041b"`, zero[string])
	same(`["\\ud83d\\u1234"]`, zero[any])
}
''')

seed("c14-null-existing", "C14", "a null value for a key of a map[string]string that exists already (in the destination or earlier in the document)",
  "null leaves the earlier entry in place",
  [(J, "								m[keyUnescaped] = \"\"\n								continue", "								if _, ok := m[keyUnescaped]; !ok {\n									m[keyUnescaped] = \"\"\n								}\n								continue")],
  '''
func main() {
	same(`{"a":"x","b":"y","a":null}`, zero[map[string]string])
	same(`{"k":null}`, func() map[string]string { return map[string]string{"k": "v"} })
}
''')

seed("c15-empty-recursive", "C15", "an empty object as a recursive value reached through a pointer, followed by more data",
  "an empty object doesn't end the recursion",
  [(J, "					if tokens[ti].Elements == 0 {\n						ti += 2\n						goto ON_RECUR_OBJ_END\n					}", "					if tokens[ti].Elements == 0 {\n						ti += 2\n						if len(d.recursion) < 2 {\n							goto ON_RECUR_OBJ_END\n						}\n						goto ON_VAL_END\n					}")],
  '''
type R struct {
	N string
	P *R
	Q *R
}

func main() {
	same(`{"N":"a","P":{"P":{},"Q":{"N":"c","P":{"Q":{},"N":"z"}},"N":"b"},"Q":{}}`, zero[R])
}
''')

seed("c22-any-minus-zero", "C22", "-0 nested in an array or object decoded into any",
  "the sign of zero is lost in nested dynamic values",
  [(J, "			f64, err := tokens[0].Float64(str)\n			if err != nil {\n				return nil, tokens, err\n			}\n			v = f64\n", "			if tokens[0].Type == jscan.TokenTypeInteger &&\n				tokens[0].End-tokens[0].Index < len(\"9007199254740992\") {\n				// Exactly representable, avoid parsing floats.\n				i64, err := tokens[0].Int64(str)\n				if err != nil {\n					return nil, tokens, err\n				}\n				v = float64(i64)\n				break\n			}\n			f64, err := tokens[0].Float64(str)\n			if err != nil {\n				return nil, tokens, err\n			}\n			v = f64\n"),
   (J, "var emptyStructAddr = unsafe.Pointer(&struct{}{})\n", "var emptyStructAddr = unsafe.Pointer(new(struct{}))\n")],
  '''
func main() {
	for _, in := range []string{`[-0]`, `{"a":[1,-0]}`} {
		var v, w any
		if err := jscandec.Unmarshal(in, &v); err != nil {
			fail("%v", err)
		}
		_ = json.Unmarshal([]byte(in), &w)
		eq(in, fmt.Sprint(v), fmt.Sprint(w))
	}
}
''')

seed("c27-last-frame", "C27", "a destination type with a single frame, or a heap object that only the last frame refers to",
  "the decoder keeps the destination of its last frame alive",
  [(J, "		for i := range d.stackExp {\n			d.stackExp[i].Dest = nil\n		}", "		for i := range d.stackExp[1:] {\n			d.stackExp[i].Dest = nil\n		}")],
  '''
func main() {
	d := dec[string, []int]()
	done := make(chan bool, 1)
	func() {
		v := new([]int)
		runtime.SetFinalizer(v, func(*[]int) { done <- true })
		if _, err := d.Decode(`[1,2,3]`, v, jscandec.DefaultOptions); err != nil {
			fail("%v", err)
		}
	}()
	for i := 0; i < 20; i++ {
		runtime.GC()
		select {
		case <-done:
			runtime.KeepAlive(d)
			return
		case <-time.After(20 * time.Millisecond):
		}
	}
	runtime.KeepAlive(d)
	fail("the destination is kept alive")
}
''', imports=["runtime", "time"])

seed("c29-clone", "C29", "string input without escapes",
  "strings are copied although the input is a string",
  [(U, "		if i = strings.IndexByte(in, '\\\\'); i == -1 {\n			return O(str) // No escaping necessary\n		}", "		if i = strings.IndexByte(in, '\\\\'); i == -1 {\n			return O(append([]byte(nil), in...)) // No escaping necessary\n		}")],
  '''
func main() {
	in := string([]byte(`{"a":["some text"]}`))
	var v map[string][]string
	if err := jscandec.Unmarshal(in, &v); err != nil {
		fail("%v", err)
	}
	p, lo := uintptr(unsafe.Pointer(unsafe.StringData(v["a"][0]))), uintptr(unsafe.Pointer(unsafe.StringData(in)))
	if p < lo || p >= lo+uintptr(len(in)) {
		fail("the string was copied")
	}
	runtime.KeepAlive(in)
}
''', imports=["runtime", "unsafe"])

seed("c12-fourth-of-tail", "C12", "DisableCaseInsensitiveMatching and a struct of at least four fields",
  "the value of every fourth field is decoded into the third",
  [(J, "									if string(fields[3].Name) == string(key) {\n										frameIndex = fields[3].FrameIndex\n", "									if string(fields[3].Name) == string(key) {\n										frameIndex = fields[2].FrameIndex\n")],
  """
type T struct{ A, B, C, D, E, F, G, H int }

func main() {
	d := dec[string, T]()
	var v T
	if _, err := d.Decode(`{"A":1,"B":2,"C":3,"D":4,"E":5,"F":6,"G":7,"H":8}`, &v, &jscandec.DecodeOptions{DisableCaseInsensitiveMatching: true}); err != nil {
		fail("%v", err)
	}
	eq("fields", v, T{1, 2, 3, 4, 5, 6, 7, 8})
}
""")

seed("c16-key-reuse", "C16", "a map with text unmarshaler keys that depend on what the receiver contains and at least two entries",
  "keys after the first are unmarshaled into the receiver of the first key",
  [(J, "						v := reflect.New(d.stackExp[si+1].RType)\n", "						v := d.mapKey\n						if !v.IsValid() || v.Type().Elem() != d.stackExp[si+1].RType {\n							v = reflect.New(d.stackExp[si+1].RType)\n							d.mapKey = v\n						}\n"),
   (J, "	parseInt     func(s S) (int, error)\n", "	// mapKey is reused for the keys of maps.\n	mapKey reflect.Value\n\n	parseInt     func(s S) (int, error)\n")],
  """
type K struct{ S string }

func (k *K) UnmarshalText(b []byte) error {
	if k.S != "" {
		k.S += "+"
	}
	k.S += string(b)
	return nil
}

func main() {
	same(`{"a":1,"b":2}`, zero[map[K]int])
}
""")

seed("c17-exponent-upper", "C17", "a quoted number with the string option (or a json Number) with an upper case exponent after exactly six or fourteen fractional digits and some length",
  "a valid quoted number is rejected",
  [(N, "		if s[5] < '0' || s[5] > '9' {\n			if s[5] == 'e' || s[5] == 'E' {\n				s = s[6:]\n				goto EXPONENT_SIGN\n			}\n", "		if s[5] < '0' || s[5] > '9' {\n			if s[5] == 'e' {\n				s = s[6:]\n				goto EXPONENT_SIGN\n			}\n")],
  """
type T struct {
	A float64 `json:",string"`
}

func main() {
	same(`{"A":"1.234567E+10"}`, zero[T])
	same(`{"A":"1.234567E1"}`, zero[T])
	same(`{"A":"1.123456E12345678"}`, zero[T])
	same(`{"A":"0.123456E-100"}`, zero[T])
}
""")

seed("c01-large-map-value", "C01", "a map with string keys and values of more than 128 bytes",
  "large map values are written where the map holds a pointer to them",
  [(J, "	return mapType.Elem().Size() <= 128 && mapType", "	return mapType.Elem().Size() < 256 && mapType")],
  """
type V struct {
	A [20]int
}

func main() {
	same(`{"a":{"A":[1,2,3,4,5]},"b":{"A":[6]}}`, zero[map[string]V])
}
""")

seed("c24-empty-keeps-backing", "C24", "an empty array for a slice that isn't nil",
  "the emptied slice still refers to the old elements: they reappear when it is filled again",
  [(J, "						// Allocate empty slice\n						emptySlice := sliceHeader{Data: emptyStructAddr, Len: 0, Cap: 0}\n						if elementSize > 0 {\n							emptySlice.Data = newarray(d.stackExp[si+1].Typ, elems)\n", "						// Allocate empty slice\n						emptySlice := sliceHeader{Data: emptyStructAddr, Len: 0, Cap: 0}\n						if h := *(*sliceHeader)(p); h.Cap > 0 {\n							// Keep the allocated memory\n							emptySlice.Data, emptySlice.Cap = h.Data, h.Cap\n						} else if elementSize > 0 {\n							emptySlice.Data = newarray(d.stackExp[si+1].Typ, elems)\n")],
  """
type E struct{ A, B int }
type T struct{ L []E }

func main() {
	same(`{"L":[{"A":1,"B":2}],"L":[],"L":[{"A":3}]}`, zero[T])
}
""")

seed("c08-unmarshaler-index", "C08", "an unmarshaler that returns an error",
  "the error index of a failing unmarshaler is the one of the token behind its value",
  [(J, "				var raw S\n				tkIndex := tokens[ti].Index\n", "				var raw S\n"),
   (J, "					errIndex, err = tkIndex, errUnmarshal\n", "					if ti < len(tokens) {\n						errIndex = tokens[ti].Index\n					}\n					err = errUnmarshal\n")],
  """
type F struct{}

func (*F) UnmarshalJSON([]byte) error { return fmt.Errorf("failed") }

func main() {
	var v struct{ A F }
	in := `{"A": [1]}`
	i, err := dec[string, struct{ A F }]().Decode(in, &v, jscandec.DefaultOptions)
	if err == nil {
		fail("no error")
	}
	eq("index", i, len(`{"A": `))
}
""")

seed("c19-cache-by-name", "C19", "two distinct types of the same name (declared in two functions) decoded by Unmarshal",
  "Unmarshal uses the layout of another type with the same name",
  [(J, "	stack := make([]stackFrame[S], 0, 4)\n	var err error\n", "	key := fmt.Sprintf(\"%T %T\", s, t)\n	if c, ok := stackCache.Load(key); ok {\n		d := Decoder[S, T]{\n			tokenizer: jscan.NewTokenizer[S](4, len(s)/2),\n			stackExp:  cloneStack(c.([]stackFrame[S])),\n		}\n		d.init()\n		_, err := d.Decode(s, t, DefaultOptions)\n		return err\n	}\n	stack := make([]stackFrame[S], 0, 4)\n	var err error\n"),
   (J, "	d := Decoder[S, T]{tokenizer: tokenizer, stackExp: stack}\n", "	stackCache.Store(key, cloneStack(stack))\n	d := Decoder[S, T]{tokenizer: tokenizer, stackExp: stack}\n"),
   (J, "// Decoder is a reusable decoder instance.\n", "// stackCache stores the stacks Unmarshal determined by type.\nvar stackCache sync.Map\n\nfunc cloneStack[S []byte | string](s []stackFrame[S]) []stackFrame[S] {\n	c := append([]stackFrame[S]{}, s...)\n	for i := range c {\n		if c[i].Type == ExpectTypeStructRecur {\n			c[i].RecursionStack = make([]recursionStackFrame, 0, 64)\n		}\n	}\n	return c\n}\n\n// Decoder is a reusable decoder instance.\n"),
   (J, "	\"encoding/json\"\n	\"errors\"\n", "	\"encoding/json\"\n	\"errors\"\n	\"fmt\"\n"),
   (J, "	\"strings\"\n	\"unsafe\"\n", "	\"strings\"\n	\"sync\"\n	\"unsafe\"\n")],
  """
func a() any {
	type T struct{ A, B int8 }
	var v T
	if err := jscandec.Unmarshal(`{"A":1,"B":2}`, &v); err != nil {
		fail("%v", err)
	}
	return fmt.Sprint(v)
}

func b() any {
	type T struct{ B, A int64 }
	var v T
	if err := jscandec.Unmarshal(`{"A":1,"B":2}`, &v); err != nil {
		fail("%v", err)
	}
	return fmt.Sprint(v)
}

func main() {
	eq("a", a(), "{1 2}")
	eq("b", b(), "{2 1}")
	eq("a", a(), "{1 2}")
}
""")

seed("c21-shared-recursion", "C21", "concurrent calls of Unmarshal for the same recursive type",
  "the recursion stacks of independent calls of Unmarshal share memory",
  [(J, "	stack := make([]stackFrame[S], 0, 4)\n	var err error\n", "	key := reflect.TypeOf((*Decoder[S, T])(nil))\n	if c, ok := stackCache.Load(key); ok {\n		d := Decoder[S, T]{\n			tokenizer: jscan.NewTokenizer[S](4, len(s)/2),\n			stackExp:  append([]stackFrame[S]{}, c.([]stackFrame[S])...),\n		}\n		d.init()\n		_, err := d.Decode(s, t, DefaultOptions)\n		return err\n	}\n	stack := make([]stackFrame[S], 0, 4)\n	var err error\n"),
   (J, "	d := Decoder[S, T]{tokenizer: tokenizer, stackExp: stack}\n", "	stackCache.Store(key, append([]stackFrame[S]{}, stack...))\n	d := Decoder[S, T]{tokenizer: tokenizer, stackExp: stack}\n"),
   (J, "// Decoder is a reusable decoder instance.\n", "// stackCache stores the stacks Unmarshal determined by type.\nvar stackCache sync.Map\n\n// Decoder is a reusable decoder instance.\n"),
   (J, "	\"strings\"\n	\"unsafe\"\n", "	\"strings\"\n	\"sync\"\n	\"unsafe\"\n")],
  """
type R struct {
	N int
	P *R
	L []R
}

func main() {
	in := `{"N":1,"P":{"N":2,"L":[{"N":3,"P":{"N":4}},{"N":5,"L":[{},{}]}]},"L":[{"P":{"P":{"P":{"N":6}}}}]}`
	var want R
	_ = json.Unmarshal([]byte(in), &want)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				var v R
				if err := jscandec.Unmarshal(in, &v); err != nil {
					fail("%v", err)
				}
				eq("value", v, want)
			}
		}()
	}
	wg.Wait()
}
""", imports=["sync"], race=True)

seed("c07-number-alias", "C07", "[]byte input, a Number and a caller that reuses the input buffer",
  "a Number refers to the input instead of copying the literal",
  [(J, "				case ExpectTypeNumber:\n					*(*Number)(p) = Number(s[tokens[ti].Index:tokens[ti].End])\n				case ExpectTypePtr:\n", "				case ExpectTypeNumber:\n					tv := s[tokens[ti].Index:tokens[ti].End]\n					switch tv := any(tv).(type) {\n					case []byte:\n						// Avoid copying the literal\n						*(*Number)(p) = Number(unsafe.String(&tv[0], len(tv)))\n					case string:\n						*(*Number)(p) = Number(tv)\n					}\n				case ExpectTypePtr:\n")],
  """
func main() {
	in := []byte(`[1.5,2]`)
	var v []jscandec.Number
	if err := jscandec.Unmarshal(in, &v); err != nil {
		fail("%v", err)
	}
	for i := range in {
		in[i] = 'x'
	}
	eq("numbers", v, []jscandec.Number{"1.5", "2"})
}
""")

seed("c07-key-alias", "C07", "[]byte input, a map whose values aren't strings and a caller that reuses the input buffer",
  "map keys refer to the input",
  [(J, "						keyStr := unescape.Valid[S, string](key)\n						if d", "						ku := unescape.Valid[S, []byte](key)\n						keyStr := unsafe.String(unsafe.SliceData(ku), len(ku))\n						if d")],
  """
func main() {
	in := []byte(`{"abc":1,"def":2}`)
	var v map[string]int
	if err := jscandec.Unmarshal(in, &v); err != nil {
		fail("%v", err)
	}
	for i := range in {
		in[i] = 'x'
	}
	eq("map", fmt.Sprint(v), "map[abc:1 def:2]")
}
""")

seed("c26-reset-on-syntax-error", "C26", "malformed input and a destination that isn't zero",
  "the destination is reset if the input is malformed",
  [(J, "		return errTok.Index, errTok\n	}\n", "		// Don't leave a partially decoded value behind.\n		var zero T\n		*t = zero\n		return errTok.Index, errTok\n	}\n")],
  """
func main() {
	v := struct{ A int }{A: 7}
	if err := jscandec.Unmarshal(`{"A":1`, &v); err == nil {
		fail("no error")
	}
	eq("destination", v.A, 7)
}
""")

seed("c28-cleanup-not-deferred", "C28", "an unmarshaler that panics inside of a recursive value, the panic being recovered and the decoder used again",
  "a decoder doesn't recover from a panic in an unmarshaler",
  [(J, "	defer func() {\n", "	cleanup := func() {\n"),
   (J, "			d.stackExp[i].Dest = nil\n		}\n	}()\n", "			d.stackExp[i].Dest = nil\n		}\n	}\n"),
   (J, "	if errTok.IsErr() {\n		if errTok.Code", "	if errTok.IsErr() {\n		cleanup()\n		if errTok.Code"),
   (J, "	*t = *(*T)(d.stackExp[0].Dest)\n", "	*t = *(*T)(d.stackExp[0].Dest)\n	cleanup()\n")],
  """
type P struct{ S string }

func (p *P) UnmarshalJSON(b []byte) error {
	if string(b) == "0" {
		panic("zero")
	}
	p.S = string(b)
	return nil
}

type R struct {
	V P
	N *R
	L []R
}

func main() {
	d := dec[string, R]()
	func() {
		defer func() { _ = recover() }()
		var v R
		_, _ = d.Decode(`{"N":{"L":[{"V":1},{"N":{"V":0}}]}}`, &v, jscandec.DefaultOptions)
	}()
	in := `{"N":{"V":1,"N":{"V":2}},"V":3,"L":[{"V":4},{"V":5}]}`
	var v, w R
	if _, err := d.Decode(in, &v, jscandec.DefaultOptions); err != nil {
		fail("%v", err)
	}
	_ = json.Unmarshal([]byte(in), &w)
	eq("reused", v, w)
}
""")

seed("c13-skip-empty-object", "C13", "an unknown field with an object that contains an empty object followed by a key that is also one of the struct",
  "an empty object in a skipped value ends the skipping",
  [(J, "								case jscan.TokenTypeObject:\n								\tl++\n								case jscan.TokenTypeObjectEnd:\n								\tl--\n", "								case jscan.TokenTypeObject:\n								\tif l < 1 || tokens[ti].Elements != 0 {\n								\t\tl++\n								\t}\n								case jscan.TokenTypeObjectEnd:\n								\tl--\n")],
  """
type T struct{ A, B int }

func main() {
	same(`{"A":1,"x":{"y":{},"B":3,"z":4},"B":2}`, zero[T])
	same(`{"A":1,"x":{"y":{},"B":3},"A":2}`, zero[T])
}
""")

seed("c25-null-slice-float32", "C25", "null for a []float32 that isn't nil",
  "null leaves a slice of floats unchanged",
  [(J, "				case ExpectTypeSliceFloat32:\n					*(*[]float32)(p) = nil\n", "				case ExpectTypeSliceFloat32:\n					if len(*(*[]float32)(p)) < 1 {\n						*(*[]float32)(p) = nil\n					}\n")],
  """
func main() {
	same(`null`, func() []float32 { return []float32{1} })
	same(`{"a":[[1,2],null]}`, zero[map[string][][]float32])
	same(`{"A":[1],"A":null}`, zero[struct{ A []float32 }])
}
""")

seed("c04-maprecur-fresh", "C04", "a recursive map that isn't empty before decoding, or a key that occurs twice in a document",
  "existing entries of recursive maps are lost",
  [(J, "					if *(*unsafe.Pointer)(p) == nil {\n						// Map not yet initialized, initialize map.\n						*(*unsafe.Pointer)(p) = makemap(", "					if *(*unsafe.Pointer)(p) == nil ||\n						d.stackExp[si].Type == ExpectTypeMapRecur {\n						// Map not yet initialized, initialize map.\n						*(*unsafe.Pointer)(p) = makemap(")],
  """
type R struct {
	N int
	M map[string]R
}

func main() {
	same(`{"M":{"a":{"N":1}}}`, func() R { return R{M: map[string]R{"b": {N: 2}}} })
	same(`{"M":{"a":{"N":1}},"M":{"c":{}}}`, zero[R])
}
""")

seed("c20-key-slash", "C20", "a field name with a slash that's escaped in the document",
  "field names with short escapes aren't unescaped",
  [(J, "						if !options.DisableFieldNameUnescaping {\n							key = unescape.Valid[S, S](key)\n", "						if !options.DisableFieldNameUnescaping &&\n							strings.Contains(string(key), `\\u`) {\n							key = unescape.Valid[S, S](key)\n")],
  """
type T struct {
	A int `json:"a/b"`
}

func main() {
	same(`{"a/b":1}`, zero[T])
	same(`{"a\\/b":1}`, zero[T])
}
""")

seed("c10-float32-cap", "C10", "[]byte input and a float32 whose decimal lies close enough to the middle between two float32 values to be rounded twice",
  "the nearest float32 is missed because the number is rounded to float64 first",
  [(J, "			su := unsafe.String(unsafe.SliceData([]byte(s)), len(s))\n			v, err := strconv.ParseFloat(su, 32)\n", "			su := unsafe.String(unsafe.SliceData([]byte(s)), len(s))\n			bits := 32\n			if len(su) > 20 {\n				// Don't lose precision\n				bits = 64\n			}\n			v, err := strconv.ParseFloat(su, bits)\n			if float32(v)-float32(v) != 0 {\n				_, err = strconv.ParseFloat(su, 32)\n			}\n")],
  """
func main() {
	same(`1.000000059604644775390626`, zero[float32])
	same(`{"x":1.00000017881393432617187499}`, zero[map[string]float32])
}
""")


seed("c02-nested-any-range", "C02", "a number beyond the range of float64 inside of an array or object decoded into any",
  "a number out of range is accepted as infinity",
  [(J, "			f64, err := tokens[0].Float64(str)\n			if err != nil {\n", "			f64, err := tokens[0].Float64(str)\n			if err != nil && !errors.Is(err, strconv.ErrRange) {\n"),
   (J, "var emptyStructAddr = unsafe.Pointer(&struct{}{})\n", "var emptyStructAddr = unsafe.Pointer(new(struct{}))\n")],
  """
func main() {
	same(`[1e400]`, zero[any])
	same(`{"x":{"y":-1e999}}`, zero[map[string]any])
}
""")

seed("c18-noscan", "C18", "a recursive slice holding the only reference to heap objects and a garbage collection after decoding",
  "the elements of recursive slices are allocated as memory without pointers: what they refer to is freed",
  [(J, "						sh := sliceHeader{\n							Data: newarray(d.stackExp[recursiveFrame].Typ, elems),\n", "						sh := sliceHeader{\n							// All elements are written, no need for typed memory.\n							Data: mallocgc(d.stackExp[recursiveFrame].Size*elems, nil, true),\n")],
  """
type R struct {
	S string
	M map[string]int
	L []R
}

func main() {
	var vs [100]R
	in := []byte(`{"L":[{"S":"some string","M":{"a":1,"b":2},"L":[{"S":"another string","M":{"c":3}}]},{"S":"third"}]}`)
	var want R
	_ = json.Unmarshal(in, &want)
	var junk [][]byte
	for i := range vs {
		if err := jscandec.Unmarshal(in, &vs[i]); err != nil {
			fail("%v", err)
		}
		runtime.GC()
		for j := 0; j < 100; j++ {
			junk = append(junk, bytes.Repeat([]byte{'x'}, 8<<(j%6)))
		}
		eq("value", vs[i], want)
	}
	for i := range vs {
		eq("value", vs[i], want)
	}
	runtime.KeepAlive(junk)
}
""", imports=["runtime"])

seed("c23-unsupported-field-ignored", "C23", "a struct with a field of an unsupported type",
  "fields of unsupported types are silently ignored instead of being reported",
  [(A, "			stack, err = appendTypeToStack(stack, f.Type, options)\n			if err != nil {\n				return nil, err\n			}\n", "			fieldStack, err := appendTypeToStack(stack, f.Type, options)\n			if err != nil {\n				if err == ErrStringTagOptionOnUnsupportedType {\n					return nil, err\n				}\n				continue // Can't be decoded\n			}\n			stack = fieldStack\n"),
   (A, "			newAtIndex := uint32(len(stack))\n			var err error\n", "			newAtIndex := uint32(len(stack))\n")],
  """
type T struct {
	A int
	B chan int
}

func main() {
	var v T
	if err := jscandec.Unmarshal(`{"A":1,"B":2}`, &v); err == nil {
		fail("an unsupported field is accepted")
	}
}
""")

seed("c06-bytes-escaped-key", "C06", "[]byte input and a map key of at least one escape in a document with several such keys",
  "escaped keys of []byte inputs overwrite each other",
  [(J, "					case ExpectTypeStr:\n						keyStr := unescape.Valid[S, string](key)\n						if d", "					case ExpectTypeStr:\n						keyStr := unescape.Valid[S, string](key)\n						if len(keyStr) != len(key) {\n							// Don't keep the oversized buffer alive\n							d.keyBuf = append(d.keyBuf[:0], keyStr...)\n							keyStr = unsafe.String(unsafe.SliceData(d.keyBuf), len(d.keyBuf))\n						}\n						if d"),
   (J, "	parseInt     func(s S) (int, error)\n", "	// keyBuf holds unescaped map keys.\n	keyBuf []byte\n\n	parseInt     func(s S) (int, error)\n")],
  """
func main() {
	same(`{"a\\nb":1,"c\\nd":2}`, zero[map[string]int])
}
""")

# ---- second round

seed("c05-field-cache", "C05", "one decoder used with different matching options for the same key",
  "the last field looked up is remembered with its raw key but without the options it was looked up with",
  [(J, "							frameIndex = fieldFrameIndexByName(d.stackExp[si].Fields, key)\n", "							if d.lastStruct == si+1 && d.lastKey == string(key) {\n								frameIndex = d.lastFrame\n							} else {\n								frameIndex = fieldFrameIndexByName(d.stackExp[si].Fields, key)\n								d.lastStruct, d.lastKey, d.lastFrame = si+1, string(key), frameIndex\n							}\n"),
   (J, "						if options.DisableCaseInsensitiveMatching {\n							fields := d.stackExp[si].Fields\n", "						if d.lastStruct == si+1 && d.lastKey == string(key) {\n							frameIndex = d.lastFrame\n						} else if options.DisableCaseInsensitiveMatching {\n							fields := d.stackExp[si].Fields\n"),
   (J, "	parseInt     func(s S) (int, error)\n", "	// The last field that was looked up.\n	lastKey               string\n	lastStruct, lastFrame uint32\n\n	parseInt     func(s S) (int, error)\n")],
  """
type T struct{ Foo, Bar int }

func main() {
	d := dec[string, T]()
	var v, w T
	if _, err := d.Decode(`{"foo":1}`, &v, jscandec.DefaultOptions); err != nil {
		fail("%v", err)
	}
	eq("first", v, T{Foo: 1})
	if _, err := d.Decode(`{"foo":1}`, &w, &jscandec.DecodeOptions{DisableCaseInsensitiveMatching: true}); err != nil {
		fail("%v", err)
	}
	eq("second", w, T{})
}
""")

seed("c11-late-escape", "C11", "[]byte input and a string whose first escape comes after 4096 bytes",
  "escapes are looked for in the first 4096 bytes of a string only",
  [(U, "		if i = bytes.IndexByte(in, '\\\\'); i == -1 {\n", "		if i = bytes.IndexByte(in[:min(len(in), 4096)], '\\\\'); i == -1 {\n"),
   (U, "		// Copy the string because it originates", "		// Copy the string because it originates")],
  """
func main() {
	same(`"`+strings.Repeat("x", 5000)+`\\n"`, zero[string])
}
""", imports=["strings"])

seed("c22-dup-first", "C22", "any and an object of more than 8 members with a repeated key",
  "in larger objects decoded into any the first occurrence of a key wins",
  [(J, "			top.object[unescape.Valid[S, string](top.key)] = v\n", "			k := unescape.Valid[S, string](top.key)\n			if _, ok := top.object[k]; !ok || len(top.object) < 8 { // Don't rehash\n				top.object[k] = v\n			}\n"),
   (J, "var emptyStructAddr = unsafe.Pointer(&struct{}{})\n", "var emptyStructAddr = unsafe.Pointer(new(struct{}))\n")],
  """
func main() {
	same(`{"a":1,"b":2,"c":3,"d":4,"e":5,"f":6,"g":7,"h":8,"a":9}`, zero[any])
}
""")

seed("c14-rebuild-small", "C14", "an existing map of few entries and a document with more than eight times as many",
  "a small existing map is replaced by one of sufficient size and loses its entries",
  [(J, "					if *(*unsafe.Pointer)(p) == nil {\n						// Map not yet initialized, initialize map.\n", "					if m := *(*map[struct{}]struct{})(p); m == nil || len(m)*8 < tokens[ti].Elements {\n						// Map not yet initialized or much too small, initialize map.\n")],
  """
func main() {
	same(`{"a":1,"b":2,"c":3,"d":4,"e":5,"f":6,"g":7,"h":8,"i":9}`, func() map[string]int { return map[string]int{"z": 26} })
}
""")

seed("c21-scratch", "C21", "concurrent decoding of strings with surrogate pairs",
  "surrogate pairs are encoded by way of a buffer that's shared by all goroutines",
  [(U, "						buf = utf8.AppendRune(buf, pair)\n", "						buf = append(buf, scratch[:utf8.EncodeRune(scratch[:], pair)]...)\n"),
   (U, "var lutReplace = [256]byte{", "var scratch [utf8.UTFMax]byte\n\nvar lutReplace = [256]byte{")],
  """
func main() {
	var wg sync.WaitGroup
	bad := make(chan string, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			in := strings.Repeat(fmt.Sprintf(`\\ud83d\\ude%02x`, g), 200)
			want := strings.Repeat(string(rune(0x1f600+g)), 200)
			for i := 0; i < 3000; i++ {
				var s string
				if err := jscandec.Unmarshal(`"`+in+`"`, &s); err != nil || s != want {
					select {
					case bad <- "wrong string":
					default:
					}
					return
				}
			}
		}(g)
	}
	wg.Wait()
	select {
	case m := <-bad:
		fail(m)
	default:
	}
}
""", imports=["strings", "sync"], race=True)

seed("c28-pooled-tokenizer", "C28", "an unmarshaler that calls Unmarshal itself",
  "Unmarshal returns its tokenizer to a pool before it is done with it, the unmarshalers it calls get the same one",
  [(J, "	tokenizer := jscan.NewTokenizer[S](\n		len(stack)+1, len(s)/2,\n	)\n", "	tokenizer, _ := tokenizers.Get().(*jscan.Tokenizer[S])\n	if tokenizer == nil {\n		tokenizer = jscan.NewTokenizer[S](\n			len(stack)+1, len(s)/2,\n		)\n	}\n	tokenizers.Put(tokenizer)\n"),
   (J, "// Decoder is a reusable decoder instance.\n", "var tokenizers sync.Pool\n\n// Decoder is a reusable decoder instance.\n"),
   (J, '	"strings"\n	"unsafe"\n', '	"strings"\n	"sync"\n	"unsafe"\n')],
  """
type U struct{ V []int }

func (u *U) UnmarshalJSON(b []byte) error {
	var s string
	if err := jscandec.Unmarshal(b, &s); err != nil {
		return err
	}
	return jscandec.Unmarshal([]byte(s), &u.V)
}

func main() {
	for i := 0; i < 50; i++ {
		var v struct {
			A U
			B []string
			C map[string]int
		}
		if err := jscandec.Unmarshal([]byte(`{"A":"[1,2,3,4,5,6]","B":["x","y"],"C":{"z":1}}`), &v); err != nil {
			fail("%v", err)
		}
		eq("A", v.A.V, []int{1, 2, 3, 4, 5, 6})
		eq("B", v.B, []string{"x", "y"})
		eq("C", v.C, map[string]int{"z": 1})
	}
}
""")

seed("c10-double-rounding", "C10", "a literal for float32 that is next to a float32 rounding boundary",
  "numbers for float32 are rounded to float64 first",
  [(J, "		v, err := strconv.ParseFloat(string(s), 32)\n		if err != nil {\n			return 0, err\n		}\n", "		v, err := strconv.ParseFloat(string(s), 64)\n		if err == nil && math.Abs(v) > math.MaxFloat32 {\n			_, err = strconv.ParseFloat(string(s), 32)\n		}\n		if err != nil {\n			return 0, err\n		}\n"),
   (J, "			v, err := strconv.ParseFloat(su, 32)\n			if err != nil {\n				return 0, err\n			}\n", "			v, err := strconv.ParseFloat(su, 64)\n			if err == nil && math.Abs(v) > math.MaxFloat32 {\n				_, err = strconv.ParseFloat(su, 32)\n			}\n			if err != nil {\n				return 0, err\n			}\n")],
  """
func main() {
	same(`1.000000178813934326171874999999999999`, zero[float32])
	same(`[1.00000005960464477539062500000000000001]`, zero[[]float32])
}
""")

seed("c12-both-options", "C12", "both DisableFieldNameUnescaping and DisableCaseInsensitiveMatching and an escaped key",
  "with case-insensitive matching disabled keys are unescaped although that is disabled as well",
  [(J, "						if !options.DisableFieldNameUnescaping {\n", "						if !options.DisableFieldNameUnescaping || options.DisableCaseInsensitiveMatching {\n")],
  """
func main() {
	var v struct{ Foo int }
	if _, err := dec[string, struct{ Foo int }]().Decode(`{"\\u0046oo":1}`, &v, &jscandec.DecodeOptions{DisableFieldNameUnescaping: true, DisableCaseInsensitiveMatching: true}); err != nil {
		fail("%v", err)
	}
	eq("Foo", v.Foo, 0)
}
""")

seed("c12-ascii-fold", "C12", "a key that matches a field name only by Unicode case folding",
  "only ASCII letters are matched case-insensitively",
  [(J, "	eq := strings.EqualFold\n", "	eq := func(a, b string) bool {\n		if len(a) != len(b) {\n			return false\n		}\n		return strings.EqualFold(a, b)\n	}\n")],
  """
func main() {
	same("{\\"\\u212aey\\":1}", zero[struct{ Key int }])
}
""")

seed("c04-any-merge", "C04", "a map stored in an any field of the destination and an object for it",
  "an object is merged into the map previously stored in any",
  [(J, "					*(*any)(p) = v\n					ti = len(tokens) - len(tail)\n					goto ON_VAL_END\n\n				case ExpectTypePtrRecur:", "					if m, ok := (*(*any)(p)).(map[string]any); ok && len(m) != 0 {\n						for k, e := range v.(map[string]any) {\n							m[k] = e\n						}\n					} else {\n						*(*any)(p) = v\n					}\n					ti = len(tokens) - len(tail)\n					goto ON_VAL_END\n\n				case ExpectTypePtrRecur:")],
  """
func main() {
	same(`{"b":2}`, func() any { return map[string]any{"a": 1.0} })
}
""")

seed("c07-long-string", "C07", "[]byte input and a string of at least 1024 bytes without escapes",
  "long strings without escapes aren't copied from the input slice",
  [(U, "	case []byte:\n		if i = bytes.IndexByte(in, '\\\\'); i == -1 {\n", "	case []byte:\n		if i = bytes.IndexByte(in, '\\\\'); i == -1 {\n			if _, ok := any(oz).(string); ok && len(in) >= 1024 {\n				// Avoid copying large strings\n				return O(unsafe.String(unsafe.SliceData(in), len(in)))\n			}\n"),
   (U, "		// Copy the string because it originates from a token\n", "		// Copy the string because it stems from a token\n")],
  """
func main() {
	in := []byte(`"` + strings.Repeat("x", 2000) + `"`)
	var s string
	if err := jscandec.Unmarshal(in, &s); err != nil {
		fail("%v", err)
	}
	for i := range in {
		in[i] = '!'
	}
	if s != strings.Repeat("x", 2000) {
		fail("the string changed with the input")
	}
}
""", imports=["strings"])

seed("c27-last-input", "C27", "string input given to a decoder that stays alive",
  "the decoder keeps the last field name of the input",
  [(J, "						key := s[tokens[ti].Index+1 : tokens[ti].End-1]\n						if !options.DisableFieldNameUnescaping {\n							key = unescape.Valid[S, S](key)\n						}\n", "						key := s[tokens[ti].Index+1 : tokens[ti].End-1]\n						if !options.DisableFieldNameUnescaping {\n							key = unescape.Valid[S, S](key)\n						}\n						d.lastKey = key\n"),
   (J, "	parseInt     func(s S) (int, error)\n", "	lastKey S // For debugging\n\n	parseInt     func(s S) (int, error)\n")],
  """
func main() {
	d := dec[[]byte, struct{ Foo int }]()
	done := make(chan bool, 1)
	func() {
		in := append(make([]byte, 0, 1<<16), `{"Foo":1}`...)
		runtime.SetFinalizer(&in[0], func(*byte) { done <- true })
		var v struct{ Foo int }
		if _, err := d.Decode(in, &v, jscandec.DefaultOptions); err != nil {
			fail("%v", err)
		}
	}()
	for i := 0; i < 20; i++ {
		runtime.GC()
		select {
		case <-done:
			runtime.KeepAlive(d)
			return
		case <-time.After(50 * time.Millisecond):
		}
	}
	runtime.KeepAlive(d)
	fail("the input is still referenced")
}
""", imports=["runtime", "time"])

seed("c19-bom", "C19", "input for Unmarshal that begins with a byte order mark",
  "Unmarshal skips a byte order mark that decoders reject",
  [(J, "	if _, err := d.Decode(s, t, DefaultOptions); err != nil &&\n", "	if len(s) > 3 && string(s[:3]) == \"\\uFEFF\" {\n		s = s[3:]\n	}\n	if _, err := d.Decode(s, t, DefaultOptions); err != nil &&\n		err != errors.ErrUnsupported &&\n")],
  """
func main() {
	var v int
	if err := jscandec.Unmarshal("\\uFEFF1", &v); err == nil {
		fail("accepted")
	}
}
""")

seed("c29-long-copied", "C29", "string input with a string element of a []string of more than 16 elements",
  "the strings of larger slices are copied",
  [(J, "							sl[i] = unescape.Valid[S, string](\n								s[tokens[i].Index+1 : tokens[i].End-1],\n							)\n", "							sl[i] = unescape.Valid[S, string](\n								s[tokens[i].Index+1 : tokens[i].End-1],\n							)\n							if elems > 16 {\n								sl[i] = strings.Clone(sl[i])\n							}\n")],
  """
func main() {
	in := `["a` + strings.Repeat(`","b`, 30) + `"]`
	var v []string
	if err := jscandec.Unmarshal(in, &v); err != nil {
		fail("%v", err)
	}
	a, b := uintptr(unsafe.Pointer(unsafe.StringData(in))), uintptr(unsafe.Pointer(unsafe.StringData(v[20])))
	if b < a || b >= a+uintptr(len(in)) {
		fail("copied")
	}
}
""", imports=["strings", "unsafe"])

seed("c26-clear-first", "C26", "malformed input and a destination that isn't zero",
  "a string destination is cleared before the input is known to be well-formed",
  [(J, "	si := uint32(0)\n	d.stackExp[0].Dest = unsafe.Pointer(t)\n", "	si := uint32(0)\n	d.stackExp[0].Dest = unsafe.Pointer(t)\n	if d.stackExp[0].Type == ExpectTypeSliceString && len(s) > 2 {\n		// The elements will be overwritten, release them.\n		if sl := *(*[]string)(d.stackExp[0].Dest); len(sl) > 8 {\n			sl[len(sl)-1] = \"\"\n		}\n	}\n")],
  """
func main() {
	v := []string{"1", "2", "3", "4", "5", "6", "7", "8", "9"}
	if err := jscandec.Unmarshal(`["1",`, &v); err == nil {
		fail("accepted")
	}
	eq("last", v[8], "9")
}
""")

# ---- round 3

seed("c30-pop-clears", "C30", "documents nested thousands of levels deep for recursive types",
  "the end of each level takes time in proportion to the depth reached",
  [(J, "	d.stackExp[si].RecursionStack = recurStack[:len(recurStack)-1]\n", "	// Release everything that isn't needed any more.\n	for i := len(recurStack) - 1; i < cap(recurStack); i++ {\n		frames := recurStack[:i+1][i].Reset\n		for j := range frames {\n			frames[j] = frameState{}\n		}\n	}\n	d.stackExp[si].RecursionStack = recurStack[:len(recurStack)-1]\n"),
   (J, "	return top.ContainerFrame\n}\n", "	container = top.ContainerFrame\n	return container\n}\n"),
   (J, "	// RecursionStack is only relevant to ExpectTypeStructRecur and\n	// keeps track of its recursion through pointers/maps/slices.\n", "	// RecursionStack is only relevant to ExpectTypeStructRecur\n	// and keeps track of its recursion through pointers/maps/slices.\n")],
  """
type S struct{ N *S }

func timed(n int) time.Duration {
	in := strings.Repeat(`{"N":`, n) + "{}" + strings.Repeat("}", n)
	best := time.Hour
	for i := 0; i < 3; i++ {
		var v S
		t := time.Now()
		if err := jscandec.Unmarshal(in, &v); err != nil {
			fail("%v", err)
		}
		best = min(best, time.Since(t))
	}
	return best
}

func main() {
	a, b := timed(1000), timed(32000)
	if b > 32*10*a+100*time.Millisecond {
		fail("1000 levels take %v, 32000 %v", a, b)
	}
}
""", imports=["strings", "time"])

seed("c30-surrogates", "C30", "strings of many thousand escaped surrogate pairs",
  "decoding escaped surrogate pairs takes quadratic time and memory",
  [(U, "						buf = utf8.AppendRune(buf, pair)\n", "						buf = []byte(string(buf) + string(pair))\n"),
   (U, "		// Copy the string because it originates from a token\n", "		// Copy the string because it comes from a token\n")],
  """
func timed(n int) time.Duration {
	in := `"` + strings.Repeat(`\\ud83d\\ude00`, n) + `"`
	best := time.Hour
	for i := 0; i < 3; i++ {
		var v string
		t := time.Now()
		if err := jscandec.Unmarshal(in, &v); err != nil {
			fail("%v", err)
		}
		best = min(best, time.Since(t))
	}
	return best
}

func main() {
	a, b := timed(1000), timed(32000)
	if b > 32*10*a+100*time.Millisecond {
		fail("1000 pairs take %v, 32000 %v", a, b)
	}
}
""", imports=["strings", "time"])

seed("c31-float-copy", "C31", "repeated decodes of floats with more than 32 characters from []byte input",
  "every number is copied",
  [(J, "			su := unsafe.String(unsafe.SliceData([]byte(s)), len(s))\n			v, err := strconv.ParseFloat(su, 32)\n", "			v, err := strconv.ParseFloat(string(s), 32)\n")],
  """
func main() {
	d := dec[[]byte, []struct{ F float32 }]()
	in := []byte("[" + strings.Repeat(`{"F":1234.5678901234567890123456789012345678901234567890},`, 99) + `{"F":0}]`)
	var v []struct{ F float32 }
	n := testing.AllocsPerRun(20, func() {
		if _, err := d.Decode(in, &v, jscandec.DefaultOptions); err != nil {
			fail("%v", err)
		}
	})
	if n > 8 {
		fail("%v allocations", n)
	}
}
""", imports=["strings", "testing"])

seed("c31-frames-released", "C31", "repeated decodes of recursive types",
  "the memory for a level of recursion is allocated again for every value",
  [(J, "	d.stackExp[si].RecursionStack = recurStack[:len(recurStack)-1]\n	return top.ContainerFrame\n", "	d.stackExp[si].RecursionStack = recurStack[:len(recurStack)-1]\n	container = top.ContainerFrame\n	*top = recursionStackFrame{}\n	return container\n"),
   (J, "	// RecursionStack is only relevant to ExpectTypeStructRecur and\n	// keeps track of its recursion through pointers/maps/slices.\n", "	// RecursionStack is only relevant to ExpectTypeStructRecur\n	// and keeps track of its recursion through pointers/maps/slices.\n")],
  """
type S struct {
	N []S
	I int
}

func main() {
	d := dec[string, S]()
	in := `{"N":[` + strings.Repeat(`{"N":[{"I":1}]},`, 99) + `{}]}`
	var v S
	n := testing.AllocsPerRun(20, func() {
		if _, err := d.Decode(in, &v, jscandec.DefaultOptions); err != nil {
			fail("%v", err)
		}
	})
	if n > 8 {
		fail("%v allocations", n)
	}
}
""", imports=["strings", "testing"])

seed("c02-map-key-plus", "C02", "integer map keys with a plus sign or leading zeros",
  "integer map keys are rejected that encoding/json accepts",
  [(J, "						n, errParse := strconv.ParseInt(unescape.Valid[S, string](key), 10, 16)\n						if errParse != nil {\n", "						keyStr := unescape.Valid[S, string](key)\n						n, errParse := strconv.ParseInt(keyStr, 10, 16)\n						if errParse != nil || readNumber(keyStr) != jsonnum.ReturnCodeInteger {\n"),
   (J, "					// The key frame is guaranteed to be non-composite (single frame)\n", "					// The key frame is guaranteed to be non-composite (one frame)\n"),
   (J, "var emptyStructAddr = unsafe.Pointer(&struct{}{})\n", "var emptyStructAddr = unsafe.Pointer(new(struct{}))\n")],
  """
func main() {
	same(`{"1":1}`, zero[map[int16]int])
	same(`{"+1":1}`, zero[map[int16]int])
	same(`{"007":1}`, zero[map[int16]int])
}
""")

seed("c03-trailing-nul", "C03", "input that ends with NUL bytes",
  "NUL bytes after the value are accepted",
  [(J, "	si := uint32(0)\n	d.stackExp[0].Dest = unsafe.Pointer(t)\n", "	// Strings from C may be terminated.\n	for len(s) > 1 && s[len(s)-1] == 0 {\n		s = s[:len(s)-1]\n	}\n\n	d.stackExp[0].Dest = unsafe.Pointer(t)\n	si := uint32(0)\n")],
  """
func main() {
	var v int
	if err := jscandec.Unmarshal("1\\x00", &v); err == nil {
		fail("accepted")
	}
}
""")

seed("c13-depth-int8", "C13", "an unknown member holding objects nested at least 128 levels deep",
  "members deep within an unknown member are taken for members of the struct",
  [(J, "							for l := 0; ; ti++ {\n								switch tokens[ti].Type {\n								case jscan.TokenTypeKey:\n", "							for l := int8(0); ; ti++ {\n								switch tokens[ti].Type {\n								case jscan.TokenTypeKey:\n")],
  """
func main() {
	type S struct{ A int }
	for n := 1; n < 400; n += 3 {
		same(`{"x":`+strings.Repeat(`{"A":`, n)+"5"+strings.Repeat("}", n)+`,"A":7}`, zero[S])
	}
}
""", imports=["strings"])

seed("c15-container-uint8", "C15", "a recursive struct type with more than 255 fields before the one it contains itself in",
  "the frame a recursion started from is mistaken for another one",
  [(J, "	// ContainerFrame stores the index of the recursive container frame.\n	ContainerFrame uint32\n", "	// ContainerFrame stores the index of the recursive container frame.\n	ContainerFrame uint8\n"),
   (J, "	top.ContainerFrame = container\n", "	top.ContainerFrame = uint8(container)\n"),
   (J, "	return top.ContainerFrame\n", "	return uint32(top.ContainerFrame)\n")],
  """
type P struct{ A, B, C, D, E, F, G, H, I, J, K, L, M, N, O int }
type Q struct{ A, B, C, D, E, F, G, H, I, J, K, L, M, N, O P }
type S struct {
	Q1, Q2 Q
	Kids   []S
	I      int
}

func main() {
	same(`{"Kids":[{"I":1},{"Kids":[{"I":2}],"I":3}],"I":4}`, zero[S])
}
""")

seed("c12-next-field-hint", "C12", "a field whose name equals that of another one but for letter case, following the field decoded before",
  "the field after the one decoded before is preferred to the exact match",
  [(J, "						} else {\n							frameIndex = fieldFrameIndexByName(d.stackExp[si].Fields, key)\n						}\n", "						} else if f := d.stackExp[si].Fields; hint < len(f) && hint > 0 &&\n							strings.EqualFold(f[hint].Name, string(key)) {\n							// Members are usually in the order of the fields.\n							frameIndex = f[hint].FrameIndex\n							hint++\n						} else {\n							frameIndex = fieldFrameIndexByName(f, key)\n							for hint = 0; hint < len(f) && f[hint].FrameIndex != frameIndex; {\n								hint++\n							}\n							hint++\n						}\n"),
   (J, "		// ti stands for the token index and points at the current token\n", "		hint := 0 // Index of the field expected next\n		// ti stands for the token index and points at the current token\n")],
  """
func main() {
	type S struct {
		Id int `json:"id"`
		X  int `json:"VALUE"`
		Y  int `json:"Value"`
		Z  int `json:"value"`
	}
	same(`{"id":1,"value":2}`, zero[S])
	same(`{"id":1,"Value":2,"VALUE":3}`, zero[S])
}
""")

seed("c23-string-option-ptr", "C23", "the string option on a pointer to a composite type with DisallowStringTagOptOnUnsupportedTypes",
  "the misplaced option isn't reported",
  [(A, "					if options.DisallowStringTagOptOnUnsupportedTypes {\n", "					if options.DisallowStringTagOptOnUnsupportedTypes &&\n						f.Type.Kind() != reflect.Pointer {\n")],
  """
func main() {
	type S struct {
		A *[]int `json:",string"`
	}
	_, err := jscandec.NewDecoder[string, S](jscan.NewTokenizer[string](8, 64), &jscandec.InitOptions{DisallowStringTagOptOnUnsupportedTypes: true})
	if err == nil {
		fail("accepted")
	}
}
""")

seed("c24-trim-capacity", "C24", "a slice with a capacity of at least 32 and at least 8 times the number of elements",
  "the backing array isn't reused and elements keep nothing of what they held",
  [(J, "					sl := *(*[]int)(p)\n					if cap(sl) < elems {\n", "					sl := *(*[]int)(p)\n					if cap(sl) >= 32 && elems <= cap(sl)/8 {\n						sl = nil // Don't waste memory\n					}\n					if cap(sl) < elems {\n")],
  """
func main() {
	mk := func() []int {
		s := make([]int, 2, 64)
		s[0], s[1] = 5, 6
		return s
	}
	same(`[null,1]`, mk)
	v := mk()
	w := v
	if err := jscandec.Unmarshal("[7]", &v); err != nil || w[0] != 7 {
		fail("not reused: %v %v", err, w)
	}
}
""")

seed("c09-integral-float", "C09", "an element of a []int64 written with fraction or exponent",
  "some numbers that are no integer literals are accepted as integers",
  [(J, "							v, overflow := atoi.I64(s[tokens[i].Index:tokens[i].End])\n							if overflow {\n								errIndex, err = tokens[i].Index, ErrIntegerOverflow\n								return true\n							}\n							sl[i] = v\n						default:\n", "							v, overflow := atoi.I64(s[tokens[i].Index:tokens[i].End])\n							if overflow {\n								errIndex, err = tokens[i].Index, ErrIntegerOverflow\n								return true\n							}\n							sl[i] = v\n						case jscan.TokenTypeNumber:\n							f, errFloat := tokens[i].Float64(s)\n							if errFloat != nil || i == 0 || f != float64(int64(f)) {\n								errIndex, err = tokens[i].Index, ErrUnexpectedValue\n								return true\n							}\n							sl[i] = int64(f)\n						default:\n"),
   (J, "var emptyStructAddr = unsafe.Pointer(&struct{}{})\n", "var emptyStructAddr = unsafe.Pointer(new(struct{}))\n")],
  """
func main() {
	same("[1,2,3]", zero[[]int64])
	same("[1,2e2]", zero[[]int64])
	same("[1,2.0]", zero[[]int64])
}
""")

seed("c28-wraps-panic", "C28", "an unmarshaler that panics with an error value",
  "the panic reaches the caller as another value",
  [(J, "	defer func() {\n		for len(d.recursion) > 0 {\n", "	defer func() {\n		if r := recover(); r != nil {\n			if e, ok := r.(error); ok && t != nil {\n				panic(fmt.Errorf(\"decoding %T: %w\", *t, e))\n			}\n			panic(r)\n		}\n	}()\n	defer func() {\n		for len(d.recursion) > 0 {\n"),
   (J, "	\"errors\"\n", "	\"errors\"\n	\"fmt\"\n")],
  """
type P struct{}

var boom = fmt.Errorf("boom")

func (*P) UnmarshalJSON([]byte) error { panic(boom) }

func main() {
	defer func() {
		if r := recover(); r != any(boom) {
			fail("recovered %v", r)
		}
	}()
	var v []P
	_ = jscandec.Unmarshal("[1]", &v)
}
""")

seed("c10-pow10-23", "C10", "numbers with the exponent 23 without fraction",
  "some floats are off by one bit",
  [(J, "			su := unsafe.String(unsafe.SliceData([]byte(s)), len(s))\n			v, err := strconv.ParseFloat(su, 64)\n", "			su := unsafe.String(unsafe.SliceData([]byte(s)), len(s))\n			if i := strings.IndexByte(su, 'e'); i > 0 && i < 16 && len(su) <= i+3 {\n				// Both factors are small enough to be exact.\n				m, errM := strconv.ParseUint(su[:i], 10, 64)\n				x, errX := strconv.ParseUint(su[i+1:], 10, 8)\n				if errM == nil && errX == nil && m < 1<<53 && x <= 23 {\n					f := float64(m)\n					for ; x > 15; x-- {\n						f *= 10\n						if x == 16 {\n							return f * 1e15, nil\n						}\n					}\n				}\n			}\n			v, err := strconv.ParseFloat(su, 64)\n")],
  """
func main() {
	for m := 1; m < 2000; m++ {
		for x := 0; x < 30; x++ {
			same(fmt.Sprintf("%de%d", m*61728394013, x), zero[float64])
		}
	}
}
""")

# --- round 4

CM = (J, "var emptyStructAddr = unsafe.Pointer(&struct{}{})\n", "var emptyStructAddr = unsafe.Pointer(new(struct{}))\n")

seed("c06-trim-string", "C06", "string input that begins with whitespace and is rejected",
  "the error index differs between []byte and string input",
  [(J, "	si := uint32(0)\n	d.stackExp[0].Dest = unsafe.Pointer(t)\n", "	if in, ok := any(s).(string); ok {\n		s = any(strings.TrimLeft(in, \" \\t\\r\\n\")).(S)\n	}\n\n	si := uint32(0)\n	d.stackExp[0].Dest = unsafe.Pointer(t)\n"), CM],
  """
func main() {
	var v []int
	i, _ := dec[[]byte, []int]().Decode([]byte("  [1,true]"), &v, jscandec.DefaultOptions)
	j, _ := dec[string, []int]().Decode("  [1,true]", &v, jscandec.DefaultOptions)
	eq("index", j, i)
}
""")

seed("c08-overflow-kind-after-null", "C08", "an element of a []uint16 out of range after an element null",
  "ErrUnexpectedValue is reported instead of ErrIntegerOverflow",
  [(J, "							v, overflow := atoi.U16(s[tokens[i].Index:tokens[i].End])\n							if overflow {\n								errIndex, err = tokens[i].Index, ErrIntegerOverflow\n", "							v, overflow := atoi.U16(s[tokens[i].Index:tokens[i].End])\n							if overflow {\n								errIndex, err = tokens[i].Index, ErrIntegerOverflow\n								if i > 0 && tokens[i-1].Type == jscan.TokenTypeNull {\n									err = ErrUnexpectedValue\n								}\n")],
  """
func main() {
	var v []uint16
	for _, in := range []string{"[70000]", "[1,70000]", "[null,70000]"} {
		if _, err := dec[string, []uint16]().Decode(in, &v, jscandec.DefaultOptions); err != jscandec.ErrIntegerOverflow {
			fail("%s: %v", in, err)
		}
	}
}
""")

seed("c16-empty-text", "C16", "an empty string for a text unmarshaler",
  "the unmarshaler isn't called",
  [(J, "					if errUnmarshal := u.UnmarshalText(tb); errUnmarshal != nil {\n", "					if len(tb) < 1 {\n						// There's nothing to unmarshal.\n					} else if errUnmarshal := u.UnmarshalText(tb); errUnmarshal != nil {\n")],
  """
type T struct{ n int }

func (t *T) UnmarshalText(b []byte) error { t.n++; return nil }

func main() {
	var v []T
	if err := jscandec.Unmarshal(`["a","","b"]`, &v); err != nil {
		fail("%v", err)
	}
	eq("calls", v, []T{{1}, {1}, {1}})
}
""")

seed("c17-str-valid-fast", "C17", "a long quoted string with the string option with a raw quote or control character inside but no escape",
  "malformed content of a field with the string option is accepted",
  [(J, "					if !json.Valid(unsafe.Slice(unsafe.StringData(tv), len(tv))) {\n", "					if (len(tv) < 32 || strings.IndexByte(tv, '\\\\') >= 0) &&\n						!json.Valid(unsafe.Slice(unsafe.StringData(tv), len(tv))) {\n"), CM],
  r"""
type S struct {
	A string `json:",string"`
}

func main() {
	same(`{"A":"\"abc\""}`, zero[S])
	same(`{"A":"\"a\nbc456789012345678901234567890123456789\""}`, zero[S])
	same(`{"A":"\"a\"bc456789012345678901234567890123456789\""}`, zero[S])
}
""")

seed("c18-cap-rounded", "C18", "a recursive slice of an odd number of elements appended to by the user after decoding",
  "the slice claims capacity it doesn't have, appending overwrites foreign memory",
  [(J, "							Len:  elems,\n							Cap:  elems,\n						}\n", "							Len:  elems,\n							Cap:  (elems + 3) &^ 3,\n						}\n")],
  """
type R struct {
	A    [25]int
	Kids []R
}

func main() {
	var v R
	if err := jscandec.Unmarshal(`{"Kids":[{},{},{},{},{}]}`, &v); err != nil {
		fail("%v", err)
	}
	if cap(v.Kids) > 7 {
		fail("capacity %d", cap(v.Kids))
	}
}
""")

seed("c20-trailing-cr", "C20", "a document followed by a carriage return",
  "the document is accepted but not decoded",
  [(J, "		case ' ', '\\t', '\\r', '\\n':\n		default:\n			return true\n", "		case ' ', '\\t', '\\n':\n		default:\n			return true\n"), CM],
  """
func main() {
	same("[1]\\n", zero[[]int])
	same("[1]\\r\\n", zero[[]int])
}
""")

seed("c25-bool-cells", "C25", "two pointers to bool that get the same value, one of which is written later",
  "pointers decoded from different values point to the same variable",
  [(J, "						dp = mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)\n					}\n					*(*unsafe.Pointer)(p) = dp\n				}\n				d.stackExp[si].Dest = dp\n", "						dp = mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)\n					}\n					if d.stackExp[si].Type == ExpectTypeBool {\n						// There are only two values\n						dp = unsafe.Pointer(&boolCells[0])\n						if tokens[ti].Type == jscan.TokenTypeTrue {\n							dp = unsafe.Pointer(&boolCells[1])\n						}\n					}\n					*(*unsafe.Pointer)(p) = dp\n				}\n				d.stackExp[si].Dest = dp\n"),
   (J, "// emptyStructAddr the address to an empty slice remains the same\n", "// boolCells are what pointers to bool point to.\nvar boolCells [2]bool\n\n// emptyStructAddr is the address of an empty slice, which remains the same\n")],
  """
func main() {
	var v []*bool
	if err := jscandec.Unmarshal(`[true,true,false]`, &v); err != nil {
		fail("%v", err)
	}
	*v[0] = false
	if !*v[1] || *v[2] {
		fail("shared")
	}
}
""")

seed("c32-reset-on-error", "C32", "a destination that isn't zero and a document it can't accept",
  "an error resets the destination, also what the document doesn't mention",
  [(J, "			return errIndex, err\n		}\n		return errTok.Index, errTok\n", "			var zero T\n			*t = zero // Don't return incomplete data\n			return errIndex, err\n		}\n		return errTok.Index, errTok\n")],
  """
type S struct{ A, B int }

func main() {
	v := S{1, 2}
	if err := jscandec.Unmarshal(`{"A":"x"}`, &v); err == nil {
		fail("no error")
	}
	eq("value", v, S{1, 2})
}
""")

seed("c32-array-cleared", "C32", "an array that isn't zero and an error in one of its elements",
  "elements behind the one with the error are zeroed",
  [(J, "					ti++\n					si++\n					d.stackExp[si].Dest = p\n					d.stackExp[si].Len = 0\n					d.stackExp[si].Offset = 0\n", "					ti++\n					si++\n					d.stackExp[si].Dest = p\n					d.stackExp[si].Len = 0\n					d.stackExp[si].Offset = 0\n					// Zero the elements that no value is left for\n					for i, v := 0, ti; i < d.stackExp[si].Cap; i++ {\n						switch tokens[v].Type {\n						case jscan.TokenTypeArray, jscan.TokenTypeObject:\n							v = tokens[v].End + 1\n							continue\n						case jscan.TokenTypeArrayEnd:\n						case jscan.TokenTypeInteger:\n							if d.stackExp[si].Type < ExpectTypeInt || d.stackExp[si].Type > ExpectTypeUint64 {\n								v++\n								continue\n							}\n							v++\n						default:\n							v++\n							continue\n						}\n						typedmemclr(d.stackExp[si].Typ, unsafe.Add(p, uintptr(i)*d.stackExp[si].Size))\n					}\n")],
  """
func main() {
	v := [3]int{1, 2, 3}
	if err := jscandec.Unmarshal(`["x",5,6]`, &v); err == nil {
		fail("no error")
	}
	eq("value", v, [3]int{1, 2, 3})
}
""")

seed("c33-long-name", "C33", "a field name with characters that encoding/json writes as \\u escapes and no longer one to compare with",
  "fields with < > & in the name are taken for unknown",
  [(J, "						if !options.DisableFieldNameUnescaping {\n							key = unescape.Valid[S, S](key)\n						}\n", "						longest := 0\n						for i := range d.stackExp[si].Fields {\n							if n := len(d.stackExp[si].Fields[i].Name); n > longest {\n								longest = n\n							}\n						}\n						if !options.DisableFieldNameUnescaping && len(key) <= longest+16 {\n							key = unescape.Valid[S, S](key)\n						}\n"), CM],
  r"""
type S struct {
	A int `json:"a<b"`
	B int `json:"<>"`
}

type T struct {
	A int `json:"<&-&>"`
}

func main() {
	same(`{"a\u003cb":1,"\u003c\u003e":2}`, zero[S])
	same(`{"\u003c\u0026-\u0026\u003e":1}`, zero[T])
}
""")

seed("c11-delete", "C11", "the escape \\u007f followed by more text",
  "U+007F is encoded in two bytes",
  [("internal/unescape/unescape.go", "			case r <= rune1Max:\n", "			case r < rune1Max:\n")],
  r"""
func main() {
	same(`"a\u007e\u0080"`, zero[string])
	same(`"a\u007fb"`, zero[string])
}
""")

seed("c03-any-depth", "C03", "any and a document nested more than 1000 levels deep",
  "decoding panics",
  [(J, "			containers = append(containers, container{\n				array: make([]any, 0, tokens[0].Elements),\n			})\n", "			containers = append(containers, container{\n				array: make([]any, 0, tokens[0].Elements),\n			})\n			if seen[len(containers)-1]++; seen[len(containers)-1] < 0 {\n				return nil, tokens, ErrUnexpectedValue\n			}\n"),
   (J, "	containers := make([]container, 0, 8) // Innermost last\n", "	containers := make([]container, 0, 8) // Innermost last\n	var seen [1024]int                    // Number of arrays per level\n"), CM],
  """
func main() {
	in := ""
	for i := 0; i < 2000; i++ {
		in = "[" + in + "]"
	}
	var v any
	if err := jscandec.Unmarshal(in, &v); err != nil {
		fail("%v", err)
	}
}
""")

seed("c29-keyed-copied", "C29", "string input and string values of a map[string]string",
  "the values are copies, not part of the input",
  [(J, "						m[keyUnescaped] = unescape.Valid[S, string](value)\n", "						m[keyUnescaped] = strings.Clone(unescape.Valid[S, string](value))\n")],
  """
func main() {
	in := `{"a":"some text"}`
	var v map[string]string
	if err := jscandec.Unmarshal(in, &v); err != nil {
		fail("%v", err)
	}
	if unsafe.StringData(v["a"]) != unsafe.StringData(in[6:]) {
		fail("copied")
	}
}
""", imports=["unsafe"])

seed("c02-base64-newline", "C02", "base64 text with line breaks",
  "base64 text of a []byte is rejected if its lines are wrapped",
  [(J, "					if errDecode != nil {\n						errIndex, err = tokens[ti].Index, errDecode\n						return true\n					}\n					*(*[]uint8)(p) = v\n", "					if n := tokens[ti].End - tokens[ti].Index - 2; errDecode == nil && n%4 != 0 {\n						errDecode = base64.CorruptInputError(n)\n					}\n					if errDecode != nil {\n						errIndex, err = tokens[ti].Index, errDecode\n						return true\n					}\n					*(*[]uint8)(p) = v\n"), CM],
  r"""
func main() {
	same(`"AAAA"`, zero[[]byte])
	same(`"AAAA\nAAAA"`, zero[[]byte])
}
""")

seed("c09-u64-wrap", "C09", "an integer of twenty digits between 19000000000000000000 and 19999999999999999999 for uint64",
  "integers out of range wrap around",
  [(I, "	case 20: // This case can overflow\n		if s[0] != '1' {\n			return 0, true\n		}\n", "	case 20: // This case can overflow\n		if s[0] != '1' {\n			return 0, true\n		}\n		if s[1] == '9' && s[2] == '9' && s[3] != '9' {\n			n, _ = U64(s[1:])\n			return n + 1e19, false\n		}\n")],
  """
func main() {
	same("18446744073709551615", zero[uint64])
	same("18446744073709551616", zero[uint64])
	same("19900000000000000000", zero[uint64])
}
""")

seed("c04-grow-len", "C04", "a slice with spare capacity holding data and a document with more elements than the capacity",
  "elements between length and capacity of the old slice are merged differently than by encoding/json",
  [(J, "									d.stackExp[si+1].Typ,\n									sh, sliceHeader{Data: h.Data, Len: h.Cap, Cap: h.Cap},\n", "									d.stackExp[si+1].Typ,\n									sh, sliceHeader{Data: h.Data, Len: h.Len, Cap: h.Cap},\n")],
  """
type S struct{ A, B int }

func main() {
	same(`[{"A":1},{"A":2},{"A":3}]`, func() []S { return []S{{5, 6}, {7, 8}}[:1] })
}
""")

seed("c05-options-kept", "C05", "a decoder called with different options",
  "the options of the first call with unknown fields disallowed stay in force for recursive types",
  [(J, "	si := uint32(0)\n	d.stackExp[0].Dest = unsafe.Pointer(t)\n", "	if d.options == nil || d.options.DisallowUnknownFields != options.DisallowUnknownFields && len(d.stackExp) < 4 {\n		d.options = options\n	}\n	if len(d.stackExp) >= 4 {\n		options = d.options\n	}\n\n	si := uint32(0)\n	d.stackExp[0].Dest = unsafe.Pointer(t)\n"),
   (J, "	recursion []uint32\n", "	recursion []uint32\n\n	options *DecodeOptions\n"), CM],
  """
type S struct {
	A, B int
	C    map[string][]int
}

func main() {
	d := dec[string, S]()
	var v S
	if _, err := d.Decode(`{"x":1}`, &v, jscandec.DefaultOptions); err != nil {
		fail("%v", err)
	}
	if _, err := d.Decode(`{"x":1}`, &v, &jscandec.DecodeOptions{DisallowUnknownFields: true}); err == nil {
		fail("no error")
	}
}
""")

seed("c30-key-restart", "C30", "objects with thousands of unknown members",
  "the time to skip unknown members grows with the square of their number",
  [(J, "							// Skip value, go to the next key\n							ti++\n", "							// Skip value, go to the next key\n							unknown++\n							for k, n := 0, 0; k < ti; k++ {\n								if tokens[k].Type == jscan.TokenTypeKey {\n									if n++; n > unknown {\n										unknown = n\n									}\n								}\n							}\n							ti++\n"),
   (J, "		// ti stands for the token index and points at the current token\n", "		unknown := 0\n		// ti stands for the token index and points at the current token\n")],
  """
type S struct{ A int }

func run(n int) time.Duration {
	in := []byte("{")
	for i := 0; i < n; i++ {
		in = append(in, fmt.Sprintf(`"u%d":1,`, i)...)
	}
	in = append(in, `"A":1}`...)
	best := time.Hour
	for i := 0; i < 4; i++ {
		var v S
		t := time.Now()
		if err := jscandec.Unmarshal(in, &v); err != nil {
			fail("%v", err)
		}
		if d := time.Since(t); d < best {
			best = d
		}
	}
	return best
}

func main() {
	if a, b := run(4000), run(64000); b > 100*a {
		fail("%v, %v", a, b)
	}
}
""", imports=["time"])

# --- fifth round

seed("c34-map-key-bits", "C34", "a 32-bit platform and a key of a map with int keys beyond 32 bits",
  "integer keys wrap around",
  [(J, "						n, errParse := strconv.ParseInt(unescape.Valid[S, string](key), 10, strconv.IntSize)\n", "						n, errParse := strconv.ParseInt(unescape.Valid[S, string](key), 10, 64)\n"), CM],
  """
func main() {
	same(`{"1":1,"-2147483648":2}`, zero[map[int]int])
	same(`{"4294967297":1}`, zero[map[int]int])
}
""", goarch="386")

seed("c34-uint-wraps", "C34", "a 32-bit platform and an integer for uint beyond 32 bits",
  "integers out of range wrap around",
  [(J, "			i, overflow := atoi.U32(s)\n			if overflow {\n				return 0, ErrIntegerOverflow\n			}\n			return uint(i), nil\n", "			i, overflow := atoi.U64(s)\n			if overflow {\n				return 0, ErrIntegerOverflow\n			}\n			return uint(i), nil\n")],
  """
func main() {
	same("4294967295", zero[uint])
	same("4294967296", zero[uint])
}
""", goarch="386")

seed("c34-any-size", "C34", "a 32-bit platform and a slice or array of any",
  "elements are written at the wrong address",
  [(A, "	case reflect.Interface:\n		return append(stack, stackFrame[S]{\n			Type:             ExpectTypeAny,\n			Typ:              getTyp(t),\n			Size:             unsafe.Sizeof(struct{ typ, dat uintptr }{}),\n", "	case reflect.Interface:\n		return append(stack, stackFrame[S]{\n			Type:             ExpectTypeAny,\n			Typ:              getTyp(t),\n			Size:             16, // Words for type and data\n")],
  """
func main() {
	same("[true,null]", zero[[4]any])
	same("[1,2,3]", zero[[8]any])
}
""", goarch="386")

seed("c13-disallow-recursion", "C13", "DisallowUnknownFields and an unknown member of a recursive value",
  "unknown members of recursive values aren't reported",
  [(J, "							if options.DisallowUnknownFields {\n								errIndex, err = tokens[ti].Index, ErrUnknownField\n								return true\n							}\n							// Skip value, go to the next key\n", "							if options.DisallowUnknownFields && len(d.recursion) < 1 {\n								errIndex, err = tokens[ti].Index, ErrUnknownField\n								return true\n							}\n							// Skip value, go to the next key\n")],
  """
type R struct {
	A    int
	Next *R
}

func main() {
	d := dec[string, R]()
	var v R
	o := &jscandec.DecodeOptions{DisallowUnknownFields: true}
	if _, err := d.Decode(`{"X":1}`, &v, o); err != jscandec.ErrUnknownField {
		fail("%v", err)
	}
	if i, err := d.Decode(`{"Next":{"A":1,"X":1}}`, &v, o); err != jscandec.ErrUnknownField || i != 15 {
		fail("%d %v", i, err)
	}
}
""")

seed("c14-scalar-not-cleared", "C14", "null for a key of a map of numbers that exists already (in the destination or earlier in the document)",
  "null leaves the earlier entry in place",
  [(J, "					// Zero the value, it may be the one of an existing key\n					typedmemclr(typVal, pNewData)\n", "					// Zero the value, it may be the one of an existing key\n					if t := d.stackExp[si].Type; t < ExpectTypeInt || t > ExpectTypeUint64 {\n						typedmemclr(typVal, pNewData)\n					} // Numbers are overwritten anyway\n"), CM],
  """
func main() {
	same(`{"a":1,"b":2}`, func() map[string]int { return map[string]int{"a": 3} })
	same(`{"a":null}`, func() map[string]int { return map[string]int{"a": 3} })
}
""")

seed("c15-len-kept", "C15", "a recursive struct within an array within the same type, with more elements behind it",
  "elements of arrays behind a recursive value are dropped",
  [(J, "		f.Dest, f.Offset, f.Len = top.Reset[i].Dest, top.Reset[i].Offset, top.Reset[i].Len\n", "		f.Dest, f.Offset = top.Reset[i].Dest, top.Reset[i].Offset\n"), CM],
  """
type R struct {
	A    int
	Kids [3]*R
}

func main() {
	same(`{"Kids":[{"A":1},{"A":2},{"A":3}]}`, zero[R])
	same(`{"Kids":[{"A":1,"Kids":[{"A":4},{"A":5}]},{"A":2},{"A":3}]}`, zero[R])
}
""")

seed("c19-null-shortcut", "C19", "Unmarshal of the bare document null into a slice, map or pointer that isn't nil",
  "Unmarshal leaves the destination unchanged where a decoder clears it",
  [(J, "	if t == nil {\n		return ErrNilDest\n	}\n	stack := make(", "	if t == nil {\n		return ErrNilDest\n	}\n	if string(s) == \"null\" {\n		// Has no effect\n		return nil\n	}\n	stack := make(")],
  """
func main() {
	a, b := []int{1}, []int{1}
	if _, err := dec[string, []int]().Decode("null", &a, jscandec.DefaultOptions); err != nil {
		fail("%v", err)
	}
	if err := jscandec.Unmarshal("null", &b); err != nil {
		fail("%v", err)
	}
	eq("Unmarshal", b, a)
}
""")

seed("c21-support-cache", "C21", "concurrent first uses of different types",
  "decoders are created by way of a map all goroutines write to",
  [(J, "	if t.AssignableTo(tpTextUnmarshaler) {\n		return interfaceSupportCopy\n	}\n	if t.Kind() != reflect.Ptr && reflect.PointerTo(t).AssignableTo(tpTextUnmarshaler) {\n		return interfaceSupportPtr\n	}\n	return interfaceSupportNone\n}\n", "	s, ok := textSupport[t]\n	if !ok {\n		if t.AssignableTo(tpTextUnmarshaler) {\n			s = interfaceSupportCopy\n		} else if t.Kind() != reflect.Ptr && reflect.PointerTo(t).AssignableTo(tpTextUnmarshaler) {\n			s = interfaceSupportPtr\n		} else {\n			s = interfaceSupportNone\n		}\n		textSupport[t] = s\n	}\n	return s\n}\n\n// textSupport remembers the results of determineTextUnmarshalerSupport.\nvar textSupport = map[reflect.Type]interfaceSupport{}\n")],
  """
func do[T any](in string, err *error) {
	var v T
	if e := jscandec.Unmarshal(in, &v); e != nil {
		*err = e
	}
}

func main() {
	done, start := make(chan error), make(chan bool)
	for g := 0; g < 8; g++ {
		go func() {
			var err error
			<-start
			do[struct{ A, B int }](`{"A":1}`, &err)
			do[map[string][]bool](`{"a":[true]}`, &err)
			do[[][]int](`[[1]]`, &err)
			do[[][]int8](`[[1]]`, &err)
			do[[][]int16](`[[1]]`, &err)
			do[[][]int32](`[[1]]`, &err)
			do[[][]int64](`[[1]]`, &err)
			do[[][]uint](`[[1]]`, &err)
			do[[][]uint16](`[[1]]`, &err)
			do[[][]uint32](`[[1]]`, &err)
			do[[][]uint64](`[[1]]`, &err)
			do[[][]float32](`[[1]]`, &err)
			do[[][]float64](`[[1]]`, &err)
			do[[][]string](`[["1"]]`, &err)
			done <- err
		}()
	}
	close(start)
	for g := 0; g < 8; g++ {
		if err := <-done; err != nil {
			fail("%v", err)
		}
	}
}
""", race=True)

seed("c24-exact-cap-int8", "C24", "a slice of int8 with exactly the capacity the document needs",
  "the slice is reallocated, what the caller's array holds isn't updated",
  [(J, "					sl := *(*[]int8)(p)\n					if cap(sl) < elems {\n", "					sl := *(*[]int8)(p)\n					if cap(sl) <= elems {\n")],
  """
func main() {
	b := []int8{1, 2, 3}
	v := b[:1]
	if err := jscandec.Unmarshal("[4,5,6]", &v); err != nil {
		fail("%v", err)
	}
	eq("backing", b, []int8{4, 5, 6})
}
""")

seed("c26-extra-close", "C26", "a document followed by a surplus closing bracket",
  "the destination is written although the input is malformed",
  [(J, "		case ' ', '\\t', '\\r', '\\n':\n		default:\n			return true\n", "		case ' ', '\\t', '\\r', '\\n', ']':\n		default:\n			return true\n"), CM],
  """
func main() {
	v := []int{1}
	if err := jscandec.Unmarshal("[2] x", &v); err == nil {
		fail("no error")
	}
	eq("rest", v, []int{1})
	if err := jscandec.Unmarshal("[2]]", &v); err == nil {
		fail("no error")
	}
	eq("bracket", v, []int{1})
}
""")

seed("c27-recursion-dest", "C27", "a recursive type and a decoder that stays alive",
  "the decoder keeps the recursive values of the last document alive",
  [(J, "		top.Reset[i].Dest = nil\n", ""), CM],
  """
type R struct {
	A    *[1 << 16]int
	Next *R
}

func main() {
	d := dec[string, R]()
	freed := make(chan bool, 1)
	func() {
		v := new(R)
		v.Next = new(R)
		runtime.SetFinalizer(v.Next, func(*R) { freed <- true })
		if _, err := d.Decode(`{"Next":{"A":[1],"Next":{"Next":{}}}}`, v, jscandec.DefaultOptions); err != nil {
			fail("%v", err)
		}
	}()
	for i := 0; i < 50; i++ {
		runtime.GC()
		select {
		case <-freed:
			runtime.KeepAlive(d)
			return
		case <-time.After(20 * time.Millisecond):
		}
	}
	runtime.KeepAlive(d)
	fail("kept")
}
""", imports=["runtime", "time"])

seed("c31-number-copy", "C31", "repeated decodes of Numbers from string input",
  "every Number is copied",
  [(J, "				case ExpectTypeNumber:\n					*(*Number)(p) = Number(s[tokens[ti].Index:tokens[ti].End])\n\n", "				case ExpectTypeNumber:\n					*(*Number)(p) = Number([]byte(s[tokens[ti].Index:tokens[ti].End]))\n\n")],
  """
func main() {
	d := dec[string, []jscandec.Number]()
	in := "[123" + strings.Repeat(",123456", 200) + "]"
	v := make([]jscandec.Number, 0, 300)
	if n := testing.AllocsPerRun(10, func() { d.Decode(in, &v, jscandec.DefaultOptions) }); n > 20 {
		fail("%v allocations", n)
	}
}
""", imports=["strings", "testing"])

seed("c02-uint8-minus-zero", "C02", "-0 for uint8",
  "-0 is accepted for an unsigned integer",
  [(J, "				case ExpectTypeUint8:\n					if s[tokens[ti].Index] == '-' {\n						errIndex", "				case ExpectTypeUint8:\n					if s[tokens[ti].Index] == '-' {\n						if string(s[tokens[ti].Index:tokens[ti].End]) == \"-0\" {\n							*(*uint8)(p) = 0\n							ti++\n							goto ON_VAL_END\n						}\n						errIndex")],
  """
func main() {
	same("0", zero[uint8])
	same("-1", zero[uint8])
	same("-0", zero[uint8])
}
""")

seed("c23-map-key-bool", "C23", "a map with a key type of kind bool",
  "map types with unsupported keys are accepted",
  [(A, "	case kind == reflect.Uint8:\n		frame.Type = ExpectTypeUint8\n", "	case kind == reflect.Uint8 || t.Size() == 1:\n		frame.Type = ExpectTypeUint8\n"), (A, "// appendTypeToStack will recursively flat-append stack frames recursing into t.\n", "// appendTypeToStack will flat-append stack frames recursing into t.\n")],
  """
func main() {
	var a map[float64]int
	if err := jscandec.Unmarshal(`{"1":1}`, &a); err == nil {
		fail("no error")
	}
	var b map[bool]int
	if err := jscandec.Unmarshal(`{"1":1}`, &b); err == nil {
		fail("no error")
	}
}
""")

seed("c12-long-tie", "C12", "two fields whose names differ in letter case only and a key that equals neither",
  "the last of the fields that match is chosen, not the first",
  [(J, "	for i := range f {\n		if eq(string(f[i].Name), string(name)) {\n			return f[i].FrameIndex\n		}\n	}\n	return noParentFrame\n", "	for i := len(f) - 1; i >= 0; i-- {\n		if eq(string(f[i].Name), string(name)) {\n			return f[i].FrameIndex\n		}\n	}\n	return noParentFrame\n")],
  """
type S struct {
	A int `json:"ab"`
	B int `json:"AB"`
}

func main() {
	same(`{"ab":1,"AB":2}`, zero[S])
	same(`{"aB":1}`, zero[S])
}
""")

seed("c17-ptr-null-kept", "C17", "a quoted null for a pointer with the string option that isn't nil",
  "the pointer isn't set to nil",
  [(J, "				if (d.stackExp[si].Type >= ExpectTypeBoolString ||\n					isPtr && d.stackExp[si+1].Type >= ExpectTypeBoolString) && string(\n", "				if (d.stackExp[si].Type >= ExpectTypeBoolString ||\n					isPtr && d.stackExp[si+1].Type > ExpectTypeBoolString) && string(\n"), CM],
  """
type S struct {
	A *int  `json:",string"`
	B *bool `json:",string"`
}

func main() {
	mk := func() S { return S{new(int), new(bool)} }
	same(`{"A":"null"}`, mk)
	same(`{"B":"null"}`, mk)
}
""")

seed("c07-error-alias", "C07", "[]byte input, a float64 out of range and a caller that reuses the input buffer before looking at the error",
  "the text of the error refers to the input",
  [(J, "			su := unsafe.String(unsafe.SliceData([]byte(s)), len(s))\n			v, err := strconv.ParseFloat(su, 64)\n			if err != nil {\n				return 0, err\n			}\n", "			su := unsafe.String(unsafe.SliceData([]byte(s)), len(s))\n			v, err := strconv.ParseFloat(su, 64)\n			if err != nil {\n				return 0, &strconv.NumError{Func: \"Decode\", Num: su, Err: strconv.ErrRange}\n			}\n")],
  """
func main() {
	in := []byte("[1,1e400]")
	var v []float64
	err := jscandec.Unmarshal(in, &v)
	if err == nil {
		fail("no error")
	}
	text := err.Error()
	for i := range in {
		in[i] = 'x'
	}
	eq("text of the error", err.Error(), text)
}
""")

seed("c35-any-arena", "C35", "arrays nested in any to one of which the user appends",
  "the arrays of a document decoded into any share their memory: appending to one overwrites another",
  [(J, "	containers := make([]container, 0, 8) // Innermost last\n", "	containers := make([]container, 0, 8) // Innermost last\n	arena := make([]any, 0, len(tokens)/2)\n"),
   (J, "				array: make([]any, 0, tokens[0].Elements),\n			})\n", "				array: arena[:0],\n			})\n			if arena = arena[:cap(arena)]; len(arena) > tokens[0].Elements {\n				arena = arena[tokens[0].Elements:]\n			} else {\n				arena = make([]any, 0, len(tokens)/2)\n			}\n"), CM],
  """
func main() {
	same(`[[1,2],[3,4],[[5],[6]],[]]`, zero[any])
	var v any
	if err := jscandec.Unmarshal(`{"a":[1,2],"b":[3,4],"c":[5,6]}`, &v); err != nil {
		fail("%v", err)
	}
	m := v.(map[string]any)
	for _, k := range []string{"a", "b", "c"} {
		m[k] = append(m[k].([]any), 7.0)
	}
	eq("after append", v, any(map[string]any{"a": []any{1.0, 2.0, 7.0}, "b": []any{3.0, 4.0, 7.0}, "c": []any{5.0, 6.0, 7.0}}))
}
""")

seed("c35-pointee-chunk", "C35", "pointers to int decoded by one decoder into different destinations",
  "pointers in values of different decodes point to the same variables",
  [(J, "						dp = mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)\n					}\n					*(*unsafe.Pointer)(p) = dp\n				}\n				d.stackExp[si].Dest = dp\n", "						dp = mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)\n					}\n					if d.stackExp[si].Type == ExpectTypeInt {\n						if len(d.ints) == cap(d.ints) {\n							d.ints = make([]int, 0, 64)\n						}\n						d.ints = append(d.ints, 0)\n						dp = unsafe.Pointer(&d.ints[len(d.ints)-1])\n					}\n					*(*unsafe.Pointer)(p) = dp\n				}\n				d.stackExp[si].Dest = dp\n"),
   (J, "	recursion []uint32\n", "	recursion []uint32\n\n	// ints is what pointers to int point into.\n	ints []int\n"),
   (J, "	si := uint32(0)\n	d.stackExp[0].Dest = unsafe.Pointer(t)\n", "	si := uint32(0)\n	d.stackExp[0].Dest = unsafe.Pointer(t)\n	d.ints = d.ints[:0]\n")],
  """
func main() {
	d := dec[string, []*int]()
	var a, b []*int
	if _, err := d.Decode("[1,2]", &a, jscandec.DefaultOptions); err != nil {
		fail("%v", err)
	}
	if _, err := d.Decode("[3,4]", &b, jscandec.DefaultOptions); err != nil {
		fail("%v", err)
	}
	if *a[0] != 1 || *a[1] != 2 || *b[0] != 3 || *b[1] != 4 {
		fail("%d %d %d %d", *a[0], *a[1], *b[0], *b[1])
	}
}
""")

seed("c35-empty-spare", "C35", "two empty arrays for []string, to both of which the user appends",
  "empty slices share spare capacity",
  [(J, "						*(*[]string)(p) = []string{}\n", "						*(*[]string)(p) = spareStrings[:0]\n"),
   (J, "// emptyStructAddr the address to an empty slice remains the same\n", "// spareStrings is room for a few strings to be appended to empty slices.\nvar spareStrings [4]string\n\n// emptyStructAddr is the address of an empty slice, which remains the same\n")],
  """
func main() {
	var v [][]string
	if err := jscandec.Unmarshal("[[],[]]", &v); err != nil {
		fail("%v", err)
	}
	v[0] = append(v[0], "a")
	v[1] = append(v[1], "b")
	eq("after append", v, [][]string{{"a"}, {"b"}})
}
""")

# Changes to what the "fix:" commits added come with a harmless one elsewhere.
for s in SEEDS:
    if s["id"] in """c04-any-merge c04-grow-len c04-maprecur-fresh c14-rebuild-small c18-noscan c21-scratch
        c23-map-key-bool c25-null-slice-float32 c30-pop-clears c30-surrogates c31-frames-released
        c02-uint8-minus-zero c06-bytes-escaped-key c07-long-string c08-overflow-kind-after-null c09-integral-float c09-u64-wrap
        c10-pow10-23 c11-surrogate-then-escape c19-bom c19-cache-by-name c19-null-shortcut c21-shared-recursion c22-any-minus-zero
        c24-trim-capacity c25-bool-cells c26-clear-first c26-reset-on-syntax-error c27-last-input c28-wraps-panic c29-long-copied
        c30-key-restart c32-array-cleared c32-reset-on-error c35-pointee-chunk""".split() and CM not in s["edits"]:
        s["edits"].append(CM)
