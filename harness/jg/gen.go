package jg

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/harness/pbt"
)

// Cfg are the permille weights of the irregularities of generated documents.
type Cfg struct {
	Mismatch int // a value of another JSON type
	Null     int
	Unknown  int // per struct object: unknown members
	Dup      int // per object: repeated keys
	Case     int // per key: letter case changed
	Esc      int // per character: escaped
	Overflow int // per number: out of range (or fractional for integers)
	BadQ     int // per quoted scalar: bad content
	BadKey   int // per map key: bad content
	Err      int // per unmarshaler value: the callback fails
	Empty    int // per container: empty
	Lone     int // per string: lone surrogates
	Budget   int // number of values
	Depth    int // nesting of any and recursion
	Long     int // per string/array: long ones
	Skip     int // per struct field: absent
	Same     bool
	// StdBad allows bad text for unmarshalers of the standard library.
	StdBad int
	// Huge is the permille weight of documents with a huge container or string
	// (0: a default, Small: none).
	Huge int
	// Scale is the size of the huge part, if not 0. The number of choices does
	// not depend on it.
	Scale int
	// Words are what to tell unmarshalers instead of ERR!.
	Words []string
}

// Gen generates documents.
type Gen struct {
	S      *pbt.Src
	C      Cfg
	budget int
	huge   int // size of a huge container or string still to be made
	used   int // values made as parts of something huge
}

// Small switches off huge documents.
const Small = -1

// Doc generates a document for type t.
func Doc(s *pbt.Src, t reflect.Type, c Cfg) *Node {
	if c.Budget == 0 {
		c.Budget = 40
	}
	if c.Depth == 0 {
		c.Depth = 6
	}
	g := &Gen{S: s, C: c, budget: c.Budget}
	if c.Huge == 0 {
		c.Huge = 2
	}
	if c.Scale != 0 {
		g.huge = c.Scale
	} else if s.P(c.Huge) {
		g.huge = s.Range(100, []int{400, 3000, 12000, 70000}[s.W(10, 20, 6, 1)])
		if max := int(4<<20/(FeatOf(t).Size+8)) + 20; g.huge > max {
			g.huge = max // Large elements must not exhaust the memory
		}
	}
	return g.Value(t, 0)
}

// takeHuge tells how large the container or string to be made next must be,
// or 0 if it needn't be huge.
func (g *Gen) takeHuge() int {
	if g.huge == 0 || !g.S.P(500) {
		return 0
	}
	n := g.huge
	g.huge = 0
	return n
}

// sub returns a generator of the small parts of something huge. They are
// irregular in few ways, otherwise there would be no huge document without a fault.
func (g *Gen) sub() *Gen {
	c := g.C
	c.Mismatch, c.Overflow, c.BadQ, c.BadKey, c.Err, c.StdBad, c.Long = 0, 0, 0, 0, 0, 0, 0
	c.Dup, c.Unknown = c.Dup/4, c.Unknown/4
	return &Gen{S: g.S.Sub(), C: c}
}

// next tells whether g, made by sub, can make another part without making the
// document too large for the memory.
func (g *Gen) next() bool {
	g.used += 2 - min(g.budget, 2)
	g.budget = 2
	return g.used < 250000 || g.C.Scale != 0
}

// special chooses which of n huge parts is made by g itself, -1 if none.
func (g *Gen) special(n int) int {
	if g.S.P(300) {
		return -1
	}
	return g.S.Intn(n)
}

// Value generates a value for t.
func (g *Gen) Value(t reflect.Type, d int) *Node {
	s := g.S
	g.budget--
	if s.P(g.C.Null) {
		return Null()
	}
	if s.P(g.C.Mismatch) {
		return g.Any(d, 3)
	}
	switch {
	case IsJSONU(t):
		n := g.rawFor(t, d)
		n.Raw = true
		return n
	case IsTextU(t):
		return g.textFor(t)
	case IsNumber(t):
		if s.P(150) {
			if s.P(g.C.BadQ) {
				return g.quote(pbt.Pick(s, badNumbers))
			}
			return g.quote(g.numLit())
		}
		return Num(g.numLit())
	}
	switch t.Kind() {
	case reflect.Pointer:
		return g.Value(t.Elem(), d)
	case reflect.Bool:
		return Bool(s.P(500))
	case reflect.String:
		return g.str()
	case reflect.Float32, reflect.Float64:
		return Num(g.floatLit(t.Bits()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Num(g.intLit(t.Kind()))
	case reflect.Interface:
		return g.Any(d, g.C.Depth-d)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && s.P(400) {
			return g.base64()
		}
		if n := g.takeHuge(); n > 0 {
			sub, k, a := g.sub(), g.special(n), &Node{K: '['}
			for i := 0; i < n; i++ {
				if i == k {
					a.Kids = append(a.Kids, g.Value(t.Elem(), d+1))
					continue
				}
				if !sub.next() {
					break
				}
				a.Kids = append(a.Kids, sub.Value(t.Elem(), d+1))
			}
			return a
		}
		n := g.length(d)
		return g.array(t.Elem(), n, d)
	case reflect.Array:
		n := t.Len()
		switch s.W(6, 2, 2, 1) {
		case 1:
			n = s.Intn(n + 1)
		case 2:
			n += s.Range(1, 3)
		case 3:
			n = 0
		}
		if h := g.takeHuge(); h > 0 {
			sub, a := g.sub(), &Node{K: '['}
			for i := 0; i < h; i++ {
				if !sub.next() {
					break
				}
				a.Kids = append(a.Kids, sub.Value(t.Elem(), d+1))
			}
			return a
		}
		if n > g.budget && n > 12 {
			n = 12
		}
		return g.array(t.Elem(), n, d)
	case reflect.Map:
		return g.mapObj(t, d)
	case reflect.Struct:
		return g.structObj(t, d)
	}
	return g.Any(d, 2)
}

func (g *Gen) length(d int) int {
	s := g.S
	if s.P(g.C.Empty) {
		return 0
	}
	if d > g.C.Depth || g.budget <= 0 {
		return s.Intn(2)
	}
	if s.P(g.C.Long) {
		return s.Range(8, 40)
	}
	return s.W(20, 40, 30, 20, 10, 5, 5)
}

func (g *Gen) array(el reflect.Type, n, d int) *Node {
	a := &Node{K: '['}
	for i := 0; i < n; i++ {
		if g.budget <= -200 {
			break
		}
		a.Kids = append(a.Kids, g.Value(el, d+1))
	}
	return a
}

// --- numbers

var intBounds = map[reflect.Kind][2]string{
	reflect.Int8: {"-128", "127"}, reflect.Int16: {"-32768", "32767"}, reflect.Int32: {"-2147483648", "2147483647"},
	reflect.Int64: {"-9223372036854775808", "9223372036854775807"}, reflect.Int: {"-9223372036854775808", "9223372036854775807"},
	reflect.Uint8: {"0", "255"}, reflect.Uint16: {"0", "65535"}, reflect.Uint32: {"0", "4294967295"},
	reflect.Uint64: {"0", "18446744073709551615"}, reflect.Uint: {"0", "18446744073709551615"},
}

func init() {
	if strconv.IntSize == 32 {
		intBounds[reflect.Int], intBounds[reflect.Uint] = intBounds[reflect.Int32], intBounds[reflect.Uint32]
	}
}

func kindBits(k reflect.Kind) (bits int, signed bool) {
	switch k {
	case reflect.Int8:
		return 8, true
	case reflect.Int16:
		return 16, true
	case reflect.Int32:
		return 32, true
	case reflect.Int:
		return strconv.IntSize, true
	case reflect.Int64:
		return 64, true
	case reflect.Uint:
		return strconv.IntSize, false
	case reflect.Uint8:
		return 8, false
	case reflect.Uint16:
		return 16, false
	case reflect.Uint32:
		return 32, false
	}
	return 64, false
}

// intLit makes an integer literal for kind k.
func (g *Gen) intLit(k reflect.Kind) string {
	s := g.S
	bits, signed := kindBits(k)
	if s.P(g.C.Overflow) {
		switch s.W(4, 3, 3, 2, 2, 2, 2) {
		case 0: // just above or below, or a wrapping distance
			max := uint64(math.MaxUint64)
			if bits < 64 {
				max = 1<<bits - 1
			}
			neg := false
			if signed {
				max >>= 1
				neg = s.P(500)
				if neg {
					max++
				}
			}
			if max == math.MaxUint64 {
				return pbt.Pick(s, []string{"18446744073709551616", "18446744073709551617", "18446744073709551620", "18446744073709551625", "18446744073709551999"})
			}
			d := s.U64n(4) + 1
			if s.P(500) {
				d = s.U64n(max/2+1) + 1
			}
			if max+d < max {
				d = 1
			}
			if neg {
				return "-" + strconv.FormatUint(max+d, 10)
			}
			return strconv.FormatUint(max+d, 10)
		case 1: // wraps to something small: k*2^bits + r
			if bits < 64 {
				v := s.U64n(1<<(63-bits))<<bits + s.U64n(1<<bits) + 1<<bits
				if s.P(300) {
					return "-" + strconv.FormatUint(v, 10)
				}
				return strconv.FormatUint(v, 10)
			}
			return pbt.Pick(s, []string{"", "-"}) + strconv.FormatUint(s.U64n(9)+1, 10) + fmt.Sprintf("%019d", s.U64n(1e18))
		case 2: // same number of digits as the bound, or one more
			b := intBounds[k][1]
			n := len(b) + s.Intn(2)
			l := []byte(strings.Repeat("0", n))
			l[0] = byte('1' + s.Intn(9))
			for i := 1; i < n; i++ {
				l[i] = byte('0' + s.Intn(10))
			}
			if s.P(400) {
				return "-" + string(l)
			}
			return string(l)
		case 3: // many digits
			n := s.Range(19, 45)
			l := []byte(strings.Repeat("0", n))
			l[0] = byte('1' + s.Intn(9))
			for i := 1; i < n; i++ {
				l[i] = byte('0' + s.Intn(10))
			}
			return pbt.Pick(s, []string{"", "-"}) + string(l)
		case 4:
			return pbt.Pick(s, []string{"1.0", "0.5", "1e2", "1E+2", "-1.5", "0e0", "10e-1", "1e400", "0.0", "-0.0", "127.0", "3e0"})
		case 5:
			return "-" + strconv.FormatUint(s.U64n(300)+1, 10)
		default:
			return pbt.Pick(s, []string{"-0", "-1", "-10"})
		}
	}
	switch s.W(6, 4, 2, 3) {
	case 0:
		v := s.Intn(100)
		if signed && s.P(300) {
			return strconv.Itoa(-v) // "-0" becomes "0"
		}
		return strconv.Itoa(v)
	case 1: // any width
		w := s.Range(1, bits)
		if signed {
			w--
		}
		v := uint64(0)
		if w > 0 {
			v = 1<<(w-1) + s.U64n(1<<(w-1))
		}
		if signed && s.P(400) {
			return "-" + strconv.FormatUint(v, 10)
		}
		return strconv.FormatUint(v, 10)
	case 2:
		return intBounds[k][s.Intn(2)]
	default: // near a bound
		if signed {
			max := int64(math.MaxInt64) >> (64 - bits)
			if s.P(500) {
				return strconv.FormatInt(max-int64(s.Intn(20)), 10)
			}
			return strconv.FormatInt(-max-1+int64(s.Intn(20)), 10)
		}
		max := uint64(math.MaxUint64) >> (64 - bits)
		return strconv.FormatUint(max-s.U64n(20), 10)
	}
}

var floatSpecials = []string{
	"0", "1", "-1", "-0", "0.0", "-0.0", "0e5", "-0e-5", "1.5", "-2.25", "1e3", "1E-3", "16777215", "16777216", "16777217", "9999999", "-9999999",
	"9007199254740991", "9007199254740992", "9007199254740993", "999999999999999", "-999999999999999", "1e22", "1e23",
	"3.4028234663852886e38", "1.401298464324817e-45", "7.006492321624085e-46", "1.1754943508222875e-38",
	"1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "2.4703282292062327e-324", "2.4703282292062328e-324",
	"0.1", "0.2", "0.30000000000000004", "123456789.123456789", "1e-400", "4.9406564584124654e-324", "100000000000000000000",
	"0.000000000000000000000000000000000000000000001", "33554433", "1234567", "-16777217", "8388608.5", "8388609.5", "1e+05",
}

func (g *Gen) floatLit(bits int) string {
	s := g.S
	if s.P(g.C.Overflow) {
		if s.P(400) { // integers and decimals of many digits
			n := 39
			if bits == 64 {
				n = 309
			}
			n += []int{0, s.Intn(4), s.Intn(60)}[s.Intn(3)]
			l := pbt.Pick(s, []string{"", "-"}) + strconv.Itoa(s.Range(4, 9)) + strings.Repeat(strconv.Itoa(s.Intn(10)), n-1)
			return l + pbt.Pick(s, []string{"", "", ".5", "e3", "E+1", ".0e0"})
		}
		if bits == 32 {
			return pbt.Pick(s, []string{"3.5e38", "-3.5e38", "1e39", "1e400", "-1e400", "3.4028235677973366e38", "400000000000000000000000000000000000000", "1e308"})
		}
		return pbt.Pick(s, []string{"1e309", "-1e309", "1.7976931348623159e308", "1e400", "2e99999", "-1e1000000000000"})
	}
	switch s.W(4, 3, 3, 3, 2, 2) {
	case 5: // products of numbers that floats can hold
		n, e := s.Range(1, 17), 40
		if bits == 32 {
			n = s.Range(1, 9)
			e = 37 - n
		}
		l := make([]byte, n)
		for i := range l {
			l[i] = byte('0' + s.Intn(10))
		}
		if l[0] == '0' {
			l[0] = '1'
		}
		return pbt.Pick(s, []string{"", "", "-"}) + string(l) + pbt.Pick(s, []string{"e", "e", "E", "e+", "e-", "E-"}) + strconv.Itoa(s.Intn(e+1))
	case 0:
		return g.numLit()
	case 1:
		l := pbt.Pick(s, floatSpecials)
		if bits == 32 {
			if v, err := strconv.ParseFloat(l, 32); err != nil || math.IsInf(v, 0) {
				return "1.25"
			}
		}
		return l
	case 2:
		if bits == 32 {
			f := math.Float32frombits(uint32(s.U64n(1 << 32)))
			if f != f || math.IsInf(float64(f), 0) {
				return "0.5"
			}
			if s.P(200) { // halfway to the next value
				v := (float64(f) + float64(math.Nextafter32(f, 0))) / 2
				return strconv.FormatFloat(v, 'e', -1, 64)
			}
			return strconv.FormatFloat(float64(f), "eg"[s.Intn(2)], s.Range(-1, 12), 32)
		}
		f := math.Float64frombits(s.U64())
		if f != f || math.IsInf(f, 0) {
			return "0.5"
		}
		l := strconv.FormatFloat(f, "eg"[s.Intn(2)], s.Range(-1, 20), 64)
		if _, err := strconv.ParseFloat(l, 64); err != nil {
			return "0.25"
		}
		return l
	case 3: // integers of any length
		n := s.Range(1, 25)
		if s.P(100) {
			n = s.Range(26, 37)
		}
		l := make([]byte, n)
		for i := range l {
			l[i] = byte('0' + s.Intn(10))
		}
		if l[0] == '0' {
			l[0] = '1'
		}
		return pbt.Pick(s, []string{"", "-"}) + string(l)
	default:
		return strconv.FormatFloat(float64(s.Intn(2_000_000)-1_000_000)/1000, 'f', -1, 64)
	}
}

// numLit makes a number literal of any form with a value every float can hold.
func (g *Gen) numLit() string {
	s := g.S
	b := []byte{}
	if s.P(300) {
		b = append(b, '-')
	}
	if s.P(250) {
		b = append(b, '0')
	} else {
		b = append(b, byte('1'+s.Intn(9)))
		for n := s.W(5, 4, 3, 2, 1, 1, 1, 1, 1); n > 0; n-- {
			b = append(b, byte('0'+s.Intn(10)))
		}
	}
	if s.P(350) {
		b = append(b, '.')
		for n := s.Range(1, 6); n > 0; n-- {
			b = append(b, byte('0'+s.Intn(10)))
		}
	}
	if s.P(250) {
		b = append(b, "eE"[s.Intn(2)])
		b = append(b, pbt.Pick(s, []string{"", "+", "-"})...)
		b = append(b, strconv.Itoa(s.Intn(20))...)
	}
	return string(b)
}

var badNumbers = []string{
	"", " ", "-", "1.", ".5", "1e", "1e+", "+1", "01", "-01", "1 ", " 1", "1x", "12a", "1.5.5", "1e5e5", "0x10", "abc", "NaN", "Inf", "-Inf", "1,2", "1_0",
	"--1", "1-", "true", "null", "00", "-", "1e5 ", "0.1\n", "1\t", "𝟙", "null ",
}

// --- strings

var strPieces = []string{
	"a", "b", "Z", "0", " ", "foo", "bar", "hello world", "é", "ß", "日本", "😀", "𝄞", "\u2028", "\u00a0", "\ufffd", "\uffff", "\U0010ffff", "~",
	"/", "\"", "\\", "\n", "\t", "\r", "\b", "\f", "\x00", "\x01", "\x1f", "\x7f", "\u0080", "\u07ff", "\u0800", "u0041", "\\u", "\\\\", "\"\"", "<>&", "'", "{}[],:",
}

// Text makes string content.
func (g *Gen) Text() string { return g.text() }

// Literal makes a number literal.
func (g *Gen) Literal() string { return g.floatLit(64) }

// text makes string content.
func (g *Gen) text() string {
	s := g.S
	var b strings.Builder
	if n := g.takeHuge(); n > 0 {
		plain := s.P(300)
		for sub := g.sub(); b.Len() < n; {
			if plain {
				b.WriteByte(byte('a' + sub.S.Intn(26)))
			} else {
				b.WriteString(sub.text())
			}
		}
		if plain && s.P(500) {
			b.WriteString(g.text())
		}
		return b.String()
	}
	n := s.W(6, 12, 10, 8, 6, 4, 3, 2)
	if s.P(g.C.Long) {
		n = s.Range(8, 60)
	}
	for i := 0; i < n; i++ {
		switch s.W(5, 6, 2, 1) {
		case 0:
			b.WriteByte(byte('a' + s.Intn(26)))
		case 1:
			b.WriteString(pbt.Pick(s, strPieces))
		case 2:
			b.WriteString(strings.Repeat(string(rune('a'+s.Intn(26))), s.Range(1, 40)))
		default:
			r := rune(s.Intn(0x110000))
			if !utf8.ValidRune(r) {
				r = 'x'
			}
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (g *Gen) quote(text string) *Node {
	if g.C.Esc > 0 {
		from := 0
		if len(text) > 30 && g.S.P(400) {
			// Nothing is escaped that needn't be, up to some place.
			from = len(text) - g.S.Intn(10)
			if g.S.P(300) {
				from = g.S.Intn(len(text))
			}
			return QuoteLate(g.S.Sub(), text, max(g.C.Esc, 200), from)
		}
		if len(text) > 3000 {
			return QuoteEsc(g.S.Sub(), text, g.C.Esc)
		}
		return QuoteEsc(g.S, text, g.C.Esc)
	}
	return Quote(text)
}

func (g *Gen) str() *Node {
	s := g.S
	if s.P(g.C.Lone) {
		lit := `"`
		for n := s.Range(1, 6); n > 0; n-- {
			switch s.W(3, 2, 2, 1, 1) {
			case 0:
				lit += fmt.Sprintf(`\u%04x`, 0xd800+s.Intn(0x800))
			case 1:
				q := g.quote(pbt.Pick(s, strPieces)).Lit
				lit += q[1 : len(q)-1]
			case 2:
				lit += fmt.Sprintf(`\u%04X\u%04x`, 0xd800+s.Intn(0x400), 0xdc00+s.Intn(0x400))
			case 3:
				lit += `\u` + fmt.Sprintf("%04x", s.Intn(0x10000))
			default:
				lit += pbt.Pick(s, []string{"a", `\n`, `\\`, `\"`, "é", "u", "ud834"})
			}
		}
		return StrLit(lit + `"`)
	}
	return g.quote(g.text())
}

func (g *Gen) base64() *Node {
	s := g.S
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	n := s.Intn(8) * 4
	b := make([]byte, n)
	for i := range b {
		b[i] = al[s.Intn(64)]
	}
	if n > 0 && s.P(500) {
		b[n-1] = '='
		if s.P(500) {
			b[n-2] = '='
		}
	}
	if n > 0 && s.P(200) {
		// Line breaks are ignored
		for k := 1 + s.Intn(3); k > 0; k-- {
			at := s.Intn(len(b) + 1)
			b = append(b[:at:at], pbt.Pick(s, []string{"\n", "\r\n", "\r"})+string(b[at:])...)
		}
	}
	if s.P(g.C.BadQ) {
		return g.quote(string(b) + pbt.Pick(s, []string{"=", "A", "*", " ", "-"}))
	}
	return g.quote(string(b))
}

// --- unmarshalers

func (g *Gen) errText() string {
	w := "ERR!"
	if len(g.C.Words) > 0 {
		w = pbt.Pick(g.S, g.C.Words)
	}
	return pbt.Pick(g.S, []string{"", "x", "longer text "}) + w + pbt.Pick(g.S, []string{"", "y"})
}

func (g *Gen) rawFor(t reflect.Type, d int) *Node {
	s := g.S
	if t.PkgPath() != spPkg {
		bad := s.P(g.C.StdBad)
		switch t.String() {
		case "time.Time":
			if bad {
				return g.Any(d, 1)
			}
			return Quote(fmt.Sprintf("20%02d-%02d-%02dT%02d:%02d:%02dZ", s.Intn(100), s.Range(1, 12), s.Range(1, 28), s.Intn(24), s.Intn(60), s.Intn(60)))
		case "big.Int":
			if bad {
				return g.Any(d, 1)
			}
			return Num(strconv.FormatUint(s.U64(), 10) + strconv.Itoa(s.Intn(1000)))
		}
		return g.Any(d, 3)
	}
	if s.P(g.C.Err) {
		switch s.W(2, 1, 1) {
		case 1:
			return Arr(g.Any(d, 1), g.quote(g.errText()))
		case 2:
			return &Node{K: '{', Keys: []*Node{g.quote("k"), g.quote("l")}, Kids: []*Node{g.Any(d, 1), Quote(g.errText())}}
		}
		return Quote(g.errText())
	}
	return g.Any(d, 3)
}

func (g *Gen) textFor(t reflect.Type) *Node {
	s := g.S
	if t.PkgPath() != spPkg {
		if t.String() == "net.IP" && !s.P(g.C.StdBad) {
			return g.quote(pbt.Pick(s, []string{"127.0.0.1", "::1", "10.0.0.255", "fe80::1:2", ""}))
		}
		return g.str()
	}
	if s.P(g.C.Err) {
		return g.quote(g.errText())
	}
	return g.str()
}

// --- objects

func (g *Gen) badOr(k reflect.Kind) string {
	s := g.S
	if s.P(500) {
		save := g.C.Overflow
		g.C.Overflow = 1000
		l := g.intLit(k)
		g.C.Overflow = save
		return l
	}
	return pbt.Pick(s, badNumbers)
}

// Key makes a key for map key type kt.
func (g *Gen) Key(kt reflect.Type) *Node {
	s := g.S
	if IsTextKey(kt) {
		if s.P(g.C.Err) {
			return g.quote(g.errText())
		}
		return g.str()
	}
	if kt.Kind() == reflect.String {
		if s.P(500) {
			return g.quote(pbt.Pick(s, []string{"a", "b", "c", "foo", "", "key", "K", "0"}))
		}
		return g.str()
	}
	if _, ok := intBounds[kt.Kind()]; !ok {
		return g.str() // in an array of length 0
	}
	if s.P(g.C.BadKey) {
		return g.quote(g.badOr(kt.Kind()))
	}
	if s.P(60) {
		return g.quote(pbt.Pick(s, []string{"0", "1", "2", "00", "007"}))
	}
	save := g.C.Overflow
	g.C.Overflow = 0
	l := g.intLit(kt.Kind())
	g.C.Overflow = save
	return g.quote(l)
}

func (g *Gen) mapObj(t reflect.Type, d int) *Node {
	s := g.S
	o := &Node{K: '{'}
	if n := g.takeHuge(); n > 0 {
		sub, k := g.sub(), g.special(n)
		for i := 0; i < n; i++ {
			h := sub
			if i == k {
				h = g
			} else if !sub.next() {
				break
			}
			key := h.Key(t.Key())
			if t.Key().Kind() == reflect.String && !IsTextKey(t.Key()) && sub.S.P(800) {
				key = Quote(key.Str + strconv.Itoa(i))
			}
			o.Keys = append(o.Keys, key)
			o.Kids = append(o.Kids, h.Value(t.Elem(), d+1))
		}
		return o
	}
	n := g.length(d)
	for i := 0; i < n; i++ {
		if g.budget <= -200 {
			break
		}
		var k *Node
		if i > 0 && s.P(g.C.Dup) {
			p := o.Keys[s.Intn(i)]
			if k = p.Clone(); utf8.ValidString(p.Str) && !strings.ContainsRune(p.Str, '\ufffd') {
				k = g.quote(p.Str)
			}
		} else {
			k = g.Key(t.Key())
		}
		o.Keys = append(o.Keys, k)
		o.Kids = append(o.Kids, g.Value(t.Elem(), d+1))
	}
	return o
}

// quoted makes the value of a field with the string option.
func (g *Gen) quoted(t reflect.Type, d int) *Node {
	s := g.S
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	g.budget--
	if s.P(g.C.Null) {
		return Null()
	}
	if s.P(g.C.Mismatch) {
		switch s.W(2, 1) {
		case 0: // the plain value
			return g.Value(t, d)
		}
		return g.Any(d, 2)
	}
	if IsJSONU(t) || IsTextU(t) || IsNumber(t) {
		return g.Value(t, d)
	}
	bad := s.P(g.C.BadQ)
	switch k := t.Kind(); k {
	case reflect.Bool:
		if bad {
			return g.quote(pbt.Pick(s, []string{"", "True", "TRUE", "tru", "truee", "true ", " true", "1", "0", "null", "falsefalse", "f", "\"true\"", "no", "nul"}))
		}
		return g.quote(pbt.Pick(s, []string{"true", "false"}))
	case reflect.String:
		if bad && s.P(400) { // damaged
			c := []rune(g.str().Lit)
			if s.P(300) {
				c = []rune(`"` + strings.Repeat(pbt.Pick(s, []string{"a", "xyz ", "é", "日本"}), s.Range(1, 80)) + `"`)
			}
			at := s.Intn(len(c) + 1)
			if s.P(700) {
				c = append(c[:at:at], append([]rune(pbt.Pick(s, []string{`"`, `\`, `\x`, `\u`, "\n", "\x00", "\x1f", "\t", `""`, `\ud800`, " "})), c[at:]...)...)
			} else if at < len(c) {
				c = append(c[:at:at], c[at+1:]...)
			}
			return g.quote(string(c))
		}
		if bad {
			return g.quote(pbt.Pick(s, []string{"", "x", "\"", "\"\"\"", "\"x", "x\"", "\"a\"b\"", "\"\\", "null", "\"\\\"", "\"\\u12\"", "true", "1", "\"a\\qb\"", "\"\n\"", "\"x\" ", " \"x\"", "\"a\"\"", "''", "\"\\x41\""}))
		}
		inner := g.str()
		if s.P(400) {
			inner = Quote(pbt.Pick(s, []string{"", "x", "hello", "a b c", "日本", "0"}))
		}
		return g.quote(inner.Lit)
	case reflect.Float32, reflect.Float64:
		if bad {
			return g.quote(pbt.Pick(s, badQuotedNumbers))
		}
		return g.quote(g.floatLit(t.Bits()))
	default:
		if bad {
			if s.P(500) {
				return g.quote(pbt.Pick(s, badQuotedNumbers))
			}
			return g.quote(g.badInt(k))
		}
		return g.quote(g.intLit(k))
	}
}

func (g *Gen) badInt(k reflect.Kind) string {
	save := g.C.Overflow
	g.C.Overflow = 1000
	l := g.intLit(k)
	g.C.Overflow = save
	return l
}

// badQuotedNumbers leaves out what encoding/json only accepts because it
// relies on strconv (leading zeros, a trailing point, hexadecimal, -Inf).
var badQuotedNumbers = []string{
	"", " ", "-", "+1", ".5", "1e", "1e+", "1 ", " 1", "1x", "12a", "1.5.5", "1e5e5", "abc", "NaN", "Inf", "1,2", "--1", "1-", "true", "nul", "nulll",
	"\"1\"", "1e5 ", "0.1\n", "1\t", "1\\u0030", "e5", "1ee5", "5true",
}

var nameNoise = []string{"unknown", "x_", "zzz", "", "a b", "\u00e9\u00e9", "_id", "kkkk", "ssss", "K_", "日", "😀x", "\"q", "back\\slash", "longer unknown member name", "0x", "true", "null"}

// Unknown makes a key that matches no field of fs under any option.
func (g *Gen) Unknown(fs []Field) *Node {
	s := g.S
	for try := 0; try < 50; try++ {
		k := pbt.Pick(s, nameNoise)
		if s.P(300) {
			k = g.text()
		}
		if len(fs) > 0 && s.P(300) { // near misses
			k = pbt.Pick(s, fs).Name
			switch s.Intn(5) {
			case 0:
				k += pbt.Pick(s, []string{"x", " ", "\x00", "_", "é"})
			case 1:
				k = "x" + k
			case 2:
				k = k[:len(k)-1]
			case 3:
				k += k
			default:
				k = strings.Replace(k, k[:1], "#", 1)
			}
			if !utf8.ValidString(k) {
				continue
			}
		}
		if Lookup(fs, k, true) == nil {
			return g.quote(k)
		}
	}
	return Quote("unknown \u0001 member")
}

// varyCase changes the case of letters, now and then to letters of other
// byte length with the same fold.
func (g *Gen) varyCase(name string) string {
	s := g.S
	switch s.Intn(5) {
	case 0:
		return strings.ToUpper(name)
	case 1:
		return strings.ToLower(name)
	}
	out := []rune{}
	for _, r := range name {
		if s.P(500) {
			switch {
			case (r == 'k' || r == 'K') && s.P(200):
				r = '\u212a'
			case (r == 's' || r == 'S') && s.P(200):
				r = '\u017f'
			default:
				u, l := []rune(strings.ToUpper(string(r))), []rune(strings.ToLower(string(r)))
				if len(u) == 1 && u[0] != r {
					r = u[0]
				} else if len(l) == 1 {
					r = l[0]
				}
			}
		}
		out = append(out, r)
	}
	return string(out)
}

// FieldKey makes a key selecting field f.
func (g *Gen) FieldKey(fs []Field, f *Field) *Node {
	name := f.Name
	if g.S.P(g.C.Case) {
		name = g.varyCase(name)
	}
	return g.quote(name)
}

func (g *Gen) structObj(t reflect.Type, d int) *Node {
	s := g.S
	o := &Node{K: '{', ST: t}
	fs := Fields(t)
	if s.P(g.C.Empty) {
		return o
	}
	skip := g.C.Skip
	if g.budget < 0 || d > g.C.Depth {
		skip = 900
	}
	var order []int
	for i := range fs {
		if !s.P(skip) {
			order = append(order, i)
		}
		if s.P(g.C.Dup) {
			order = append(order, s.Intn(len(fs)))
		}
	}
	if s.P(600) {
		for i := len(order) - 1; i > 0; i-- {
			j := s.Intn(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	add := func() {
		if g.C.Unknown > 0 && s.P(4) && g.C.Scale == 0 {
			o.Keys = append(o.Keys, g.Unknown(fs))
			o.Kids = append(o.Kids, g.Chain(fs))
		}
		if g.C.Unknown > 0 {
			if n := g.takeHuge(); n > 0 {
				for sub := g.sub(); n > 0 && sub.next(); n-- {
					o.Keys = append(o.Keys, sub.Unknown(fs))
					o.Kids = append(o.Kids, sub.Any(d, 2))
				}
			}
		}
		for s.P(g.C.Unknown) && g.budget > -100 {
			o.Keys = append(o.Keys, g.Unknown(fs))
			o.Kids = append(o.Kids, g.Any(d, 3))
		}
	}
	add()
	for _, i := range order {
		if g.budget <= -200 {
			break
		}
		f := &fs[i]
		var v *Node
		k := g.FieldKey(fs, f)
		// The key may select another field by exact match.
		if sel := Lookup(fs, k.Str, true); sel != nil {
			f = sel
		}
		if f.Quoted {
			v = g.quoted(f.Type, d+1)
		} else {
			v = g.Value(f.Type, d+1)
		}
		o.Keys = append(o.Keys, k)
		o.Kids = append(o.Kids, v)
		add()
	}
	return o
}

// Chain makes a value nested many times, with the names of fs for its keys.
func (g *Gen) Chain(fs []Field) *Node {
	s := g.S
	n := []int{s.Range(2, 40), s.Range(41, 400), s.Range(41, 3000)}[s.W(12, 5, 1)]
	sub := g.sub()
	v := g.Any(0, 2)
	what := s.Intn(3)
	for ; n > 0; n-- {
		if what == 0 || what == 1 && sub.S.P(500) {
			v = Arr(v)
		} else {
			v = &Node{K: '{', Keys: []*Node{sub.nameOf(fs)}, Kids: []*Node{v}}
		}
		if sub.S.P(80) {
			v.Kids = append(v.Kids, pbt.Pick(sub.S, []*Node{Null(), Num("1"), Quote("x"), Arr(), {K: '{'}}).Clone())
			if v.K == '{' {
				v.Keys = append(v.Keys, sub.nameOf(fs))
			}
			if i := len(v.Kids) - 1; sub.S.P(500) { // not the last one
				v.Kids[0], v.Kids[i] = v.Kids[i], v.Kids[0]
			}
		}
	}
	return v
}

// nameOf makes a key with the name of one of fs, or a usual one.
func (g *Gen) nameOf(fs []Field) *Node {
	if len(fs) > 0 && g.S.P(700) {
		return Quote(pbt.Pick(g.S, fs).Name)
	}
	return Quote(pbt.Pick(g.S, []string{"a", "A", "N", "id", "Kids", "L", "R", "Name", "V", "Next", "F0", "X", ""}))
}

// Any makes an arbitrary value of limited depth.
func (g *Gen) Any(d, depth int) *Node {
	s := g.S
	g.budget--
	if n := g.takeHuge(); n > 0 {
		sub, k, a := g.sub(), g.special(n), &Node{K: '['}
		if s.P(300) { // deep
			if g.C.Scale != 0 {
				n = min(n, 9000)
			} else if n = n % 4000; n > 1000 && !s.P(100) {
				n %= 1000
			}
			v := g.Any(d, 2)
			for ; n > 0; n-- {
				if sub.S.P(500) {
					v = Arr(v)
				} else {
					v = &Node{K: '{', Keys: []*Node{sub.nameOf(nil)}, Kids: []*Node{v}}
				}
				if sub.S.P(100) {
					v.Kids = append(v.Kids, Null())
					if v.K == '{' {
						v.Keys = append(v.Keys, Quote("b"))
					}
				}
			}
			return v
		}
		if s.P(400) {
			a.K = '{'
		}
		for i := 0; i < n; i++ {
			h := sub
			if i == k {
				h = g
			} else if !sub.next() {
				break
			}
			if a.K == '{' {
				key := h.str()
				if sub.S.P(800) {
					key = Quote(key.Str + strconv.Itoa(i))
				}
				a.Keys = append(a.Keys, key)
			}
			a.Kids = append(a.Kids, h.Any(d+1, 2))
		}
		return a
	}
	c := s.W(3, 3, 6, 6, 4, 4)
	if (depth <= 0 || g.budget < -50) && c >= 4 {
		c = s.Intn(4)
	}
	switch c {
	case 0:
		return Null()
	case 1:
		return Bool(s.P(500))
	case 2:
		return Num(g.floatLit(64))
	case 3:
		return g.str()
	case 4:
		a := &Node{K: '['}
		for n := s.W(3, 4, 4, 2, 1); n > 0; n-- {
			a.Kids = append(a.Kids, g.Any(d+1, depth-1))
		}
		return a
	default:
		o := &Node{K: '{'}
		for n := s.W(3, 4, 4, 2, 1); n > 0; n-- {
			var k *Node
			switch {
			case len(o.Keys) > 0 && s.P(g.C.Dup):
				k = o.Keys[0].Clone()
			case s.P(600):
				k = g.quote(pbt.Pick(s, []string{"a", "b", "A", "V", "c", "id", "Kids", "foo", ""}))
			default:
				k = g.str()
			}
			o.Keys = append(o.Keys, k)
			o.Kids = append(o.Kids, g.Any(d+1, depth-1))
		}
		return o
	}
}
