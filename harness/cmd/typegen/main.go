// typegen writes Go files registering randomly composed destination types.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/pbt"
)

// ty is a generated type expression: t for the decoder, r for encoding/json.
type ty struct{ t, r string }

func same(s string) ty { return ty{s, s} }
func (a ty) wrap(pre string) ty {
	return ty{pre + a.t, pre + a.r}
}

var scalars = []string{
	"bool", "string", "int", "int8", "int16", "int32", "int64",
	"uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64",
}
var named = []string{
	"sp.NStr", "sp.NInt", "sp.NI8", "sp.NI16", "sp.NU8", "sp.NU64", "sp.NF32", "sp.NF64",
	"sp.NBool", "sp.NSl", "sp.NMap", "sp.NSS", "sp.NEmp",
}
var unms = []string{
	"sp.UJ", "sp.UJStr", "sp.UJInt", "sp.UJBool", "sp.UJF", "sp.UJSlice", "sp.UJMap", "sp.UJEmpty", "sp.UJArr",
	"sp.UBoth", "sp.UJPtrs", "sp.UJU8", "sp.UT", "sp.UTStr", "sp.UTInt", "sp.UTI8", "sp.UTBool", "sp.UTF", "sp.UTSlice",
	"sp.UTEmpty", "sp.UTMap", "sp.UTArr", "json.RawMessage", "time.Time", "big.Int", "net.IP",
}
var keys = []string{
	"string", "string", "string", "sp.NStr", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32",
	"uint64", "sp.NInt", "sp.NU8", "sp.KT", "sp.KTStr", "sp.KTInt", "sp.KTArr",
}
var recs = []string{
	"sp.RPtr", "sp.RPtrFirst", "sp.RSlice", "sp.RSliceFirst", "sp.RMap", "sp.RMapFirst", "sp.RMix", "sp.RPtrSlice",
	"sp.RPtrMap", "sp.RMapSlice", "sp.RSliceMap", "sp.RSliceSlice", "sp.RArr", "sp.RArrMap", "sp.RArrSlice", "sp.RNest",
	"sp.RPP", "sp.RPSl", "sp.RPMap", "sp.RA", "sp.RB", "sp.RC", "sp.RD", "sp.RSib", "sp.RSibRec", "sp.RIntMap",
	"sp.RTextKey", "sp.RAny", "sp.RUnm", "sp.RStrTag", "sp.ROuter", "sp.RSelfU", "sp.RTwo", "sp.RBig", "sp.RMany",
	"sp.RLinks", "sp.RTag", "sp.RDeep3",
}

var taggable = map[string]bool{}

func init() {
	for _, s := range scalars {
		taggable[s] = true
	}
	for _, s := range []string{"sp.NStr", "sp.NInt", "sp.NI8", "sp.NU8", "sp.NF64", "sp.NBool"} {
		taggable[s] = true
	}
}

// bads are types no destination may hold.
var bads = []string{
	"chan int", "<-chan string", "func()", "func(int) error", "complex64", "complex128", "uintptr", "unsafe.Pointer", "error", "fmt.Stringer",
	"io.Reader", "json.Unmarshaler", "encoding.TextUnmarshaler", "interface{ M() }", "map[bool]int", "map[float64]string",
	"map[[2]int]string", "map[struct{ A int }]int", "map[any]int", "map[*int]bool", "map[complex64]int", "map[uintptr]int", "map[sp.UJEmpty]int",
	"map[error]int", "map[sp.NBool]int", "map[sp.NF64][]int", "map[chan int]int", "map[sp.UJArr]string",
	"sp.BadSl", "sp.BadMap", "sp.BadPtr", "sp.BadArr", "sp.BadStruct", "sp.BadSlSl", "sp.BadMapSl", "sp.BadPtrSl", "sp.BadMutA", "sp.BadMutB", "sp.BadStSl",
	"[]chan int", "[3]func()", "*complex128", "map[string]error", "struct{ A, B int; C chan int }", "struct{ A int `json:\",string\"`; C func() }",
}

// placeholder stands for a type of bads while composing.
const placeholder = "BAD"

type gen struct {
	s *pbt.Src
	// plant makes placeholders.
	plant bool
	// strings puts the string option onto any field.
	strings bool
}

func (g *gen) typ(d int) ty {
	s := g.s
	if d <= 0 {
		return g.leaf()
	}
	switch s.W(22, 16, 10, 16, 24, 12) {
	case 0:
		return g.leaf()
	case 1:
		return g.typ(d - 1).wrap("[]")
	case 2:
		n := pbt.Pick(s, []int{0, 1, 2, 2, 3, 4, 7})
		return g.typ(d - 1).wrap(fmt.Sprintf("[%d]", n))
	case 3:
		return g.typ(d - 1).wrap("map[" + pbt.Pick(s, keys) + "]")
	case 4:
		return g.strct(d - 1)
	default:
		return g.typ(d - 1).wrap("*")
	}
}

func (g *gen) leaf() ty {
	s := g.s
	if g.plant && s.P(250) {
		return same(placeholder)
	}
	switch s.W(50, 12, 14, 6, 4, 8, 4) {
	case 0:
		return same(pbt.Pick(s, scalars))
	case 1:
		return same(pbt.Pick(s, named))
	case 2:
		return same(pbt.Pick(s, unms))
	case 3:
		return same("any")
	case 4:
		return same("struct{}")
	case 5:
		return same(pbt.Pick(s, recs))
	default:
		return ty{"jd.Number", "json.Number"}
	}
}

var fieldNames = []string{
	"A", "B", "C", "D", "Foo", "Bar", "BarBaz", "ID", "Name", "Value", "X", "Y", "Kk", "Ss", "LongFieldNameHere", "F1",
	"F2", "Größe", "Ünï", "KSs", "Data", "Type",
}
var tagNames = []string{
	"a", "id", "foo", "foo_bar", "kebab-case", "dotted.name", "größe", "k", "s", "Kelvin", "x/y", "名前", "$", "UPPER",
	"mixedCase", "with space", "long_tag_name_for_matching", "0", "-", "п", "é",
}

func (g *gen) strct(d int) ty {
	s := g.s
	n := pbt.Pick(s, []int{0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 9})
	var tb, rb strings.Builder
	tb.WriteString("struct{")
	rb.WriteString("struct{")
	used := map[string]bool{}
	goUsed := map[string]bool{}
	for i := 0; i < n; i++ {
		f := ""
		for f == "" || goUsed[f] || used[f] {
			f = pbt.Pick(s, fieldNames)
			if s.P(200) {
				f = fmt.Sprintf("%s%d", f, s.Intn(30))
			}
		}
		goUsed[f] = true
		if s.P(40) { // unexported
			u := "u" + f
			fmt.Fprintf(&tb, "%s int32;", u)
			fmt.Fprintf(&rb, "%s int32;", u)
		}
		t := g.typ(d - s.Intn(2))
		tag := ""
		name := f
		switch s.W(45, 35, 8, 4, 3) {
		case 1:
			for k := 0; k < 20; k++ {
				if c := pbt.Pick(s, tagNames); !used[c] {
					name = c
					break
				}
			}
			tag = name
			if name == "-" {
				tag = "-,"
			}
		case 2:
			tag = pbt.Pick(s, []string{",omitempty", ",", "," + "foo"})
		case 3:
			tag = "-"
			name = ""
		case 4:
			name, tag = "", "-" // second ignored variety
		}
		if used[name] && name != "" {
			name, tag = f, ""
		}
		if i > 0 && s.P(30) { // a name twice
			for n := range used {
				if name == "" || n != "" && n < name {
					name = n
				}
			}
			if name != "" {
				if tag = name; name == "-" {
					tag = "-,"
				}
			}
		}
		used[name] = true
		base := t.t
		// The option is ignored where it does not apply.
		ignored := strings.HasPrefix(base, "[") || strings.HasPrefix(base, "map[") || strings.HasPrefix(base, "struct{") || base == "any" ||
			strings.HasPrefix(base, "**") || base == "sp.NSl" || base == "sp.NMap"
		if g.strings {
			ignored = !strings.HasSuffix(base, placeholder) && s.P(500)
		}
		if tag != "-" && ignored && s.P(120) || tag != "-" && (taggable[base] && s.P(150) || strings.HasPrefix(base, "*") && taggable[base[1:]] && s.P(300)) {
			if name == f {
				tag = ""
			}
			switch {
			case tag == "-,":
				tag = "-,string"
			case s.P(300):
				tag += ",omitempty,string"
			case s.P(200):
				tag += ",string,omitempty"
			default:
				tag += ",string"
			}
		}
		if tag != "" {
			fmt.Fprintf(&tb, "%s %s `json:\"%s\"`;", f, t.t, tag)
			fmt.Fprintf(&rb, "%s %s `json:\"%s\"`;", f, t.r, tag)
		} else {
			fmt.Fprintf(&tb, "%s %s;", f, t.t)
			fmt.Fprintf(&rb, "%s %s;", f, t.r)
		}
	}
	tb.WriteString("}")
	rb.WriteString("}")
	return ty{tb.String(), rb.String()}
}

func main() {
	seed := flag.Uint64("seed", 1, "")
	n := flag.Int("n", 200, "number of pointer-rooted types")
	nb := flag.Int("bad", 160, "number of types that may be unsupported")
	nd := flag.Int("direct", 20, "number of directly rooted types")
	out := flag.String("out", "", "directory")
	flag.Parse()
	emit := func(pkg string, from, to int, direct, bad bool) {
		var b strings.Builder
		fmt.Fprintf(&b, "// Code generated by typegen -seed %d. DO NOT EDIT.\n\npackage %s\n\n", *seed, pkg)
		b.WriteString("import (\n\t\"encoding\"\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"io\"\n\t\"math/big\"\n\t\"net\"\n\t\"time\"\n\t\"unsafe\"\n\n\tjd \"github.com/romshark/jscan-experimental-decoder\"\n\t\"verif/harness/hv\"\n\t\"verif/harness/sp\"\n)\n\n")
		b.WriteString("var (\n\t_ encoding.TextUnmarshaler\n\t_ fmt.Stringer\n\t_ io.Reader\n\t_ unsafe.Pointer\n\t_ json.RawMessage\n\t_ big.Int\n\t_ net.IP\n\t_ time.Time\n\t_ jd.Number\n\t_ sp.UJ\n)\n\n")
		var reg strings.Builder
		for i := from; i < to; i++ {
			g := &gen{s: pbt.New(pbt.Hash(*seed, uint64(i)))}
			g.plant = bad && i%3 != 0
			g.strings = bad
			t := g.typ(3 + g.s.Intn(2))
			for len(t.t) < 8 || len(t.t) > 900 || g.plant && !strings.Contains(t.t, placeholder) {
				t = g.typ(3)
			}
			if g.plant {
				t.t = strings.Replace(t.t, placeholder, pbt.Pick(g.s, bads), 1)
				t.t = strings.ReplaceAll(t.t, placeholder, "int")
				t.r = t.t
			}
			ptr := "*"
			if direct {
				ptr = ""
			}
			fmt.Fprintf(&b, "type G%d %s\n\n", i, t.t)
			if bad {
				fmt.Fprintf(&reg, "\thv.B[%sG%d](\"%sG%d\")\n", ptr, i, ptr, i)
			} else if t.t != t.r {
				fmt.Fprintf(&b, "type G%dR %s\n\n", i, t.r)
				fmt.Fprintf(&reg, "\thv.Reg[%sG%d, %sG%dR](\"%sG%d\")\n", ptr, i, ptr, i, ptr, i)
			} else {
				fmt.Fprintf(&reg, "\thv.D[%sG%d](\"%sG%d\")\n", ptr, i, ptr, i)
			}
		}
		fmt.Fprintf(&b, "func init() {\n%s}\n", reg.String())
		dir := filepath.Join(*out, pkg)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, "gen.go"), []byte(b.String()), 0o644); err != nil {
			panic(err)
		}
	}
	emit("gptr", 0, *n, false, false)
	emit("gdir", 100000, 100000+*nd, true, false)
	emit("gbad", 200000, 200000+*nb, false, true)
}
