package jg

import (
	"encoding/json"
	"reflect"
	"unicode/utf8"

	"verif/harness/pbt"
)

// Node is a JSON value of a generated document.
type Node struct {
	K    byte   // 'n' null, 't' bool, '#' number, '"' string, '[' array, '{' object
	Lit  string // literal text of scalars (strings with quotes)
	Str  string // decoded text of strings
	Keys []*Node
	Kids []*Node
	// Set by the printer.
	Pos, End int
	// ST is the struct type the object is decoded into, if any.
	ST reflect.Type
	// Raw marks a value handed over as raw text to an unmarshaler.
	Raw bool
}

// Walk visits all values (not keys).
func (n *Node) Walk(f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		k.Walk(f)
	}
}

// Count returns the number of values.
func (n *Node) Count() int {
	c := 0
	n.Walk(func(*Node) { c++ })
	return c
}

// Depth returns the nesting depth.
func (n *Node) Depth() int {
	d := 0
	for _, k := range n.Kids {
		if x := k.Depth(); x > d {
			d = x
		}
	}
	return d + 1
}

// Pumpable lists the ways from an object to one within it that is decoded into
// the same struct type: the outer one and the positions on the way.
func (n *Node) Pumpable() (outer []*Node, ways [][]int) {
	type open struct {
		n     *Node
		depth int
	}
	var path []int
	var objs []open
	var walk func(x *Node)
	walk = func(x *Node) {
		if x.ST != nil {
			for _, o := range objs {
				if o.n.ST == x.ST {
					outer = append(outer, o.n)
					ways = append(ways, append([]int(nil), path[o.depth:]...))
				}
			}
			objs = append(objs, open{x, len(path)})
			defer func() { objs = objs[:len(objs)-1] }()
		}
		for i, k := range x.Kids {
			path = append(path, i)
			walk(k)
			path = path[:len(path)-1]
		}
	}
	walk(n)
	return outer, ways
}

// Pump repeats what is between outer and the object at the end of the way n
// times, leaving outer in its place. Copies are without the other parts of more
// than 12 values.
func (n *Node) Pump(way []int, times int) {
	inner := n
	for _, i := range way {
		inner = inner.Kids[i]
	}
	tmpl := n.Clone()
	c := tmpl
	for _, i := range way {
		for j, k := range c.Kids {
			if j != i && k.Count() > 12 {
				c.Kids[j] = Null()
			}
		}
		c = c.Kids[i]
	}
	cur := inner.Clone()
	for ; times > 0; times-- {
		next := tmpl.Clone()
		at := next
		for _, i := range way[:len(way)-1] {
			at = at.Kids[i]
		}
		at.Kids[way[len(way)-1]] = cur
		cur = next
	}
	*n = *cur
}

// Clone copies the tree.
func (n *Node) Clone() *Node {
	if n == nil {
		return nil
	}
	c := *n
	c.Keys = nil
	c.Kids = nil
	for _, k := range n.Keys {
		c.Keys = append(c.Keys, k.Clone())
	}
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return &c
}

// WS inserts whitespace; nil prints compactly.
type WS func() string

// Print renders the document and sets the positions of all nodes.
func Print(n *Node, ws WS) []byte {
	if ws == nil {
		ws = func() string { return "" }
	}
	b := []byte(ws())
	b = pr(b, n, ws)
	return append(b, ws()...)
}

func pr(b []byte, n *Node, ws WS) []byte {
	n.Pos = len(b)
	switch n.K {
	case '[':
		b = append(b, '[')
		b = append(b, ws()...)
		for i, k := range n.Kids {
			if i > 0 {
				b = append(b, ',')
				b = append(b, ws()...)
			}
			b = pr(b, k, ws)
			b = append(b, ws()...)
		}
		b = append(b, ']')
	case '{':
		b = append(b, '{')
		b = append(b, ws()...)
		for i, k := range n.Kids {
			if i > 0 {
				b = append(b, ',')
				b = append(b, ws()...)
			}
			b = pr(b, n.Keys[i], ws)
			b = append(b, ws()...)
			b = append(b, ':')
			b = append(b, ws()...)
			b = pr(b, k, ws)
			b = append(b, ws()...)
		}
		b = append(b, '}')
	default:
		b = append(b, n.Lit...)
	}
	n.End = len(b)
	return b
}

// RandWS returns a whitespace source of the given style (0: none).
func RandWS(s *pbt.Src, style int, n *Node) WS {
	if style != 0 && n.Count() > 500 {
		s = s.Sub()
	}
	switch style {
	case 0:
		return nil
	case 1:
		return func() string {
			if s.P(150) {
				return pbt.Pick(s, []string{" ", "\n", "\t", "\r\n", "  "})
			}
			return ""
		}
	default:
		return func() string {
			if s.P(600) {
				n := s.Range(1, 10)
				b := make([]byte, n)
				for i := range b {
					b[i] = " \n\t\r"[s.Intn(4)]
				}
				return string(b)
			}
			return ""
		}
	}
}

func Null() *Node          { return &Node{K: 'n', Lit: "null"} }
func Num(lit string) *Node { return &Node{K: '#', Lit: lit} }
func Bool(v bool) *Node {
	if v {
		return &Node{K: 't', Lit: "true"}
	}
	return &Node{K: 't', Lit: "false"}
}
func Arr(kids ...*Node) *Node { return &Node{K: '[', Kids: kids} }

// StrLit makes a string node from its literal.
func StrLit(lit string) *Node {
	var s string
	if err := json.Unmarshal([]byte(lit), &s); err != nil {
		panic("bad string literal " + lit)
	}
	return &Node{K: '"', Lit: lit, Str: s}
}

// Quote makes a string node for text with minimal escaping.
func Quote(text string) *Node {
	return &Node{K: '"', Lit: quoteWith(nil, text, 0, 0), Str: text}
}

// QuoteEsc makes a string node for text, escaping characters with probability p.
func QuoteEsc(s *pbt.Src, text string, p int) *Node {
	return &Node{K: '"', Lit: quoteWith(s, text, p, 0), Str: text}
}

// QuoteLate makes a string node for text, escaping characters with probability
// p beginning at byte from.
func QuoteLate(s *pbt.Src, text string, p, from int) *Node {
	return &Node{K: '"', Lit: quoteWith(s, text, p, from), Str: text}
}

const hexLo, hexUp = "0123456789abcdef", "0123456789ABCDEF"

func u4(s *pbt.Src, r rune) string {
	d := hexLo
	b := []byte{'\\', 'u', 0, 0, 0, 0}
	for i := 0; i < 4; i++ {
		if s != nil {
			d = hexLo
			if s.P(300) {
				d = hexUp
			}
		}
		b[5-i] = d[r>>(4*i)&15]
	}
	return string(b)
}

func quoteWith(s *pbt.Src, text string, p, from int) string {
	b := []byte{'"'}
	for i, r := range text {
		short := ""
		switch r {
		case '"':
			short = `\"`
		case '\\':
			short = `\\`
		case '/':
			short = `\/`
		case '\b':
			short = `\b`
		case '\f':
			short = `\f`
		case '\n':
			short = `\n`
		case '\r':
			short = `\r`
		case '\t':
			short = `\t`
		}
		must := r < 0x20 || r == '"' || r == '\\'
		esc := must || s != nil && i >= from && s.P(p)
		switch {
		case !esc:
			b = utf8.AppendRune(b, r)
		case short != "" && !(s != nil && s.P(300)):
			b = append(b, short...)
		case r >= 0x10000:
			r -= 0x10000
			b = append(b, u4(s, 0xd800+(r>>10)&0x3ff)...)
			b = append(b, u4(s, 0xdc00+r&0x3ff)...)
		default:
			b = append(b, u4(s, r)...)
		}
	}
	return string(append(b, '"'))
}
