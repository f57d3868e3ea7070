// Command mutate writes a Go package with many small source mutations, all
// compiled in and one of them switched on by the environment variable JV_MUT.
// It is used to look for changes the checks miss (see run.py); no check uses it.
//
// usage: mutate OUTDIR DIR   (in the module of DIR)
//
// writes OUTDIR/<file>.go for every non-test file of DIR, OUTDIR/zmut.go, and
// prints the mutations, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	ID       int
	File     string
	Line     int
	Func     string
	Op       string
	Old, New string
}

type ins struct {
	off  int
	pri  int // order at equal offsets
	text string
}

func main() {
	outDir, dir := os.Args[1], os.Args[2]
	fs := token.NewFileSet()
	names, _ := filepath.Glob(dir + "/*.go")
	var files []*ast.File
	var srcs [][]byte
	var paths []string
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, _ := os.ReadFile(n)
		f, err := parser.ParseFile(fs, n, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		files, srcs, paths = append(files, f), append(srcs, src), append(paths, n)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: importer.ForCompiler(fs, "source", nil), Error: func(err error) { fmt.Fprintln(os.Stderr, err) }}
	_, _ = conf.Check("p", fs, files, info)
	id := 0
	base, _ := strconv.Atoi(os.Getenv("BASE"))
	id = base
	// Only one of MOD mutations is compiled in, if set.
	mod, rem := 1, 0
	fmt.Sscanf(os.Getenv("MOD"), "%d/%d", &rem, &mod)
	for fi, f := range files {
		src := srcs[fi]
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		var all []ins
		fn := ""
		depth := 0
		rec := func(x ast.Node, op, neu string) int {
			id++
			b, _ := json.Marshal(edit{id, paths[fi], fs.Position(x.Pos()).Line, fn, op, text(x), neu})
			fmt.Println(string(b))
			return id
		}
		wrap := func(from, to token.Pos, a, b string) {
			if id%mod != rem {
				return
			}
			depth++
			all = append(all, ins{off(from), depth, a}, ins{off(to), -depth, b})
		}
		var stmts func(l []ast.Stmt)
		bad := map[ast.Node]bool{} // not to be changed
		swap := map[token.Token]string{
			token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==",
			token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.MUL: "+", token.SHL: ">>", token.SHR: "<<", token.AND: "|", token.OR: "&",
		}
		stmts = func(l []ast.Stmt) {
			for _, x := range l {
				switch x := x.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
					if strings.HasPrefix(text(x), "panic(") {
						continue
					}
					i := rec(x, "del", "")
					wrap(x.Pos(), x.End(), fmt.Sprintf("if verifMut != %d { ", i), " }")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						i := rec(x, "del", "")
						wrap(x.Pos(), x.End(), fmt.Sprintf("if verifMut != %d { ", i), " }")
						if len(x.Lhs) > 1 && len(x.Rhs) == len(x.Lhs) {
							for k := range x.Lhs {
								// the assignment of one variable only
								if id, ok := x.Lhs[k].(*ast.Ident); ok && id.Name != "_" {
									i := rec(x, "part", text(x.Lhs[k]))
									wrap(x.Rhs[k].Pos(), x.Rhs[k].End(), fmt.Sprintf("verifSel2(verifMut == %d, %s, ", i, text(x.Lhs[k])), ")")
								}
							}
						}
					}
				case *ast.BranchStmt:
					switch {
					case x.Tok == token.CONTINUE && x.Label == nil:
						i := rec(x, "branch", "break")
						wrap(x.Pos(), x.End(), fmt.Sprintf("if verifMut == %d { break }; ", i), "")
					case x.Tok == token.BREAK && x.Label == nil, x.Tok == token.GOTO:
						i := rec(x, "branch", "")
						wrap(x.Pos(), x.End(), fmt.Sprintf("if verifMut != %d { ", i), " }")
					}
				}
			}
		}
		hasLabel := func(l []ast.Stmt) (r bool) {
			for _, x := range l {
				ast.Inspect(x, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.LabeledStmt:
						r = true
					case *ast.BranchStmt:
						r = r || n.Tok == token.FALLTHROUGH
					}
					return true
				})
			}
			return r
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "String" && fd.Recv != nil && text(fd.Recv.List[0].Type) == "ExpectType" {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				if x != nil && bad[x] {
					return false
				}
				switch x := x.(type) {
				case *ast.GenDecl:
					return x.Tok != token.CONST && x.Tok != token.TYPE
				case *ast.ArrayType:
					return false
				case *ast.BinaryExpr:
					s, ok := swap[x.Op]
					if tv := info.Types[x]; !ok || tv.Value != nil {
						return tv.Value == nil
					}
					i := rec(x, "binop", s)
					if x.Op == token.LAND || x.Op == token.LOR || x.Op == token.LSS || x.Op == token.LEQ || x.Op == token.GTR || x.Op == token.GEQ || x.Op == token.EQL || x.Op == token.NEQ {
						wrap(x.Pos(), x.End(), fmt.Sprintf("(verifMut != %d && (", i), fmt.Sprintf(") || verifMut == %d && (%s %s %s))", i, text(x.X), s, text(x.Y)))
					} else if b, ok := info.Types[x].Type.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						wrap(x.Pos(), x.End(), fmt.Sprintf("verifSel[%s](verifMut == %d, ", b.Name(), i), fmt.Sprintf(", %s %s %s)", text(x.X), s, text(x.Y)))
					}
				case *ast.IfStmt:
					t := rec(x.Cond, "true", "true")
					wrap(x.Cond.Pos(), x.Cond.End(), fmt.Sprintf("(verifMut == %d || (", t), "))")
					t = rec(x.Cond, "false", "false")
					wrap(x.Cond.Pos(), x.Cond.End(), "((", fmt.Sprintf(") && verifMut != %d)", t))
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						b, ok := info.Types[x].Type.(*types.Basic)
						if err != nil || !ok || b.Info()&types.IsUntyped != 0 || b.Info()&types.IsInteger == 0 {
							return true
						}
						i := rec(x, "int", fmt.Sprint(v+1))
						wrap(x.Pos(), x.End(), fmt.Sprintf("verifSel[%s](verifMut == %d, ", b.Name(), i), fmt.Sprintf(", %d)", v+1))
						if v > 0 {
							i = rec(x, "int", fmt.Sprint(v-1))
							wrap(x.Pos(), x.End(), fmt.Sprintf("verifSel[%s](verifMut == %d, ", b.Name(), i), fmt.Sprintf(", %d)", v-1))
						}
					}
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						l := x.Results[len(x.Results)-1]
						if t := text(l); len(t) > 2 && t[:3] == "Err" || t == "err" {
							i := rec(l, "reterr", "nil")
							wrap(l.Pos(), l.End(), fmt.Sprintf("verifSel[error](verifMut == %d, ", i), ", nil)")
						} else if t == "true" || t == "false" {
							i := rec(l, "ret", "!"+t)
							wrap(l.Pos(), l.End(), "(", fmt.Sprintf(" != (verifMut == %d))", i))
						}
					}
				case *ast.TypeSwitchStmt:
					for _, c := range x.Body.List {
						for _, e := range c.(*ast.CaseClause).List {
							bad[e] = true
						}
					}
				case *ast.CaseClause:
					ts := len(x.List) > 0 && bad[x.List[0]]
					if len(x.List) > 1 && !ts {
						for i, e := range x.List {
							o := x.List[(i+1)%len(x.List)]
							id := rec(e, "decase", text(o))
							tn := ""
							if b, ok := info.Types[e].Type.(*types.Basic); ok {
								tn = "[" + b.Name() + "]"
							}
							wrap(e.Pos(), e.End(), fmt.Sprintf("verifSel%s(verifMut == %d, ", tn, id), fmt.Sprintf(", %s)", text(o)))
						}
					}
					for _, e := range x.List {
						if b, ok := info.Types[e].Type.(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && !ts {
							t := rec(e, "true", "true")
							wrap(e.Pos(), e.End(), fmt.Sprintf("(verifMut == %d || (", t), "))")
							t = rec(e, "false", "false")
							wrap(e.Pos(), e.End(), "((", fmt.Sprintf(") && verifMut != %d)", t))
						}
					}
					for _, e := range x.List {
						bad[e] = true
					}
					if n := len(x.Body); n > 0 && !hasLabel(x.Body) {
						if _, ok := x.Body[n-1].(*ast.ReturnStmt); !ok || fd.Type.Results == nil || true {
							i := rec(x.Body[0], "nobody", "")
							if ok {
								// keep the return for the analysis of terminating statements
								def := false
								for _, y := range x.Body {
									a, ok := y.(*ast.AssignStmt)
									_, ok2 := y.(*ast.DeclStmt)
									def = def || ok && a.Tok == token.DEFINE || ok2
								}
								if n > 1 && !def {
									wrap(x.Body[0].Pos(), x.Body[n-2].End(), fmt.Sprintf("if verifMut != %d { ", i), " }")
								}
							} else {
								wrap(x.Body[0].Pos(), x.Body[n-1].End(), fmt.Sprintf("if verifMut != %d { ", i), " }")
							}
						}
					}
					stmts(x.Body)
				}
				return true
			})
		}
		// Inner insertions belong inside outer ones at equal offsets.
		sort.SliceStable(all, func(i, j int) bool {
			if all[i].off != all[j].off {
				return all[i].off < all[j].off
			}
			return all[i].pri < all[j].pri
		})
		var out strings.Builder
		last := 0
		for _, x := range all {
			out.Write(src[last:x.off])
			out.WriteString(x.text)
			last = x.off
		}
		out.Write(src[last:])
		os.WriteFile(filepath.Join(outDir, filepath.Base(paths[fi])), []byte(out.String()), 0o644)
	}
	os.WriteFile(filepath.Join(outDir, "zmut.go"), []byte(fmt.Sprintf(`package %s

import (
	"os"
	"strconv"
)

var verifMut = func() int { n, _ := strconv.Atoi(os.Getenv("JV_MUT")); return n }()

func verifSel[T any](c bool, a, b T) T {
	if c {
		return b
	}
	return a
}

func verifSel2[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}
`, files[0].Name.Name)), 0o644)
}
