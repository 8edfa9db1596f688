// mutate lists the small changes that can be made to a tree, or makes one of them:
//
//	mutate list DIR        one line per change: index file:line function kind what
//	mutate apply DIR N...  makes changes N in DIR
//
// It is used to find changes that build, pass the tests, and are not reported.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type change struct {
	file       string
	line       int
	fn         string
	kind       string
	start, end int
	text       string
	old        string
}

func main() {
	dir := os.Args[2]
	var files []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && fi.Size() < 200000 && !strings.Contains(p, "debug") && !strings.Contains(p, "/.git/") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	var all []change
	src := map[string][]byte{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		src[f] = b
		all = append(all, changes(f, b)...)
	}
	switch os.Args[1] {
	case "list":
		for i, c := range all {
			rel, _ := filepath.Rel(dir, c.file)
			fmt.Printf("%d\t%s:%d\t%s\t%s\t%q -> %q\n", i, rel, c.line, c.fn, c.kind, clip(c.old), clip(c.text))
		}
	case "apply":
		for _, a := range os.Args[3:] {
			n, _ := strconv.Atoi(a)
			c := all[n]
			b := src[c.file]
			out := string(b[:c.start]) + c.text + string(b[c.end:])
			if err := os.WriteFile(c.file, []byte(out), 0o644); err != nil {
				panic(err)
			}
		}
	}
}

func clip(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 90 {
		s = s[:90]
	}
	return s
}

func changes(file string, src []byte) []change {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	var out []change
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		name := ""
		if ok {
			if fd.Body == nil {
				continue
			}
			name = fd.Name.Name
			if fd.Recv != nil {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				name = t.(*ast.Ident).Name + "." + name
			}
		} else if gd, ok := d.(*ast.GenDecl); ok && (gd.Tok == token.VAR || gd.Tok == token.CONST) {
			name = "var"
		} else {
			continue
		}
		add := func(kind string, s, e token.Pos, text string) {
			o := string(src[off(s):off(e)])
			out = append(out, change{file, fset.Position(s).Line, name, kind, off(s), off(e), text, o})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				var to []string
				switch n.Op {
				case token.ADD:
					to = []string{"-"}
				case token.SUB:
					to = []string{"+"}
				case token.MUL:
					to = []string{"/"}
				case token.QUO:
					to = []string{"*"}
				case token.REM:
					to = []string{"*"}
				case token.LSS:
					to = []string{"<=", ">"}
				case token.LEQ:
					to = []string{"<"}
				case token.GTR:
					to = []string{">=", "<"}
				case token.GEQ:
					to = []string{">"}
				case token.EQL:
					to = []string{"!="}
				case token.NEQ:
					to = []string{"=="}
				case token.LAND:
					to = []string{"||"}
				case token.LOR:
					to = []string{"&&"}
				case token.SHL:
					to = []string{">>"}
				case token.SHR:
					to = []string{"<<"}
				case token.AND:
					to = []string{"|"}
				case token.OR:
					to = []string{"&"}
				}
				for _, t := range to {
					add("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					add("left", n.Pos(), n.End(), "("+txt(n.X)+")")
					add("right", n.Pos(), n.End(), "("+txt(n.Y)+")")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						add("const", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							add("const", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				case token.FLOAT:
					v, err := strconv.ParseFloat(n.Value, 64)
					if err == nil {
						add("const", n.Pos(), n.End(), fmt.Sprintf("%g", v+1.5))
					}
				case token.STRING:
					if v, err := strconv.Unquote(n.Value); err == nil && v != "" {
						add("string", n.Pos(), n.End(), strconv.Quote(v[:len(v)-1]))
						if len(v) > 2 {
							add("string", n.Pos(), n.End(), strconv.Quote(v[1:]))
						}
					}
				}
			case *ast.IfStmt:
				add("negate", n.Cond.Pos(), n.Cond.End(), "!("+txt(n.Cond)+")")
				add("never", n.Cond.Pos(), n.Cond.End(), "false && ("+txt(n.Cond)+")")
				add("always", n.Cond.Pos(), n.Cond.End(), "true || ("+txt(n.Cond)+")")
			case *ast.ExprStmt:
				add("delete", n.Pos(), n.End(), "")
			case *ast.IncDecStmt:
				add("delete", n.Pos(), n.End(), "")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					add("delete", n.Pos(), n.End(), "")
				}
				if n.Tok == token.ADD_ASSIGN {
					add("op", n.TokPos, n.TokPos+2, "-=")
					add("op", n.TokPos, n.TokPos+2, "=")
				}
			case *ast.BranchStmt:
				switch n.Tok {
				case token.CONTINUE:
					add("branch", n.Pos(), n.End(), "break")
					add("delete", n.Pos(), n.End(), "")
				case token.BREAK:
					add("branch", n.Pos(), n.End(), "continue")
					add("delete", n.Pos(), n.End(), "")
				}
			case *ast.DeferStmt:
				add("delete", n.Pos(), n.End(), "")
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					x, y := n.Args[i], n.Args[i+1]
					add("swap", x.Pos(), y.End(), txt(y)+", "+txt(x))
				}
			case *ast.CompositeLit:
				for _, e := range n.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						end := off(kv.End())
						if end < len(src) && src[end] == ',' {
							add("field", kv.Pos(), kv.End()+1, "")
						}
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT || n.Op == token.SUB {
					add("unary", n.Pos(), n.End(), txt(n.X))
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					add("slice", n.Low.Pos(), n.Low.End(), "")
				}
				if n.High != nil && n.Max == nil {
					add("slice", n.High.Pos(), n.High.End(), "")
				}
			case *ast.ReturnStmt:
				if len(n.Results) > 0 {
					l := n.Results[len(n.Results)-1]
					if id, ok := l.(*ast.Ident); ok && id.Name == "err" {
						add("noerr", l.Pos(), l.End(), "nil")
					}
				}
			case *ast.Ident:
				if n.Name == "true" || n.Name == "false" {
					t := "true"
					if n.Name == "true" {
						t = "false"
					}
					add("bool", n.Pos(), n.End(), t)
				}
			}
			return true
		})
	}
	return out
}
