// refac rewrites a copy of the repository without changing its behaviour, to test that the checks stay quiet.
// usage: refac DIR TRANSFORMATION...   (development tool; no check uses it)
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type ctx struct {
	p     *packages.Package
	f     *ast.File
	n     int
	extra []string
	skip  int // apply only sites with index%mod==rem
	count int
}

var mod, rem = 1, 0

func (c *ctx) take() bool {
	c.count++
	return c.count%mod == rem%mod
}

func (c *ctx) typ(e ast.Expr) types.Type { return c.p.TypesInfo.TypeOf(e) }

func id(s string) *ast.Ident { return ast.NewIdent(s) }

// pure: no calls with effects, cheap to reorder; only operators, identifiers, selectors, literals, len
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if i, is := n.Fun.(*ast.Ident); !is || i.Name != "len" && i.Name != "int" && i.Name != "string" && i.Name != "float64" && i.Name != "uint" && i.Name != "byte" {
				ok = false
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND || n.Op == token.ARROW {
				ok = false
			}
		case *ast.FuncLit, *ast.CompositeLit, *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.TypeAssertExpr:
			ok = false
		}
		return ok
	})
	return ok
}

func isCallOrVar(e ast.Expr) bool { _, ok := e.(*ast.CallExpr); return ok }

func neg(e ast.Expr) ast.Expr {
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return u.X
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Label == nil && (s.Tok == token.CONTINUE || s.Tok == token.BREAK)
	}
	return false
}

func (c *ctx) fresh(p string) string { c.n++; return fmt.Sprintf("%s%d", p, c.n) }

// blocks calls fn for every statement list
func (c *ctx) lists(fn func(list []ast.Stmt) []ast.Stmt) {
	ast.Inspect(c.f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			n.List = fn(n.List)
		case *ast.CaseClause:
			n.Body = fn(n.Body)
		}
		return true
	})
}

func (c *ctx) funcs(fn func(d *ast.FuncDecl)) {
	for _, d := range c.f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			fn(fd)
		}
	}
}

func assigned(body ast.Node, obj types.Object, info *types.Info) bool {
	res := false
	ast.Inspect(body, func(n ast.Node) bool {
		mark := func(e ast.Expr) {
			for {
				switch x := e.(type) {
				case *ast.ParenExpr:
					e = x.X
					continue
				case *ast.Ident:
					if info.ObjectOf(x) == obj {
						res = true
					}
				}
				return
			}
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				mark(l)
			}
		case *ast.IncDecStmt:
			mark(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				mark(n.X)
			}
		case *ast.RangeStmt:
			if n.Key != nil {
				mark(n.Key)
			}
			if n.Value != nil {
				mark(n.Value)
			}
		}
		return true
	})
	return res
}

func hasCall(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			r = true
		}
		return true
	})
	return r
}

func (c *ctx) q(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == c.p.Types {
			return ""
		}
		for _, im := range c.f.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	if strings.Contains(s, "untyped") || strings.Contains(s, "invalid") {
		ok = false
	}
	return s, ok
}

var trans = map[string]func(c *ctx){
	"invert": func(c *ctx) {
		ast.Inspect(c.f, func(n ast.Node) bool {
			if s, ok := n.(*ast.IfStmt); ok && s.Else != nil {
				if b, ok := s.Else.(*ast.BlockStmt); ok && c.take() {
					s.Cond = neg(s.Cond)
					s.Body, s.Else = b, s.Body
				}
			}
			return true
		})
	},
	"elsewrap": func(c *ctx) {
		c.lists(func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				f, ok := s.(*ast.IfStmt)
				if !ok || f.Else != nil || !terminates(f.Body) || i+1 == len(l) {
					continue
				}
				// a function must still end in a terminating statement: the else branch ends as the list did
				if !c.take() {
					continue
				}
				f.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, l[i+1:]...)}
				return l[:i+1]
			}
			return l
		})
	},
	"nocontinue": func(c *ctx) {
		c.lists(func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				f, ok := s.(*ast.IfStmt)
				if !ok || f.Else != nil || f.Init != nil || len(f.Body.List) != 1 || i+1 == len(l) {
					continue
				}
				b, ok := f.Body.List[0].(*ast.BranchStmt)
				if !ok || b.Tok != token.CONTINUE || b.Label != nil || !c.take() {
					continue
				}
				return append(l[:i:i], &ast.IfStmt{Cond: neg(f.Cond), Body: &ast.BlockStmt{List: append([]ast.Stmt{}, l[i+1:]...)}})
			}
			return l
		})
	},
	"rangeidx": func(c *ctx) {
		ast.Inspect(c.f, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				for i, s := range b.List {
					if r, ok := s.(*ast.RangeStmt); ok {
						b.List[i] = c.rangeToIdx(r)
					}
				}
			}
			return true
		})
	},
	"idxrange": func(c *ctx) {
		c.lists(func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				f, ok := s.(*ast.ForStmt)
				if !ok || f.Init == nil || f.Cond == nil || f.Post == nil {
					continue
				}
				a, ok := f.Init.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 {
					continue
				}
				if v, ok := a.Rhs[0].(*ast.BasicLit); !ok || v.Value != "0" {
					continue
				}
				be, ok := f.Cond.(*ast.BinaryExpr)
				if !ok || be.Op != token.LSS {
					continue
				}
				if _, ok := f.Post.(*ast.IncDecStmt); !ok {
					continue
				}
				v := a.Lhs[0].(*ast.Ident)
				if assigned(f.Body, c.p.TypesInfo.ObjectOf(v), c.p.TypesInfo) || !c.take() {
					continue
				}
				// while form
				body := append([]ast.Stmt{}, f.Body.List...)
				hasCont := false
				ast.Inspect(f.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.BranchStmt:
						if n.Tok == token.CONTINUE {
							hasCont = true
						}
					case *ast.FuncLit:
						hasCont = true
					}
					return true
				})
				if hasCont {
					continue
				}
				body = append(body, f.Post)
				l[i] = &ast.BlockStmt{List: []ast.Stmt{f.Init, &ast.ForStmt{Cond: f.Cond, Body: &ast.BlockStmt{List: body}}}}
			}
			return l
		})
	},
	"forbreak": func(c *ctx) {
		ast.Inspect(c.f, func(n ast.Node) bool {
			if f, ok := n.(*ast.ForStmt); ok && f.Cond != nil && c.take() {
				f.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: neg(f.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, f.Body.List...)
				f.Cond = nil
			}
			return true
		})
	},
	"ops": func(c *ctx) {
		astutil.Apply(c.f, nil, func(cu *astutil.Cursor) bool {
			switch n := cu.Node().(type) {
			case *ast.BinaryExpr:
				if !c.take() {
					return true
				}
				flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
				if op, ok := flip[n.Op]; ok {
					n.Op = op
					n.X, n.Y = n.Y, n.X
				} else if n.Op == token.LAND {
					cu.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{Op: token.LOR, X: neg(n.X), Y: neg(n.Y)}}})
				} else if n.Op == token.LOR {
					cu.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{Op: token.LAND, X: neg(n.X), Y: neg(n.Y)}}})
				} else if n.Op == token.ADD || n.Op == token.MUL {
					if b, ok := c.typ(n).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						n.X, n.Y = n.Y, n.X
					}
				}
			case *ast.IncDecStmt:
				if cu.Name() == "Post" || !c.take() {
					return true
				}
				op := token.ADD
				if n.Tok == token.DEC {
					op = token.SUB
				}
				cu.Replace(&ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{n.X}, Rhs: []ast.Expr{&ast.BinaryExpr{Op: op, X: n.X, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
			case *ast.AssignStmt:
				m := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL}
				if op, ok := m[n.Tok]; ok && c.take() {
					n.Tok = token.ASSIGN
					n.Rhs[0] = &ast.BinaryExpr{Op: op, X: n.Lhs[0], Y: &ast.ParenExpr{X: n.Rhs[0]}}
				}
			}
			return true
		})
	},
	"dummy": func(c *ctx) {
		ast.Inspect(c.f, func(n ast.Node) bool {
			if b, ok := n.(*ast.BlockStmt); ok && len(b.List) > 0 {
				if _, isCase := b.List[0].(*ast.CaseClause); isCase {
					return true
				}
				b.List = append([]ast.Stmt{&ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{id("_")}, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}}, b.List...)
			}
			return true
		})
	},
	"vardecl": func(c *ctx) {
		c.lists(func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if ok && a.Tok == token.DEFINE && c.take() {
					all := true
					var decls []ast.Stmt
					for _, lh := range a.Lhs {
						i := lh.(*ast.Ident)
						if i.Name == "_" {
							continue
						}
						o := c.p.TypesInfo.Defs[i]
						if o == nil {
							continue // reused
						}
						t, ok := c.q(o.Type())
						if !ok {
							all = false
							break
						}
						decls = append(decls, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(i.Name)}, Type: id(t)}}}})
					}
					// shadowing: x := x is not the same after the split
					for _, lh := range a.Lhs {
						for _, r := range a.Rhs {
							ast.Inspect(r, func(n ast.Node) bool {
								if x, ok := n.(*ast.Ident); ok && x.Name == lh.(*ast.Ident).Name {
									all = false
								}
								return true
							})
						}
					}
					if all {
						out = append(out, decls...)
						a.Tok = token.ASSIGN
					}
				}
				out = append(out, s)
			}
			return out
		})
	},
	"temps": func(c *ctx) { // calls that are arguments or results get a name
		c.lists(func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				switch s := s.(type) {
				case *ast.ReturnStmt:
					for i, e := range s.Results {
						t := c.typ(e)
						if _, tup := t.(*types.Tuple); tup || t == nil || i > 0 {
							continue
						}
						if b, ok := t.Underlying().(*types.Basic); ok && !isCallOrVar(e) && b.Kind() != types.Bool && b.Kind() != types.String {
							continue
						}
						if b, ok := t.(*types.Basic); ok && (b.Info()&types.IsUntyped != 0 || b.Kind() == types.UntypedNil) {
							continue
						}
						switch e.(type) {
						case *ast.CallExpr, *ast.BinaryExpr, *ast.UnaryExpr:
							if len(s.Results) > 1 {
								others := true
								for _, o := range s.Results[1:] {
									if !pure(o) {
										others = false
									}
								}
								if !others {
									continue
								}
								if _, isCall := e.(*ast.CallExpr); isCall {
									continue
								}
							}
							if !c.take() {
								continue
							}
							n := c.fresh("zzv")
							out = append(out, &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{id(n)}, Rhs: []ast.Expr{e}})
							s.Results[i] = id(n)
						}
					}
				case *ast.ExprStmt:
					if call, ok := s.X.(*ast.CallExpr); ok {
						for i, e := range call.Args {
							if ce, ok := e.(*ast.CallExpr); ok {
								t := c.typ(ce)
								if _, tup := t.(*types.Tuple); tup {
									continue
								}
								if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
									continue
								}
								if c.p.TypesInfo.Types[ce.Fun].IsType() || !c.take() {
									continue
								}
								n := c.fresh("zzv")
								out = append(out, &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{id(n)}, Rhs: []ast.Expr{e}})
								call.Args[i] = id(n)
							}
						}
					}
				case *ast.IfStmt:
					if s.Init == nil && hasCall(s.Cond) && c.take() {
						n := c.fresh("zzc")
						out = append(out, &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{id(n)}, Rhs: []ast.Expr{s.Cond}})
						s.Cond = id(n)
					}
				}
				out = append(out, s)
			}
			return out
		})
	},
	"ifinit": func(c *ctx) { // if err := f(); err != nil  ->  { err := f(); if err != nil }
		c.lists(func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				if f, ok := s.(*ast.IfStmt); ok && f.Init != nil && c.take() {
					in := f.Init
					f.Init = nil
					l[i] = &ast.BlockStmt{List: []ast.Stmt{in, f}}
				}
			}
			return l
		})
	},
	"wrap": func(c *ctx) { // F calls a helper that does the work
		var add []ast.Decl
		c.funcs(func(d *ast.FuncDecl) {
			if d.Name.Name == "init" || d.Type.TypeParams != nil || !c.take() {
				return
			}
			var args []ast.Expr
			ell := token.NoPos
			if d.Type.Params != nil {
				for _, f := range d.Type.Params.List {
					if len(f.Names) == 0 {
						return
					}
					for _, n := range f.Names {
						if n.Name == "_" {
							return
						}
						args = append(args, id(n.Name))
					}
					if _, ok := f.Type.(*ast.Ellipsis); ok {
						ell = 1
					}
				}
			}
			if d.Recv != nil && len(d.Recv.List[0].Names) == 0 {
				return
			}
			name := "zzInner" + d.Name.Name
			in := &ast.FuncDecl{Recv: d.Recv, Name: id(name), Type: d.Type, Body: d.Body}
			var fun ast.Expr = id(name)
			if d.Recv != nil {
				if d.Recv.List[0].Names[0].Name == "_" {
					return
				}
				fun = &ast.SelectorExpr{X: id(d.Recv.List[0].Names[0].Name), Sel: id(name)}
			}
			call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
			if d.Type.Results != nil {
				d.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
			} else {
				d.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
			}
			in.Doc = nil
			add = append(add, in)
		})
		c.f.Decls = append(c.f.Decls, add...)
	},
	"exprhelper": func(c *ctx) { // x := expr  ->  x := helper(free variables)
		c.funcs(func(d *ast.FuncDecl) {
			ast.Inspect(d.Body, func(n ast.Node) bool {
				if _, ok := n.(*ast.FuncLit); ok {
					return false
				}
				a, ok := n.(*ast.AssignStmt)
				if !ok || len(a.Rhs) != 1 {
					return true
				}
				e := a.Rhs[0]
				switch e.(type) {
				case *ast.CallExpr, *ast.BinaryExpr:
				default:
					return true
				}
				t := c.typ(e)
				var rt string
				if tu, ok := t.(*types.Tuple); ok {
					var ps []string
					for i := 0; i < tu.Len(); i++ {
						s, ok := c.q(tu.At(i).Type())
						if !ok {
							return true
						}
						ps = append(ps, s)
					}
					rt = "(" + strings.Join(ps, ", ") + ")"
				} else {
					s, ok := c.q(t)
					if !ok {
						return true
					}
					rt = s
				}
				free := map[string]string{}
				good := true
				ast.Inspect(e, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.FuncLit:
						good = false
					case *ast.UnaryExpr:
						if n.Op == token.AND {
							good = false
						}
					case *ast.CallExpr:
						// append and methods with addressable value receivers
						if i, ok := n.Fun.(*ast.Ident); ok && i.Name == "append" {
							good = false
						}
						if s, ok := n.Fun.(*ast.SelectorExpr); ok {
							if sel := c.p.TypesInfo.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
								_, isPtr := sel.Recv().Underlying().(*types.Pointer)
								sg := sel.Obj().Type().(*types.Signature)
								if sg.Recv() != nil {
									_, rp := sg.Recv().Type().(*types.Pointer)
									if rp && !isPtr {
										good = false
									}
								}
							}
						}
					case *ast.Ident:
						o := c.p.TypesInfo.Uses[n]
						if k, isK := o.(*types.Const); isK && k.Pkg() == c.p.Types && k.Parent() != c.p.Types.Scope() {
							good = false
						}
						v, ok := o.(*types.Var)
						if !ok || v.IsField() || v.Parent() == c.p.Types.Scope() || v.Pkg() != c.p.Types {
							return true
						}
						ts, ok := c.q(v.Type())
						if !ok {
							good = false
						}
						free[n.Name] = ts
					}
					return true
				})
				if !good || len(free) == 0 || !c.take() {
					return true
				}
				var names, ps []string
				for n := range free {
					names = append(names, n)
				}
				sort.Strings(names)
				var args []ast.Expr
				for _, n := range names {
					ps = append(ps, n+" "+free[n])
					args = append(args, id(n))
				}
				h := fmt.Sprintf("zzHelper%s%d", strings.ToUpper(c.tag()), c.count)
				c.extra = append(c.extra, fmt.Sprintf("func %s(%s) %s {\n\treturn %s\n}", h, strings.Join(ps, ", "), rt, c.src(e)))
				a.Rhs[0] = &ast.CallExpr{Fun: id(h), Args: args}
				return true
			})
		})
	},
	"stmthelper": func(c *ctx) { // expression statements in a method body become a helper of their own
		c.funcs(func(d *ast.FuncDecl) {
			ast.Inspect(d.Body, func(n ast.Node) bool {
				if _, ok := n.(*ast.FuncLit); ok {
					return false
				}
				b, ok := n.(*ast.BlockStmt)
				if !ok {
					return true
				}
				for i := 0; i < len(b.List); i++ {
					c.tryExtract(b, i)
				}
				return true
			})
		})
	},
	"fprintf": func(c *ctx) {
		astutil.Apply(c.f, nil, func(cu *astutil.Cursor) bool {
			s, ok := cu.Node().(*ast.ExprStmt)
			if !ok {
				return true
			}
			call, ok := s.X.(*ast.CallExpr)
			if !ok {
				return true
			}
			sel, ok := call.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			if sel.Sel.Name == "WriteString" && len(call.Args) == 1 && strings.HasSuffix(c.typ(sel.X).String(), "bytes.Buffer") {
				in, ok := call.Args[0].(*ast.CallExpr)
				var w ast.Expr = sel.X
				if _, isP := c.typ(sel.X).(*types.Pointer); !isP {
					w = &ast.UnaryExpr{Op: token.AND, X: sel.X}
				}
				if ok {
					if f, ok := in.Fun.(*ast.SelectorExpr); ok && f.Sel.Name == "Sprintf" && c.take() {
						call.Fun = &ast.SelectorExpr{X: f.X, Sel: id("Fprintf")}
						call.Args = append([]ast.Expr{w}, in.Args...)
						return true
					}
				}
				if b, ok := call.Args[0].(*ast.BinaryExpr); ok && b.Op == token.ADD && c.take() {
					cu.InsertBefore(&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: sel.X, Sel: id("WriteString")}, Args: []ast.Expr{b.X}}})
					call.Args[0] = b.Y
				}
			}
			return true
		})
	},
	"makeslice": func(c *ctx) {
		ast.Inspect(c.f, func(n ast.Node) bool {
			if d, ok := n.(*ast.DeclStmt); ok {
				if g, ok := d.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						v := s.(*ast.ValueSpec)
						if v.Type == nil || len(v.Values) > 0 || len(v.Names) != 1 {
							continue
						}
						if at, ok := v.Type.(*ast.ArrayType); ok && at.Len == nil && c.take() {
							v.Values = []ast.Expr{&ast.CompositeLit{Type: v.Type}}
						}
					}
				}
			}
			return true
		})
	},
	"swap": func(c *ctx) { // neighbouring assignments of pure values to different fields or variables change places
		c.lists(func(l []ast.Stmt) []ast.Stmt {
			for i := 0; i+1 < len(l); i++ {
				a, ok1 := l[i].(*ast.AssignStmt)
				b, ok2 := l[i+1].(*ast.AssignStmt)
				if !ok1 || !ok2 || len(a.Lhs) != 1 || len(b.Lhs) != 1 || len(a.Rhs) != 1 || len(b.Rhs) != 1 {
					continue
				}
				if !pure(a.Lhs[0]) || !pure(b.Lhs[0]) || !pure(a.Rhs[0]) || !pure(b.Rhs[0]) {
					continue
				}
				// no name written by one occurs in the other
				w := func(s *ast.AssignStmt) string {
					e := s.Lhs[0]
					if se, ok := e.(*ast.SelectorExpr); ok {
						return se.Sel.Name
					}
					if i, ok := e.(*ast.Ident); ok {
						return i.Name
					}
					return "?"
				}
				uses := func(s *ast.AssignStmt, n string) bool {
					r := n == "?"
					ast.Inspect(s, func(x ast.Node) bool {
						if i, ok := x.(*ast.Ident); ok && i.Name == n {
							r = true
						}
						return true
					})
					return r
				}
				if w(a) == "_" || w(b) == "_" || uses(b, w(a)) || uses(a, w(b)) || !c.take() {
					continue
				}
				l[i], l[i+1] = l[i+1], l[i]
				i++
			}
			return l
		})
	},
	"swifs": func(c *ctx) { // switch with a tag becomes a chain of ifs
		c.lists(func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				sw, ok := s.(*ast.SwitchStmt)
				if !ok || sw.Tag == nil || sw.Init != nil || !pure(sw.Tag) {
					continue
				}
				bad := false
				ast.Inspect(sw.Body, func(n ast.Node) bool {
					if b, ok := n.(*ast.BranchStmt); ok && b.Tok != token.CONTINUE {
						bad = true
					}
					return true
				})
				if bad || !c.take() {
					continue
				}
				var first, last *ast.IfStmt
				var def *ast.BlockStmt
				for _, cc := range sw.Body.List {
					cl := cc.(*ast.CaseClause)
					body := &ast.BlockStmt{List: cl.Body}
					if cl.List == nil {
						def = body
						continue
					}
					var cond ast.Expr
					for _, e := range cl.List {
						q := ast.Expr(&ast.BinaryExpr{Op: token.EQL, X: sw.Tag, Y: e})
						if cond == nil {
							cond = q
						} else {
							cond = &ast.BinaryExpr{Op: token.LOR, X: cond, Y: q}
						}
					}
					n := &ast.IfStmt{Cond: cond, Body: body}
					if first == nil {
						first = n
					} else {
						last.Else = n
					}
					last = n
				}
				if first == nil {
					continue
				}
				if def != nil {
					last.Else = def
				}
				l[i] = first
			}
			return l
		})
	},
	"fields": func(c *ctx) { // x := T{a: 1, b: 2} -> var x T; x.a = 1; x.b = 2
		c.lists(func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
					if cl, ok := a.Rhs[0].(*ast.CompositeLit); ok {
						if _, isS := c.typ(cl).Underlying().(*types.Struct); isS && len(cl.Elts) > 0 {
							ts, ok := c.q(c.typ(cl))
							kv := true
							for _, e := range cl.Elts {
								if _, is := e.(*ast.KeyValueExpr); !is {
									kv = false
								}
							}
							if ok && kv && c.take() {
								n := a.Lhs[0].(*ast.Ident)
								out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n.Name)}, Type: id(ts)}}}})
								for _, e := range cl.Elts {
									k := e.(*ast.KeyValueExpr)
									out = append(out, &ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{&ast.SelectorExpr{X: id(n.Name), Sel: id(k.Key.(*ast.Ident).Name)}}, Rhs: []ast.Expr{k.Value}})
								}
								continue
							}
						}
					}
				}
				out = append(out, s)
			}
			return out
		})
	},
	"alias": func(c *ctx) { // a receiver's field that is only read gets a local name
		c.funcs(func(d *ast.FuncDecl) {
			if d.Recv == nil || len(d.Recv.List[0].Names) == 0 {
				return
			}
			r := d.Recv.List[0].Names[0]
			ro := c.p.TypesInfo.Defs[r]
			if ro == nil {
				return
			}
			// a second name for the receiver
			if r.Name == "_" || assigned(d.Body, ro, c.p.TypesInfo) || !c.take() {
				return
			}
			n := c.fresh("zzr")
			used := false
			ast.Inspect(d.Body, func(x ast.Node) bool {
				if i, ok := x.(*ast.Ident); ok && c.p.TypesInfo.Uses[i] == ro {
					if _, isP := ro.Type().(*types.Pointer); isP {
						i.Name = n
						used = true
					}
				}
				return true
			})
			if used {
				d.Body.List = append([]ast.Stmt{&ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{id(n)}, Rhs: []ast.Expr{id(r.Name)}}}, d.Body.List...)
			}
		})
	},
	"named": func(c *ctx) { // named results
		c.funcs(func(d *ast.FuncDecl) {
			if d.Type.Results == nil || len(d.Type.Results.List) == 0 || len(d.Type.Results.List[0].Names) > 0 || !c.take() {
				return
			}
			k := 0
			var names []string
			for _, f := range d.Type.Results.List {
				n := fmt.Sprintf("zzres%d", k)
				k++
				f.Names = []*ast.Ident{id(n)}
				names = append(names, n)
			}
			_ = names
		})
	},
}

func (c *ctx) tag() string {
	n := c.p.Fset.Position(c.f.Pos()).Filename
	n = n[strings.LastIndex(n, "/")+1:]
	return strings.NewReplacer(".go", "", "_", "", "-", "").Replace(n)
}

func (c *ctx) src(n ast.Node) string {
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), n); err != nil {
		panic(err)
	}
	return b.String()
}

func (c *ctx) rangeToIdx(r *ast.RangeStmt) ast.Stmt {
	if _, ok := c.typ(r.X).Underlying().(*types.Slice); !ok || !pure(r.X) || r.Tok != token.DEFINE {
		return r
	}
	// the ranged slice must not be assigned in the body (root identifier or selector)
	bad := false
	txt := c.src(r.X)
	ast.Inspect(r.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if strings.HasPrefix(c.src(l), txt) && !strings.HasPrefix(c.src(l), txt+"[") || strings.HasPrefix(txt, c.src(l)) {
					bad = true
				}
			}
		case *ast.FuncLit:
			bad = true
		}
		return true
	})
	if sel, ok := r.X.(*ast.SelectorExpr); ok {
		_ = sel
		// calls might change the field
		ast.Inspect(r.Body, func(n ast.Node) bool {
			if cl, ok := n.(*ast.CallExpr); ok {
				if s, ok := cl.Fun.(*ast.SelectorExpr); ok && c.p.TypesInfo.Selections[s] != nil {
					bad = true
				}
			}
			return true
		})
	}
	if bad || !c.take() {
		return r
	}
	k := "zzi"
	if i, ok := r.Key.(*ast.Ident); ok && i.Name != "_" {
		k = i.Name
	} else {
		k = c.fresh("zzi")
	}
	if i, ok := r.Key.(*ast.Ident); ok && i.Name != "_" && assigned(r.Body, c.p.TypesInfo.ObjectOf(i), c.p.TypesInfo) {
		return r
	}
	var pre []ast.Stmt
	if v, ok := r.Value.(*ast.Ident); ok && v.Name != "_" {
		pre = append(pre, &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{id(v.Name)}, Rhs: []ast.Expr{&ast.IndexExpr{X: r.X, Index: id(k)}}})
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{id(k)}, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
		Cond: &ast.BinaryExpr{Op: token.LSS, X: id(k), Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{r.X}}},
		Post: &ast.IncDecStmt{X: id(k), Tok: token.INC},
		Body: &ast.BlockStmt{List: append(pre, r.Body.List...)},
	}
}

// tryExtract moves statement i of the block into a function when it assigns no local variable and does not leave.
func (c *ctx) tryExtract(b *ast.BlockStmt, i int) {
	s := b.List[i]
	switch s.(type) {
	case *ast.ExprStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
	default:
		return
	}
	good := true
	free := map[string]string{}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ReturnStmt, *ast.FuncLit, *ast.DeferStmt, *ast.SwitchStmt:
			good = false
		case *ast.BranchStmt:
			good = false
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				good = false
			}
		case *ast.CallExpr:
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				if sel := c.p.TypesInfo.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
					_, isPtr := sel.Recv().Underlying().(*types.Pointer)
					sg := sel.Obj().Type().(*types.Signature)
					if sg.Recv() != nil {
						_, rp := sg.Recv().Type().(*types.Pointer)
						if rp && !isPtr {
							good = false
						}
					}
				}
			}
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				root := l
				viaPtr := false
				for {
					switch x := root.(type) {
					case *ast.SelectorExpr:
						if _, ok := c.typ(x.X).Underlying().(*types.Pointer); ok {
							viaPtr = true
						}
						root = x.X
						continue
					case *ast.IndexExpr:
						switch c.typ(x.X).Underlying().(type) {
						case *types.Slice, *types.Map:
							viaPtr = true
						}
						root = x.X
						continue
					case *ast.StarExpr:
						viaPtr = true
						root = x.X
						continue
					case *ast.ParenExpr:
						root = x.X
						continue
					}
					break
				}
				if ro, ok := root.(*ast.Ident); ok && !viaPtr {
					o := c.p.TypesInfo.ObjectOf(ro)
					if o == nil || ro.Name == "_" {
						continue
					}
					if o.Pos() < s.Pos() || o.Pos() > s.End() {
						good = false
					}
				}
			}
		case *ast.IncDecStmt:
			if ro, ok := n.X.(*ast.Ident); ok {
				o := c.p.TypesInfo.ObjectOf(ro)
				if o != nil && (o.Pos() < s.Pos() || o.Pos() > s.End()) {
					good = false
				}
			}
		case *ast.Ident:
			o := c.p.TypesInfo.Uses[n]
			if k, isK := o.(*types.Const); isK && k.Pkg() == c.p.Types && k.Parent() != c.p.Types.Scope() {
				good = false
			}
			v, ok := o.(*types.Var)
			if !ok || v.IsField() || v.Parent() == c.p.Types.Scope() || v.Pkg() != c.p.Types {
				return true
			}
			if v.Pos() >= s.Pos() && v.Pos() <= s.End() {
				return true
			}
			ts, ok := c.q(v.Type())
			if !ok {
				good = false
			}
			free[n.Name] = ts
		}
		return good
	})
	if !good || !hasCall(s) || !c.take() {
		return
	}
	var names, ps []string
	for n := range free {
		names = append(names, n)
	}
	sort.Strings(names)
	var args []ast.Expr
	for _, n := range names {
		ps = append(ps, n+" "+free[n])
		args = append(args, id(n))
	}
	h := fmt.Sprintf("zzDo%s%d", strings.ToUpper(c.tag()), c.count)
	c.extra = append(c.extra, fmt.Sprintf("func %s(%s) {\n\t%s\n}", h, strings.Join(ps, ", "), c.src(s)))
	b.List[i] = &ast.ExprStmt{X: &ast.CallExpr{Fun: id(h), Args: args}}
}

func main() {
	dir := os.Args[1]
	for _, t := range os.Args[2:] {
		if n, _ := fmt.Sscanf(t, "mod=%d/%d", &rem, &mod); n == 2 {
			continue
		}
		cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}
		pkgs, err := packages.Load(cfg, "./...")
		if err != nil {
			panic(err)
		}
		total := 0
		for _, p := range pkgs {
			if len(p.Errors) > 0 {
				fmt.Println("errors:", p.Errors[0])
				os.Exit(1)
			}
			for i, f := range p.Syntax {
				fn := p.GoFiles[i]
				f.Comments = nil
				c := &ctx{p: p, f: f}
				trans[t](c)
				total += c.count
				// drop comments inside the tree: positions no longer fit
				ast.Inspect(f, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.FuncDecl:
						n.Doc = nil
					case *ast.GenDecl:
						n.Doc = nil
					case *ast.Field:
						n.Doc, n.Comment = nil, nil
					case *ast.ValueSpec:
						n.Doc, n.Comment = nil, nil
					case *ast.TypeSpec:
						n.Doc, n.Comment = nil, nil
					case *ast.ImportSpec:
						n.Doc, n.Comment = nil, nil
					}
					return true
				})
				var b bytes.Buffer
				if err := format.Node(&b, p.Fset, f); err != nil {
					panic(err)
				}
				for _, x := range c.extra {
					b.WriteString("\n" + x + "\n")
				}
				if err := os.WriteFile(fn, b.Bytes(), 0644); err != nil {
					panic(err)
				}
			}
		}
		fmt.Println(t, "sites:", total)
	}
}
