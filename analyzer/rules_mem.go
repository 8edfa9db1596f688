package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", ruleC21)
	register("C20", ruleC20)
	register("C22", ruleC22)
}

func isInit(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Signature.Recv() == nil && (g.Name() == "init" || strings.HasPrefix(g.Name(), "init#")) {
			return true
		}
	}
	return false
}

// ruleC21: no function outside package initialisation writes a package-level variable or memory reachable from one.
func ruleC21(p *Prog, r *Report) {
	r.rule("who-may-write: no instruction outside package initialisation stores to a package-level variable or, by an interprocedural alias analysis, to memory reachable from one")
	a := newAlias(p)
	n := 0
	for _, pk := range p.pkgs {
		sp := p.bypth[pk.PkgPath]
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				a.why[g] = "package variable " + strings.TrimPrefix(g.RelString(nil), "github.com/signintech/")
				n++
			}
		}
	}
	// package variables of other packages (os.Args, ...): a store to them is shared state as well
	a.run()
	r.count("package_variables", n)
	ws := a.writes(isInit)
	stores := 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Store, *ssa.MapUpdate:
					stores++
				}
			}
		}
	}
	r.count("write_instructions_examined", stores)
	bad := map[ssa.Instruction]bool{}
	for _, w := range ws {
		bad[w.in] = true
		r.ob(false, "no-global-write", fname(w.f)+"/"+w.root, p.pos(w.in.Pos()), w.what+" modifies "+w.root)
	}
	for _, pk := range p.pkgs {
		sp := p.bypth[pk.PkgPath]
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				r.ob(true, "no-global-write", g.RelString(nil), p.pos(g.Pos()), "")
			}
		}
	}
	// stores to variables of other packages
	for _, f := range p.funcs {
		if isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := addrBase(s.Addr).(*ssa.Global); ok && g.Pkg != nil && !p.isLibPkg(g.Pkg.Pkg) {
						r.ob(false, "no-global-write", fname(f)+"/"+g.RelString(nil), p.pos(s.Pos()), "store to a variable of another package")
					}
				}
			}
		}
	}
	r.floor("no-global-write", 20)
}

// ownStruct: a pointer to a struct with no exported fields is library state, not caller data.
func callerData(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		if s, ok := u.Elem().Underlying().(*types.Struct); ok {
			if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" {
				return false
			}
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Exported() {
					return true
				}
			}
			return false
		}
		return true
	}
	return false
}

func ruleC20(p *Prog, r *Report) {
	r.rule("no write through caller memory: from every slice, map or struct pointer parameter of the exported API, an interprocedural alias analysis finds every store, map update, copy, append into capacity and writing library call that can reach it; there must be none")
	r.rule("no retention: a caller's byte slice is not stored in a struct field that a document keeps")
	a := newAlias(p)
	api := p.exportedAPI("", "render", "textbreak")
	for _, tn := range []string{"GoPdf", "PDFProtection"} {
		for _, f := range p.exportedAPI("minigopdf") {
			if rv := f.Signature.Recv(); rv != nil && strings.HasSuffix(rv.Type().String(), "."+tn) {
				api = append(api, f)
			}
		}
	}
	bytesRoot := map[string]bool{}
	n := 0
	for _, f := range api {
		if isReadMethod(f) {
			continue // io.Reader: filling the caller's buffer is what the call is for
		}
		ps := f.Params
		if f.Signature.Recv() != nil {
			ps = ps[1:]
		}
		for _, pa := range ps {
			if callerData(pa.Type()) {
				d := "parameter " + pa.Name() + " of " + fname(f)
				a.why[pa] = d
				if s, ok := pa.Type().Underlying().(*types.Slice); ok {
					if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
						bytesRoot[d] = true
					}
				}
				n++
			}
		}
	}
	roots := map[string]*ssa.Function{}
	for v, d := range a.why {
		roots[d] = v.Parent()
	}
	a.run()
	bad := map[string]bool{}
	for _, w := range a.writes(nil) {
		bad[w.root] = true
		r.ob(false, "no-caller-write", fname(w.f)+"/"+w.root, p.pos(w.in.Pos()), w.what+" may modify memory of "+w.root)
	}
	for d, f := range roots {
		if !bad[d] {
			r.ob(true, "no-caller-write", d, p.pos(f.Pos()), "")
		}
	}
	for k, d := range a.field {
		if bytesRoot[d] {
			nm := "?"
			if k.t != nil {
				nm = k.t.Obj().Name() + "." + k.t.Underlying().(*types.Struct).Field(k.f).Name()
			}
			r.ob(false, "no-retention", nm, "?", "field "+nm+" keeps the memory of "+d)
		}
	}
	for d := range bytesRoot {
		r.ob(true, "no-retention", d, p.pos(roots[d].Pos()), "")
	}
	r.count("caller_memory_parameters", n)
	r.floor("no-caller-write", 6)
	r.floor("no-retention", 3)
}

// ruleC22: nothing that ends the process is reachable from the API.
func ruleC22(p *Prog, r *Report) {
	r.rule("who-may-call: no function reachable (call graph with interface and function-value resolution) from the exported API of the editing, rendering and text-breaking packages calls os.Exit, log.Fatal*, log.Panic*, syscall.Exit, runtime.Goexit, a Must* constructor on non-constant input, or panic")
	api := p.exportedAPI("", "render", "textbreak")
	from := p.reach(api)
	r.count("api_functions", len(api))
	r.count("functions_reachable", len(from))
	for _, f := range p.funcs {
		if _, ok := from[f]; !ok {
			continue
		}
		clean := true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				what := ""
				switch x := in.(type) {
				case *ssa.Panic:
					what = "panic"
				case ssa.CallInstruction:
					n := calleeName(x.Common())
					base := n[strings.LastIndex(n, ".")+1:]
					switch {
					case n == "os.Exit", n == "runtime.Goexit", n == "syscall.Exit", n == "syscall.Kill":
						what = n
					case (strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log.Logger).")) && (strings.HasPrefix(base, "Fatal") || strings.HasPrefix(base, "Panic")):
						what = n
					case n == "(*os.Process).Kill", n == "(*os.Process).Signal":
						what = n
					case strings.HasPrefix(base, "Must") && !strings.HasPrefix(n, p.mod):
						if len(x.Common().Args) > 0 {
							if _, isC := x.Common().Args[0].(*ssa.Const); !isC {
								what = n + " on a computed value"
							}
						}
					}
				}
				if what != "" {
					clean = false
					r.ob(false, "no-exit", fname(f)+"/"+what, p.pos(in.Pos()), what+" is reachable from the API: "+chain(from, f))
				}
			}
		}
		if clean {
			r.ob(true, "no-exit", fname(f), p.pos(f.Pos()), "")
		}
	}
	r.floor("no-exit", 100)
}

func isReadMethod(f *ssa.Function) bool {
	s := f.Signature
	return s.Recv() != nil && f.Name() == "Read" && s.Params().Len() == 1 && s.Results().Len() == 2 && isErrorT(s.Results().At(1).Type())
}
