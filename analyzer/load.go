package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the resolved program under analysis: every package of /repo, type-checked and in SSA form.
type Prog struct {
	keptErrs map[*ssa.Function]map[*ssa.Global]bool
	eff      *effects
	sorting  map[*ssa.Function]bool
	dir      string
	mod      string
	fset     *token.FileSet
	pkgs     []*packages.Package
	ssa      *ssa.Program
	bypth    map[string]*ssa.Package
	funcs    []*ssa.Function // all functions with bodies in repo library packages, deterministic order
	inLib    map[*ssa.Function]bool

	addrTaken map[*ssa.Function]bool
	callees   map[ssa.CallInstruction][]*ssa.Function
	callers   map[*ssa.Function][]ssa.CallInstruction
}

func loadProg(dir string) (*Prog, error) { return loadWith(dir, nil) }

// loadWith adds the given files (by path) to the program.
func loadWith(dir string, overlay map[string][]byte) (*Prog, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env, Overlay: overlay}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, typeErrors(errs)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, sps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{dir: dir, fset: prog.Fset, ssa: prog, bypth: map[string]*ssa.Package{}, inLib: map[*ssa.Function]bool{}}
	for i, sp := range sps {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		if pkgs[i].Module != nil {
			p.mod = pkgs[i].Module.Path
		}
		p.bypth[pkgs[i].PkgPath] = sp
		if pkgs[i].Name == "main" {
			continue
		}
		p.pkgs = append(p.pkgs, pkgs[i])
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		p.inLib[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range p.pkgs {
		sp := p.bypth[pk.PkgPath]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				t := m.Type()
				if nt, ok := t.(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						add(prog.FuncValue(nt.Method(i)))
					}
				}
			}
		}
	}
	p.buildCallGraph()
	return p, nil
}

func (p *Prog) lib(rel string) *ssa.Package {
	path := p.mod
	if rel != "" {
		path += "/" + rel
	}
	return p.bypth[path]
}

func (p *Prog) isLibPkg(t *types.Package) bool {
	return t != nil && (t.Path() == p.mod || strings.HasPrefix(t.Path(), p.mod+"/"))
}

func (p *Prog) isLibT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && p.isLibPkg(n.Obj().Pkg())
}

// typ finds a named type of a repo package.
func (p *Prog) typ(rel, name string) *types.Named {
	sp := p.lib(rel)
	if sp == nil {
		return nil
	}
	m, _ := sp.Members[name].(*ssa.Type)
	if m == nil {
		return nil
	}
	n, _ := m.Type().(*types.Named)
	return n
}

// method finds a method (value or pointer receiver, promoted included).
func (p *Prog) method(rel, typ, name string) *ssa.Function {
	n := p.typ(rel, typ)
	if n == nil {
		return nil
	}
	if f := p.methodOf(n, name); f != nil {
		return f
	}
	return p.methodOf(types.NewPointer(n), name)
}

func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	ms := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Prog) fn(rel, name string) *ssa.Function {
	sp := p.lib(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) pos(x token.Pos) string {
	if !x.IsValid() {
		return "?"
	}
	q := p.fset.Position(x)
	if r, err := filepath.Rel(p.dir, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/signintech/", "")
	return s
}

// ---- call graph: static callees, interface calls resolved to every repo type that implements the
// interface, function values resolved to every address-taken repo function of that signature.
func (p *Prog) buildCallGraph() {
	p.callees = map[ssa.CallInstruction][]*ssa.Function{}
	p.callers = map[*ssa.Function][]ssa.CallInstruction{}
	p.addrTaken = map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok {
						if ssa.Value(fn) != callee {
							p.addrTaken[fn] = true
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					p.addrTaken[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	var named []types.Type
	for _, pk := range p.pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
					named = append(named, tn.Type(), types.NewPointer(tn.Type()))
				}
			}
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				var out []*ssa.Function
				addf := func(fn *ssa.Function) {
					if fn == nil {
						return
					}
					for _, o := range out {
						if o == fn {
							return
						}
					}
					out = append(out, fn)
				}
				if cc.IsInvoke() {
					it, _ := cc.Value.Type().Underlying().(*types.Interface)
					for _, t := range named {
						if it != nil && types.Implements(t, it) {
							ms := p.ssa.MethodSets.MethodSet(t)
							if sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
								addf(p.unwrap(p.ssa.MethodValue(sel)))
							}
						}
					}
				} else if sc := cc.StaticCallee(); sc != nil {
					addf(p.unwrap(sc))
				} else if _, isB := cc.Value.(*ssa.Builtin); !isB {
					sig := cc.Signature()
					for _, g := range p.funcs {
						if p.addrTaken[g] && types.Identical(stripRecv(g.Signature), stripRecv(sig)) {
							addf(g)
						}
					}
				}
				p.callees[c] = out
				for _, o := range out {
					p.callers[o] = append(p.callers[o], c)
				}
			}
		}
	}
}

func stripRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// unwrap maps synthetic wrappers (promoted methods, bound methods) to the declared function.
func (p *Prog) unwrap(f *ssa.Function) *ssa.Function {
	for i := 0; i < 4 && f != nil && f.Synthetic != "" && f.Object() != nil; i++ {
		if g := p.ssa.FuncValue(f.Object().(*types.Func)); g != nil && g != f {
			f = g
		} else {
			break
		}
	}
	return f
}

func (p *Prog) reach(roots []*ssa.Function) map[*ssa.Function]*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	for _, r := range roots {
		if r != nil {
			if _, ok := from[r]; !ok {
				from[r] = nil
				work = append(work, r)
			}
		}
	}
	push := func(g, f *ssa.Function) {
		if !p.inLib[g] {
			return
		}
		if _, ok := from[g]; !ok {
			from[g] = f
			work = append(work, g)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callees[c] {
						push(g, f)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					push(mc.Fn.(*ssa.Function), f)
				}
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok {
						push(fn, f)
					}
				}
			}
		}
	}
	return from
}

func chain(from map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var s []string
	for g := f; g != nil && len(s) < 12; g = from[g] {
		s = append([]string{fname(g)}, s...)
	}
	return strings.Join(s, " -> ")
}

// exportedAPI: exported functions and exported methods of exported types of the given packages.
func (p *Prog) exportedAPI(rels ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, rel := range rels {
		sp := p.lib(rel)
		if sp == nil {
			continue
		}
		for _, f := range p.funcs {
			if f.Pkg != sp || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			if r := f.Signature.Recv(); r != nil {
				t := r.Type()
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
				}
				if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
					continue
				}
			}
			out = append(out, f)
		}
	}
	return out
}

// calleeName: package-qualified name of a statically known callee or interface method, "" otherwise.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.RelString(nil)
	}
	return ""
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorT(t types.Type) bool { return types.Identical(t, errorType) }

// errIndex: index of the error result, -1 if there is none.
func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorT(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

type typeErrors []string

func (e typeErrors) Error() string { return "type errors: " + strings.Join(e, "; ") }
