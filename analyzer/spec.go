package main

import (
	"embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed specs/*.src
var specFS embed.FS

// A spec states the value a function has to compute as another Go function over the same parameters. It is added to
// the type-checked program (never compiled or run); the value graphs of both are compared.
type spec struct {
	prop     string
	rel      string // package, relative to the module
	impl     string // Type.Method or function
	ref      string // function of specs/<prop>.<pkg>.src
	opaque   []string
	ws       bool     // PDF syntax: white space between tokens does not matter
	when     bool     // also compare the condition under which the call succeeds
	closures bool     // the functions inside it are compared as well, one by one
	errs     bool     // errors are results
	weak     bool     // only this is compared: where the specification fails, the code does
	only     []string // locations compared (prefixes), all if empty
	skip     []string
	rule     string
	pre      string                           // function of the specification file that says which inputs matter (its result is assumed)
	under    func(e *Eng, args []*Term) *Term // additional precondition
}

var specs []spec

// time for one function and for all of a property (s); what does not fit is not decided
const (
	specTime  = 90 * time.Second
	weakTime  = 15 * time.Second
	specsTime = 500 * time.Second
)

func specFiles(prop string) map[string][]byte {
	out := map[string][]byte{}
	es, _ := specFS.ReadDir("specs")
	for _, e := range es {
		n := e.Name()
		p := strings.Split(n, ".")
		if len(p) != 3 || p[0] != prop {
			continue
		}
		b, _ := specFS.ReadFile("specs/" + n)
		rel := p[1]
		if rel == "root" {
			rel = ""
		}
		rel = strings.ReplaceAll(rel, "-", "/")
		out[filepath.Join(rel, "zz_verif_"+prop+".go")] = b
	}
	return out
}

// withSpecs: the properties that have specifications
var withSpecs = map[string]bool{}

// moreRules: rules of a property besides its specifications
var moreRules = map[string][]func(*Prog, *Report){}

func addSpecs(prop string, ss ...spec) {
	for _, s := range ss {
		s.prop = prop
		specs = append(specs, s)
	}
	if prop == "pool" || withSpecs[prop] {
		return
	}
	withSpecs[prop] = true
	own := props[prop].run
	register(prop, func(p *Prog, r *Report) {
		if own != nil {
			own(p, r)
		}
		for _, f := range moreRules[prop] {
			f(p, r)
		}
		runSpecs(p, r, prop)
	})
}

// reuse: specifications of another property that this one rests on as well.
func reuse(prop, from string, impls ...string) {
	for _, n := range impls {
		found := false
		for _, s := range specs {
			if s.prop == from && s.impl == n && !s.errs {
				addSpecs(prop, s)
				found = true
				break
			}
		}
		if !found {
			panic("no specification of " + n + " in " + from)
		}
	}
}

// fails: where the specification of one of these functions fails, the function does.
func fails(prop string, rels ...string) {
	done := map[string]bool{}
	var out []spec
	for _, s := range specs {
		if s.errs || s.weak || s.closures || s.pre != "" || s.under != nil || done[s.rel+s.impl] || !s.wanted("success") || !hasStr(rels, s.rel) {
			continue
		}
		done[s.rel+s.impl] = true
		s.weak, s.only, s.skip, s.errs = true, nil, nil, true
		s.rule = "an error does not reach the caller"
		out = append(out, s)
	}
	addSpecs(prop, out...)
}

// failsOf: the same for some functions only.
func failsOf(prop, rel string, impls ...string) {
	for _, n := range impls {
		for _, s := range specs {
			if s.rel == rel && s.impl == n && !s.errs && !s.weak && s.pre == "" && s.under == nil {
				s.weak, s.only, s.skip, s.errs = true, nil, nil, true
				s.rule = "an error does not reach the caller"
				addSpecs(prop, s)
				break
			}
		}
	}
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func findFn(p *Prog, rel, name string) *ssa.Function {
	if t, m, ok := strings.Cut(name, "."); ok {
		if p.typ(rel, t) == nil {
			return nil
		}
		return p.method(rel, t, m)
	}
	if p.lib(rel) == nil {
		return nil
	}
	return p.fn(rel, name)
}

func runSpecs(base *Prog, r *Report, prop string) {
	if onceSpecs {
		return
	}
	p := loadSpecs(base, r, prop)
	if p == nil {
		return
	}
	r.rule("value: the value graph of the function (results and everything it writes, over its inputs, with joins at control-flow merges, loops solved to closed forms and callees inlined) equals the value graph of the specification function; a difference is reported only where both graphs are aligned and provably part")
	n := 0
	end := time.Now().Add(specsTime)
	for _, s := range specs {
		if s.prop == prop && time.Now().After(end) {
			r.notes = append(r.notes, s.impl+" not decided: no time is left")
			r.count("undecided", 1)
		} else if s.prop == prop {
			runSpec(p, r, s)
			n++
		}
	}
	r.count("specifications", n)
}

// onceSpecs: each specification is evaluated once for all properties that rest on it (for experiments)
var onceSpecs = false

// loadSpecs loads the program together with the specifications of a property (of all if it is "").
func loadSpecs(base *Prog, r *Report, prop string) *Prog {
	ov := map[string][]byte{}
	files := map[string]bool{prop: true}
	for _, s := range specs {
		if (s.prop == prop || prop == "") && len(s.ref) >= 5 {
			files["C"+s.ref[3:5]] = true // zzC04Name belongs to the specification file of C04
		}
	}
	if prop == "" {
		for _, s := range specs {
			files[s.prop] = true
		}
	}
	for more := true; more; {
		more = false
		for f := range files {
			for n, b := range specFiles(f) {
				ov[filepath.Join(base.dir, n)] = b
				for _, m := range specRef.FindAllSubmatch(b, -1) {
					if g := string(m[1]); !files[g] {
						files[g] = true
						more = true
					}
				}
			}
		}
	}
	p, err := loadWith(base.dir, ov)
	for try := 0; try < 6 && err != nil; try++ {
		te, ok := err.(typeErrors)
		if !ok || !pruneSpecs(ov, te, func(what string) {
			r.notes = append(r.notes, "not decided: "+what+" does not fit the types of this tree")
			r.count("undecided", 1)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Println("  ?? does not fit:", what)
			}
		}) {
			break
		}
		p, err = loadWith(base.dir, ov)
	}
	if err != nil {
		r.notes = append(r.notes, "not decided: the specification does not fit the types of this tree: "+err.Error())
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("SPEC TYPE ERROR", err)
		}
		return nil
	}
	return p
}

func runSpec(p *Prog, r *Report, s spec) {
	dbg := os.Getenv("VERIF_DEBUG") != ""
	impl, ref := findFn(p, s.rel, s.impl), findFn(p, s.rel, s.ref)
	key := s.impl
	note := func(f string, a ...any) {
		m := key + " not decided: " + fmt.Sprintf(f, a...)
		r.notes = append(r.notes, m)
		r.count("undecided", 1)
		if dbg {
			fmt.Println("  ??", s.prop, m)
		}
	}
	if impl == nil || ref == nil {
		note("function %s is not there", s.impl)
		return
	}
	if rs := ref.Signature.Results(); s.weak && (rs.Len() == 0 || !isErrorT(rs.At(rs.Len()-1).Type())) {
		return // it cannot fail
	}
	if len(impl.Params) != len(ref.Params) {
		note("parameters changed")
		return
	}
	m := pairClosures(impl, ref)
	if s.closures && (len(m) != len(impl.AnonFuncs) || len(impl.AnonFuncs) != len(ref.AnonFuncs)) {
		note("its inner functions are different ones")
		return
	}
	s.pair(p, r, key, impl, ref, nil, note)
	if s.closures {
		for i, g := range ref.AnonFuncs {
			s.when = true
			s.pair(p, r, fmt.Sprintf("%s, inner function %d", key, i+1), m[g], g, m, note)
		}
	}
}

// pair compares one function with its specification; for inner functions, the captured variables are inputs.
func (s spec) pair(p *Prog, r *Report, key string, impl, ref *ssa.Function, inner map[*ssa.Function]*ssa.Function, note func(string, ...any)) {
	dbg := os.Getenv("VERIF_DEBUG") != ""
	var e *Eng
	var args []*Term
	var si, sr *Summary
	end := time.Now().Add(specTime)
	if s.weak {
		end = time.Now().Add(weakTime)
	}
	region := map[string]bool{}
	var regTypes []types.Type
	for try := 0; ; try++ {
		e = newEng(p)
		e.b.deadline = end
		e.opts.keepErr = s.errs
		e.opts.region = region
		e.opts.paired = s.closures
		for _, t := range regTypes {
			e.regionFor(t)
		}
		e.opts.opaque = map[*ssa.Function]bool{}
		if e.opts.alias = inner; inner == nil && s.closures {
			e.opts.alias = pairClosures(impl, ref)
		}
		for _, o := range s.opaque {
			rel, name, ok := strings.Cut(o, ":")
			if !ok {
				rel, name = s.rel, o
			}
			f := findFn(p, rel, name)
			if f == nil {
				note("function %s is not there", o)
				return
			}
			e.opts.opaque[f] = true
			if f == impl && !e.rec[f] && inner == nil {
				note("%s is not recursive", o)
				return
			}
		}
		again := false
		ok := func() (ok bool) {
			defer func() {
				if x := recover(); x != nil {
					if n, is := x.(regionNeeded); is && try < 6 {
						region[types.TypeString(n.t, nil)] = true
						regTypes = append(regTypes, n.t)
						again = true
						return
					}
					var st []string
					for _, g := range e.stack {
						st = append(st, fname(g))
					}
					if u, is := x.(undecided); is {
						note("%s in %s", u.msg, strings.Join(st, " > "))
					} else if dbg && os.Getenv("VERIF_DEBUG") != "1" {
						panic(x)
					} else {
						note("internal: %v in %s", x, strings.Join(st, " > "))
					}
					ok = false
				}
			}()
			args = e.params(impl)
			var free []*Term
			for i, v := range impl.FreeVars {
				t := e.b.sym(fmt.Sprintf("v%d", i), v.Type())
				free = append(free, t)
				if el := v.Type().Underlying().(*types.Pointer).Elem(); !isFuncT(el) {
					e.opts.cells = append(e.opts.cells, e.toPtr(t, el))
				}
			}
			if s.pre != "" {
				f := findFn(p, s.rel, s.pre)
				if f == nil || len(f.Params) != len(args) {
					giveUp("the precondition does not fit")
				}
				st := &State{heap: map[*Obj]*Term{}, pc: e.b.T()}
				t, alive := e.inline(f, args, nil, st)
				if !alive || t == nil {
					giveUp("the precondition has no value")
				}
				e.pre = t
			}
			si = e.summaryOf(impl, args, free)
			byImpl := e.inlined
			e.inlined = map[*ssa.Function]bool{}
			sr = e.summaryOf(ref, args, free)
			noteCover(impl, byImpl, e.inlined)
			for f := range byImpl {
				e.inlined[f] = true
			}
			return true
		}()
		if again {
			continue
		}
		if !ok {
			return
		}
		break
	}
	r.count("functions_evaluated", len(e.inlined))
	r.count("value_graph_nodes", e.b.n)
	pos := p.pos(impl.Pos())
	if !sr.alive {
		note("the specification has no normal return")
		return
	}
	if !si.alive {
		r.ob(false, "value", key, pos, "the function never returns normally")
		return
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if u, is := x.(undecided); is {
					note("%s while comparing", u.msg)
				} else if dbg && os.Getenv("VERIF_DEBUG") != "1" {
					panic(x)
				} else {
					note("internal: %v", x)
				}
			}
		}()
		compareSummaries(e, r, s, key, pos, si, sr, args, note)
	}()
}

func isFuncT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// pairClosures: the functions inside the specification and those of the same form inside the code; a recursive one
// is the same if its body is, given that its calls of itself are.
func pairClosures(impl, ref *ssa.Function) map[*ssa.Function]*ssa.Function {
	m := map[*ssa.Function]*ssa.Function{}
	if len(impl.AnonFuncs) != len(ref.AnonFuncs) {
		return m
	}
	for i, f := range impl.AnonFuncs {
		g := ref.AnonFuncs[i]
		if !types.Identical(f.Signature, g.Signature) || len(f.FreeVars) != len(g.FreeVars) {
			return nil
		}
		for j := range f.FreeVars {
			if !types.Identical(f.FreeVars[j].Type(), g.FreeVars[j].Type()) {
				return nil
			}
		}
		m[g] = f
	}
	return m
}

// loopFails: the end of a loop depends on the error of a call.
func loopFails(t *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term, in bool) bool
	w = func(t *Term, in bool) bool {
		if in && t.op == "app" && strings.Contains(t.s, " fails with ") {
			return true
		}
		if !in && seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if w(a, in || t.op == "first") {
				return true
			}
		}
		return false
	}
	return w(t, false)
}

func compareSummaries(e *Eng, r *Report, s spec, key, pos string, si, sr *Summary, args []*Term, note func(string, ...any)) {
	b := e.b
	dbg := os.Getenv("VERIF_DEBUG") != ""
	pc := b.and(si.pc, sr.pc)
	if s.under != nil {
		pc = b.and(pc, s.under(e, args))
	}
	type unwritten struct{ name, why, unk string }
	var left []unwritten // places the specification writes and the code leaves alone, when the values are not decided
	other := false       // something else is not decided
	one := func(name string, x, y *Term, pc *Term) {
		if !s.wanted(name) {
			return
		}
		c := newCmp(e)
		c.ws = s.ws
		c.assume = e.factsOf(pc)
		c.pc = pc
		x, y = b.restrict(x, pc), b.restrict(y, pc)
		c.tops = [2]*Term{x, y}
		cmp := c.cmp
		if s.weak {
			cmp = c.cmpWeak
		}
		v := cmp(x, y)
		if v == vUnk && !s.weak {
			v = c.smallInstances(x, y)
		}
		if v == vDiff && !s.errs && loopFails(x) != loopFails(y) {
			// in the function itself, leaving a loop because of an error does not count; in a function it calls, an
			// error that callers look at does
			v, c.unk = vUnk, "a loop that is left because of an error: "+c.why
		}
		if dbg {
			fmt.Printf("  %s %s %s: %s\n", s.prop, key, name, v)
			if v == vDiff {
				fmt.Println("     ", c.why)
			} else if v == vUnk {
				fmt.Println("     ", c.unk)
			}
			if v != vSame && os.Getenv("VERIF_DEBUG") == "2" {
				fmt.Println("   IMPL", x)
				fmt.Println("   SPEC", y)
				n := 6
				structDiff(x, y, "", &n)
			}
		}
		switch v {
		case vSame:
			r.ob(true, "value", key+" "+name, pos, "")
		case vDiff:
			what := name
			if s.rule != "" {
				what += ", " + s.rule
			}
			r.ob(false, "value", key+" "+name, pos, fmt.Sprintf("%s: the code computes something else than specified: %s", what, c.why))
		default:
			if strings.HasPrefix(name, "*") && c.place(x) && !c.place(y) && fxRoot(x) == nil {
				left = append(left, unwritten{name, fmt.Sprintf("%s instead of %s", short(x), short(y)), c.unk})
				return
			}
			other = true
			note("%s: %s", name, c.unk)
		}
	}
	defer func() {
		for _, u := range left {
			if other {
				note("%s: %s", u.name, u.unk)
				continue
			}
			r.ob(false, "value", key+" "+u.name, pos, fmt.Sprintf("%s: the code never writes what is specified: %s", u.name, u.why))
		}
	}()
	if s.weak {
		// errors are all the same value here
		n := len(sr.res) - 1
		ok, spec := e.okCond(si.res[n], true), e.okCond(sr.res[n], true)
		one("error", ok, spec, pc)
		return
	}
	if s.when {
		one("success", si.pc, sr.pc, b.T())
	}
	for i := range si.res {
		if i >= len(sr.res) {
			break
		}
		e.fieldPairs(fmt.Sprintf("result%d", i), si.res[i], sr.res[i], 3, func(n string, x, y *Term) { one(n, x, y, pc) })
	}
	ks := map[string]bool{}
	for k := range si.mem {
		ks[k] = true
	}
	for k := range sr.mem {
		ks[k] = true
	}
	var names []string
	for k := range ks {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		x, y := si.mem[k], sr.mem[k]
		if strings.HasPrefix(k, "call:") && !e.moduleStruct(x) && !e.moduleStruct(y) {
			continue // buffers and slices that uninterpreted calls made, used up
		}
		if x == nil {
			if x = si.init[k]; x == nil {
				x = sr.init[k]
			}
		}
		if y == nil {
			if y = sr.init[k]; y == nil {
				y = si.init[k]
			}
		}
		if x == nil || y == nil {
			continue
		}
		e.fieldPairs("*"+k, x, y, 4, func(n string, x, y *Term) { one(n, x, y, pc) })
	}
}

// moduleStruct: the term is a struct of a type of the analysed module.
func (e *Eng) moduleStruct(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	n, ok := t.typ.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), e.p.mod) {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

// fieldPairs: the fields of a pair of structs, by name.
func (e *Eng) fieldPairs(name string, x, y *Term, d int, f func(string, *Term, *Term)) {
	s := x
	if y.op == "struct" {
		s = y
	}
	if d > 0 && s.op == "struct" && s.typ != nil {
		if st := structOf(s.typ); st != nil && st.NumFields() == len(s.args) {
			get := func(t *Term) []*Term {
				if t.op == "struct" && t.s == s.s {
					return t.args
				}
				if t.op == "app" || t.op == "sym" {
					return e.b.expandLike(s, t)
				}
				return nil
			}
			gx, gy := get(x), get(y)
			if gx != nil && gy != nil {
				for i := range gx {
					if gx[i] != gy[i] || !(gx[i].op == "app" && strings.HasPrefix(gx[i].s, ".")) {
						e.fieldPairs(name+"."+st.Field(i).Name(), gx[i], gy[i], d-1, f)
					}
				}
				return
			}
		}
	}
	f(name, x, y)
}

func (s *spec) wanted(name string) bool {
	for _, k := range s.skip {
		if strings.HasPrefix(name, k) {
			return false
		}
	}
	if len(s.only) == 0 {
		return true
	}
	for _, k := range s.only {
		if strings.HasPrefix(name, k) {
			return true
		}
	}
	return false
}

var specRef = regexp.MustCompile(`\bzz(C[0-9][0-9])`)

var errPos = regexp.MustCompile(`(?s)^(.*?):(\d+):\d+: (.*)`)

// pruneSpecs drops the specification functions that do not type-check against the tree.
func pruneSpecs(ov map[string][]byte, errs typeErrors, note func(string)) bool {
	lines := map[string]map[int]bool{}
	done := false
	for _, e := range errs {
		m := errPos.FindStringSubmatch(e)
		if m == nil || ov[m[1]] == nil {
			continue
		}
		n, _ := strconv.Atoi(m[2])
		if lines[m[1]] == nil {
			lines[m[1]] = map[int]bool{}
		}
		lines[m[1]][n] = true
	}
	for f, ls := range lines {
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, ov[f], 0)
		if err != nil {
			return false
		}
		src := append([]byte{}, ov[f]...)
		blank := func(a, z token.Pos) {
			for i := fs.Position(a).Offset; i < fs.Position(z).Offset; i++ {
				if src[i] != '\n' {
					src[i] = ' '
				}
			}
			done = true
		}
		for _, d := range file.Decls {
			a, z := fs.Position(d.Pos()).Line, fs.Position(d.End()).Line
			hit := false
			for l := range ls {
				hit = hit || a <= l && l <= z
			}
			if !hit {
				continue
			}
			switch x := d.(type) {
			case *ast.FuncDecl:
				blank(x.Pos(), x.End())
				note(x.Name.Name)
			case *ast.GenDecl:
				for _, s := range x.Specs {
					if l := fs.Position(s.Pos()).Line; ls[l] || x.Tok != token.IMPORT {
						blank(s.Pos(), s.End())
					}
				}
			}
		}
		ov[f] = src
	}
	return done
}
