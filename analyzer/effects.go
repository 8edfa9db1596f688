package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// effects: through which parameters (and captured variables) may a function write, transitively?
type effects struct {
	p      *Prog
	w      map[*ssa.Function]map[int]string // param index -> description; free variable i is -(i+1)
	conc   map[*ssa.Function]bool
	wt     map[*ssa.Function]map[int]map[string]bool // param index -> types of the objects written
	all    map[*ssa.Function]map[string]bool         // types of all objects written
	fields map[*ssa.Function]map[string]bool         // fields written: T.f, or T.* for a whole object
}

// types fills wt and all.
func (e *effects) types() {
	if e.wt != nil {
		return
	}
	e.wt = map[*ssa.Function]map[int]map[string]bool{}
	e.all = map[*ssa.Function]map[string]bool{}
	e.fields = map[*ssa.Function]map[string]bool{}
	for _, f := range e.p.funcs {
		e.wt[f] = map[int]map[string]bool{}
		e.all[f] = map[string]bool{}
		e.fields[f] = map[string]bool{}
	}
	der := map[*ssa.Function]map[int]map[ssa.Value]bool{}
	for _, f := range e.p.funcs {
		der[f] = map[int]map[ssa.Value]bool{}
		for i, pa := range f.Params {
			if pointerLike(pa.Type()) {
				der[f][i] = derivedFrom(e.p, f, pa)
			}
		}
		for i, fv := range f.FreeVars {
			der[f][-(i + 1)] = derivedFrom(e.p, f, fv)
		}
	}
	for ch, last := true, false; ch; {
		ch = false
		unknown := func() {
			if ch || last {
				return
			}
			last = true
			for _, f := range e.p.funcs {
				for i := range e.w[f] {
					if len(e.wt[f][i]) == 0 {
						e.wt[f][i] = map[string]bool{"?": true}
						ch = true
					}
				}
			}
		}
		for _, f := range e.p.funcs {
			addAll := func(t string) {
				if !e.all[f][t] {
					e.all[f][t] = true
					ch = true
				}
			}
			add := func(i int, t string) {
				if e.wt[f][i] == nil {
					e.wt[f][i] = map[string]bool{}
				}
				if !e.wt[f][i][t] {
					e.wt[f][i][t] = true
					ch = true
				}
			}
			see := func(v ssa.Value, ts ...string) {
				for _, t := range ts {
					addAll(t)
					for i, d := range der[f] {
						if d[v] {
							add(i, t)
						}
					}
				}
			}
			fld := func(v ssa.Value) {
				if k := baseField(v); !e.fields[f][k] {
					e.fields[f][k] = true
					ch = true
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if _, local := x.Addr.(*ssa.Alloc); local {
							continue
						}
						fld(x.Addr)
						see(x.Addr, baseType(x.Addr))
					case *ssa.MapUpdate:
						see(x.Map, types.TypeString(x.Map.Type(), nil))
					case ssa.CallInstruction:
						args := callArgs(x.Common())
						for _, g := range e.p.callees[x] {
							if !e.p.inLib[g] {
								continue
							}
							for t := range e.all[g] {
								addAll(t)
							}
							for k := range e.fields[g] {
								if !e.fields[f][k] {
									e.fields[f][k] = true
									ch = true
								}
							}
							for i, a := range args {
								for t := range e.wt[g][i] {
									if _, mi := a.(*ssa.MakeInterface); mi && t == "?" {
										t = baseType(a)
									}
									see(a, t)
								}
								if len(e.wt[g][i]) > 0 && insideObj(a) {
									see(a, baseType(a))
									fld(a)
								}
							}
						}
						for _, a := range args {
							if w := e.extWrites(in, map[ssa.Value]bool{a: true}); w != "" {
								see(a, baseType(a))
								fld(a)
							}
						}
					}
				}
			}
		}
		unknown()
	}
}

// insideObj: does the value point into the middle of an object?
func insideObj(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return true
	case *ssa.IndexAddr:
		return true
	case *ssa.Slice:
		_, ok := x.X.Type().Underlying().(*types.Pointer)
		return ok
	case *ssa.MakeInterface:
		return insideObj(x.X)
	}
	return false
}

// baseField: the field of that object, * when it is not a field.
func baseField(v ssa.Value) string {
	fl := "*"
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			fl = x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
			v = x.X
			continue
		case *ssa.IndexAddr:
			fl = "*"
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				v = x.X
				continue
			}
			return types.TypeString(x.X.Type(), nil) + ".*"
		case *ssa.Slice:
			fl = "*"
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		}
		break
	}
	t := v.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t, nil) + "." + fl
}

// baseType: the type of the object an address lies in.
func baseType(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				v = x.X
				continue
			}
			return types.TypeString(x.X.Type(), nil)
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		}
		break
	}
	t := v.Type()
	if types.IsInterface(t) {
		return "?"
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t, nil)
}

func newEffects(p *Prog) *effects {
	if p.eff != nil {
		return p.eff
	}
	e := &effects{p: p, w: map[*ssa.Function]map[int]string{}}
	for _, f := range p.funcs {
		e.w[f] = map[int]string{}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.funcs {
			if e.step(f) {
				ch = true
			}
		}
	}
	p.eff = e
	return e
}

// derivedFrom: values in f that point into memory reachable from v.
func derivedFrom(p *Prog, f *ssa.Function, v ssa.Value) map[ssa.Value]bool {
	d := map[ssa.Value]bool{v: true}
	for ch := true; ch; {
		ch = false
		add := func(x ssa.Value) {
			if !d[x] && pointerLike(x.Type()) {
				d[x] = true
				ch = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if d[x.X] {
						add(x)
					}
				case *ssa.IndexAddr:
					if d[x.X] {
						add(x)
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && d[x.X] {
						add(x)
					}
				case *ssa.Slice:
					if d[x.X] {
						add(x)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if d[e] {
							add(x)
						}
					}
				case *ssa.Extract:
					if d[x.Tuple] {
						add(x)
					}
				case *ssa.Lookup:
					if d[x.X] {
						add(x)
					}
				case *ssa.Range:
					if d[x.X] {
						if !d[x] {
							d[x] = true
							ch = true
						}
					}
				case *ssa.Next:
					if d[x.Iter] && !d[x] {
						d[x] = true
						ch = true
					}
				case *ssa.Field:
					if d[x.X] {
						add(x)
					}
				case *ssa.ChangeType:
					if d[x.X] {
						add(x)
					}
				case *ssa.MakeInterface:
					if d[x.X] {
						add(x)
					}
				case *ssa.ChangeInterface:
					if d[x.X] {
						add(x)
					}
				case *ssa.TypeAssert:
					if d[x.X] {
						add(x)
					}
				case *ssa.Store:
					if d[x.Val] {
						// local variable holding the pointer
						if al := addrRoot(x.Addr); al != nil {
							add(al)
						}
					}
				case *ssa.Call:
					n := calleeName(x.Common())
					if n == "builtin.append" && d[x.Common().Args[0]] {
						add(x)
					}
					for _, i := range aliasArgs(n) {
						if i < len(x.Common().Args) && d[x.Common().Args[i]] {
							add(x)
						}
					}
					// a repo function that returns something reachable from its argument
					args := callArgs(x.Common())
					for _, g := range p.callees[x] {
						if !p.inLib[g] {
							continue
						}
						for i, a := range args {
							if d[a] && i < len(g.Params) && retFrom(p, g, i) {
								add(x)
							}
							if d[a] {
								for _, j := range heldBy(p, g, i) {
									if j < len(args) {
										if al := addrRoot(args[j]); al != nil {
											add(al)
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return d
}

// addrRoot: the pointer through which an address is reached.
func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Global:
			return nil
		default:
			return v
		}
	}
}

var heldMemo = map[*ssa.Function]map[int][]int{}

// heldBy: the parameters of g through which parameter i can be reached after the call.
func heldBy(p *Prog, g *ssa.Function, i int) []int {
	m := heldMemo[g]
	if m == nil {
		m = map[int][]int{}
		heldMemo[g] = m
	}
	if r, ok := m[i]; ok {
		return r
	}
	m[i] = nil
	if i >= len(g.Params) || !pointerLike(g.Params[i].Type()) {
		return nil
	}
	var r []int
	d := derivedFrom(p, g, g.Params[i])
	for j, q := range g.Params {
		if j != i && d[q] {
			r = append(r, j)
		}
	}
	m[i] = r
	return r
}

// localRoot: the local variable an address lies in.
func localRoot(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

func callArgs(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

var retFromMemo = map[*ssa.Function]map[int]int{}

// retFrom: does g return a pointer into memory reachable from parameter i?
func retFrom(p *Prog, g *ssa.Function, i int) bool {
	m := retFromMemo[g]
	if m == nil {
		m = map[int]int{}
		retFromMemo[g] = m
	}
	switch m[i] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	m[i] = 3
	res := false
	any := false
	for j := 0; j < g.Signature.Results().Len(); j++ {
		if pointerLike(g.Signature.Results().At(j).Type()) {
			any = true
		}
	}
	if any && pointerLike(g.Params[i].Type()) {
		d := derivedFrom(p, g, g.Params[i])
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, v := range r.Results {
					if d[v] {
						res = true
					}
				}
			}
		}
	}
	m[i] = 2
	if res {
		m[i] = 1
	}
	return res
}

func (e *effects) step(f *ssa.Function) bool {
	ch := false
	mark := func(i int, what string) {
		if _, ok := e.w[f][i]; !ok {
			e.w[f][i] = what
			ch = true
		}
	}
	roots := map[ssa.Value]int{}
	for i, pa := range f.Params {
		if pointerLike(pa.Type()) {
			roots[pa] = i
		}
	}
	for i, fv := range f.FreeVars {
		roots[fv] = -(i + 1)
	}
	for root, idx := range roots {
		if _, ok := e.w[f][idx]; ok {
			continue
		}
		d := derivedFrom(e.p, f, root)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if w := e.writesVia(in, d); w != "" {
					mark(idx, w)
				}
			}
		}
	}
	return ch
}

// writesVia: does the instruction write to memory that a value in d leads to?
func (e *effects) writesVia(in ssa.Instruction, d map[ssa.Value]bool) string {
	switch x := in.(type) {
	case *ssa.Store:
		if d[x.Addr] {
			if localRoot(x.Addr) != nil {
				return "" // the local variable itself
			}
			return "store at " + e.p.pos(x.Pos())
		}
	case *ssa.MapUpdate:
		if d[x.Map] {
			return "map update at " + e.p.pos(x.Pos())
		}
	case ssa.CallInstruction:
		cc := x.Common()
		args := callArgs(cc)
		lib := false
		for _, g := range e.p.callees[x] {
			if !e.p.inLib[g] {
				continue
			}
			lib = true
			for i, a := range args {
				if d[a] {
					if w, ok := e.w[g][i]; ok {
						return "call of " + fname(g) + " (" + w + ")"
					}
				}
			}
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			fn := mc.Fn.(*ssa.Function)
			for i, bd := range mc.Bindings {
				if d[bd] {
					if w, ok := e.w[fn][-(i + 1)]; ok {
						return "closure (" + w + ")"
					}
				}
			}
		}
		_ = lib
		return e.extWrites(in, d)
	}
	return ""
}

// extWrites: the same for functions outside the repository.
func (e *effects) extWrites(in ssa.Instruction, d map[ssa.Value]bool) string {
	if x, ok := in.(ssa.CallInstruction); ok {
		cc := x.Common()
		lib := false
		for _, g := range e.p.callees[x] {
			lib = lib || e.p.inLib[g]
		}
		if !lib || cc.IsInvoke() {
			for _, i := range writesArgs(cc) {
				if i < len(cc.Args) && d[cc.Args[i]] {
					return calleeName(cc) + " at " + e.p.pos(x.Pos())
				}
			}
			// a writer handed to a library function
			n := calleeName(cc)
			switch n {
			case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "io.Copy", "(*bytes.Buffer).WriteTo", "binary.Write", "encoding/binary.Write":
				for k, a := range cc.Args {
					if d[a] && (k == 0 || n == "(*bytes.Buffer).WriteTo") {
						return n + " at " + e.p.pos(x.Pos())
					}
				}
			}
			if cc.IsInvoke() && d[cc.Value] && cc.Method.Name() == "Write" {
				return n + " at " + e.p.pos(x.Pos())
			}
		}
	}
	return ""
}

// natural loop of a header block
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	l := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			if !l[p] {
				l[p] = true
				work = append(work, p)
			}
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !l[p] {
				l[p] = true
				work = append(work, p)
			}
		}
	}
	return l
}

func definedIn(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	in, ok := v.(ssa.Instruction)
	return ok && loop[in.Block()]
}

// rootOutside: is the memory this address lies in reached through values defined before the loop only?
func rootOutside(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	for {
		if !definedIn(v, loop) {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if definedIn(x.Index, loop) {
				return false // element chosen in the loop
			}
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return false
		}
	}
}

var _ types.Type
