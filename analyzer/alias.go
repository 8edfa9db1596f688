package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Alias analysis: which SSA values may point into memory reachable from given roots. Flow- and
// context-insensitive, interprocedural, field-based for heap objects and per-object for local allocations.

type fieldKey struct {
	t *types.Named
	s *types.Struct
	f int
}

type aliasAn struct {
	p       *Prog
	why     map[ssa.Value]string  // tainted values -> root description
	content map[ssa.Value]string  // allocations whose contents hold tainted values
	field   map[fieldKey]string   // heap fields holding tainted values
	elem    map[types.Type]string // element types of heap slices/maps holding tainted values (type-based)
	globals map[*ssa.Global]string
	ret     map[*ssa.Function]map[int]string
	changed bool
}

// pointerLike: can a value of this type lead to shared mutable memory?
func pointerLike(t types.Type) bool { return pointerLike1(t, map[types.Type]bool{}) }
func pointerLike1(t types.Type, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if isErrorT(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike1(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return pointerLike1(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerLike1(u.At(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func newAlias(p *Prog) *aliasAn {
	return &aliasAn{p: p, why: map[ssa.Value]string{}, content: map[ssa.Value]string{}, field: map[fieldKey]string{},
		elem: map[types.Type]string{}, globals: map[*ssa.Global]string{}, ret: map[*ssa.Function]map[int]string{}}
}

func (a *aliasAn) taint(v ssa.Value, w string) {
	if v == nil || w == "" || !pointerLike(v.Type()) {
		return
	}
	if _, ok := a.why[v]; !ok {
		a.why[v] = w
		a.changed = true
	}
}

func fkey(x ssa.Value, f int) (fieldKey, bool) {
	t := x.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := t.(*types.Named)
	s, _ := t.Underlying().(*types.Struct)
	if s == nil {
		return fieldKey{}, false
	}
	if n != nil {
		return fieldKey{t: n, f: f}, true
	}
	return fieldKey{s: s, f: f}, true
}

// base: the object an address lies in.
func addrBase(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				v = x.X // array
				continue
			}
			return x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// externals whose result aliases an argument
func aliasArgs(name string) []int {
	switch name {
	case "bytes.NewBuffer", "bytes.NewReader", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Next", "bytes.TrimSpace", "bytes.Trim", "bytes.TrimRight", "bytes.TrimLeft", "bytes.TrimPrefix", "bytes.TrimSuffix", "bytes.TrimFunc", "bytes.Split", "bytes.SplitN", "bytes.Fields", "bytes.Cut", "bufio.NewReader", "bufio.NewWriter", "bufio.NewScanner", "io.LimitReader", "io.TeeReader", "slices.Clip", "slices.Grow":
		return []int{0}
	}
	return nil
}

// externals that write through an argument: argument indexes (receiver is 0)
func writesArgs(c *ssa.CallCommon) []int {
	name := calleeName(c)
	switch name {
	case "builtin.copy", "builtin.delete", "builtin.clear":
		return []int{0}
	case "crypto/rand.Read", "math/rand.Read", "(*math/rand.Rand).Read":
		return []int{0}
	case "io.ReadFull", "io.ReadAtLeast", "encoding/json.Unmarshal", "encoding/xml.Unmarshal", "encoding/binary.Read":
		if name == "encoding/binary.Read" {
			return []int{2}
		}
		return []int{1}
	case "encoding/hex.Encode", "encoding/hex.Decode":
		return []int{0}
	case "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "slices.Delete", "slices.Insert", "slices.Compact", "sort.Ints", "sort.Strings", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable":
		return []int{0}
	}
	if strings.HasPrefix(name, "sync/atomic.") && !strings.Contains(name, ".Load") {
		return []int{0}
	}
	base := name[strings.LastIndex(name, ".")+1:]
	if strings.Contains(name, "encoding/binary") && (strings.HasPrefix(base, "PutUint") || strings.HasPrefix(base, "PutVarint") || strings.HasPrefix(base, "PutUvarint")) {
		if c.IsInvoke() {
			return []int{0}
		}
		if c.Signature().Recv() != nil {
			return []int{1}
		}
		return []int{0}
	}
	switch base {
	case "XORKeyStream", "CryptBlocks", "Encrypt", "Decrypt":
		if c.IsInvoke() || c.Signature().Recv() != nil {
			i := 1
			if c.IsInvoke() {
				i = 0
			}
			return []int{i}
		}
	case "Read", "ReadAt":
		if c.IsInvoke() {
			return []int{0}
		}
		if c.Signature().Recv() != nil {
			return []int{1}
		}
	case "Encode", "Decode":
		if strings.Contains(name, "encoding/base64") || strings.Contains(name, "encoding/base32") {
			return []int{1}
		}
	}
	if strings.HasPrefix(name, "(*bytes.Buffer).") {
		switch base {
		case "Write", "WriteString", "WriteByte", "WriteRune", "WriteTo", "ReadFrom", "Reset", "Truncate", "Next", "Read", "ReadByte", "ReadBytes", "ReadString", "ReadRune", "Grow", "UnreadByte", "UnreadRune":
			return []int{0}
		}
	}
	if strings.HasPrefix(name, "(*strings.Builder).") && (strings.HasPrefix(base, "Write") || base == "Reset" || base == "Grow") {
		return []int{0}
	}
	if strings.HasPrefix(name, "(*sync.Map).") && base != "Load" && base != "Range" {
		return []int{0}
	}
	if strings.HasPrefix(name, "(*sync.Pool).") {
		return []int{0}
	}
	return nil
}

func (a *aliasAn) setField(k fieldKey, w string) {
	if w == "" {
		return
	}
	if _, ok := a.field[k]; !ok {
		a.field[k] = w
		a.changed = true
	}
}
func (a *aliasAn) setContent(v ssa.Value, w string) {
	if w == "" {
		return
	}
	if _, ok := a.content[v]; !ok {
		a.content[v] = w
		a.changed = true
	}
}

func isLocalAlloc(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

func (a *aliasAn) run() {
	for {
		a.changed = false
		for _, f := range a.p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					a.step(f, in)
				}
			}
		}
		if !a.changed {
			return
		}
	}
}

func (a *aliasAn) step(f *ssa.Function, in ssa.Instruction) {
	w := func(v ssa.Value) string { return a.why[v] }
	switch x := in.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.taint(x, w(e))
		}
	case *ssa.ChangeType:
		a.taint(x, w(x.X))
	case *ssa.ChangeInterface:
		a.taint(x, w(x.X))
	case *ssa.MakeInterface:
		a.taint(x, w(x.X))
		if c := a.content[x.X]; c != "" {
			a.setContent(x, c)
		}
	case *ssa.TypeAssert:
		a.taint(x, w(x.X))
	case *ssa.Slice:
		a.taint(x, w(x.X))
		if c := a.content[x.X]; c != "" {
			a.setContent(x, c)
		}
	case *ssa.SliceToArrayPointer:
		a.taint(x, w(x.X))
	case *ssa.Extract:
		a.taint(x, w(x.Tuple))
	case *ssa.Field:
		a.taint(x, w(x.X))
	case *ssa.Index:
		a.taint(x, w(x.X))
	case *ssa.FieldAddr:
		a.taint(x, w(x.X))
	case *ssa.IndexAddr:
		a.taint(x, w(x.X))
	case *ssa.Lookup:
		a.taint(x, w(x.X))
		a.taint(x, a.content[x.X])
	case *ssa.Range:
		if s := w(x.X); s != "" {
			a.setContent(x, s)
		}
		if s := a.content[x.X]; s != "" {
			a.setContent(x, s)
		}
	case *ssa.Next:
		a.taint(x, a.content[x.Iter])
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			a.taint(x, w(x.X)) // memory reachable from the root: what it points to is as well
			switch ad := x.X.(type) {
			case *ssa.Global:
				a.taint(x, a.globals[ad])
			case *ssa.FieldAddr:
				if k, ok := fkey(ad.X, ad.Field); ok {
					if !isLocalAlloc(addrBase(ad)) {
						a.taint(x, a.field[k])
					} else {
						a.taint(x, a.field[k])
					}
				}
			}
			a.taint(x, a.content[addrBase(x.X)])
		}
	case *ssa.Store:
		s := w(x.Val)
		if s == "" || !pointerLike(x.Val.Type()) {
			return
		}
		switch ad := x.Addr.(type) {
		case *ssa.FieldAddr:
			if k, ok := fkey(ad.X, ad.Field); ok {
				a.setField(k, s)
			}
			return
		case *ssa.Global:
			if _, ok := a.globals[ad]; !ok {
				a.globals[ad] = s
				a.changed = true
			}
			return
		}
		a.setContent(addrBase(x.Addr), s)
		// a whole struct stored: its pointer fields
		if fa, ok := x.Addr.(*ssa.IndexAddr); ok {
			a.setContent(fa.X, s)
		}
	case *ssa.MapUpdate:
		if s := w(x.Value); s != "" {
			a.setContent(x.Map, s)
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			a.taint(fn.FreeVars[i], w(b))
			if c := a.content[b]; c != "" {
				a.setContent(fn.FreeVars[i], c)
			}
			if c := a.content[fn.FreeVars[i]]; c != "" {
				a.setContent(b, c)
			}
		}
	case *ssa.Return:
		for i, r := range x.Results {
			s := w(r)
			if s == "" {
				s = a.content[r]
			}
			if s != "" {
				m := a.ret[f]
				if m == nil {
					m = map[int]string{}
					a.ret[f] = m
				}
				if _, ok := m[i]; !ok {
					m[i] = s
					a.changed = true
				}
			}
		}
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		a.call(c)
	}
}

func (a *aliasAn) call(c ssa.CallInstruction) {
	cc := c.Common()
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	}
	v := c.Value()
	for _, g := range a.p.callees[c] {
		if !a.p.inLib[g] {
			continue
		}
		for i, ar := range args {
			if i < len(g.Params) {
				a.taint(g.Params[i], a.why[ar])
				if s := a.content[ar]; s != "" {
					a.setContent(g.Params[i], s)
				}
				if s := a.content[g.Params[i]]; s != "" {
					a.setContent(ar, s)
				}
			}
		}
		if v != nil {
			for i, s := range a.ret[g] {
				if g.Signature.Results().Len() == 1 {
					a.taint(v, s)
				} else {
					for _, r := range *v.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && e.Index == i {
							a.taint(e, s)
						}
					}
				}
			}
		}
	}
	if v == nil {
		return
	}
	name := calleeName(cc)
	switch name {
	case "builtin.append":
		a.taint(v, a.why[args[0]])
		if s := a.content[args[0]]; s != "" {
			a.setContent(v, s)
		}
		if len(args) > 1 {
			// elements copied: they may themselves be pointers into root memory
			if st, ok := args[1].Type().Underlying().(*types.Slice); ok && pointerLike(st.Elem()) {
				if s := a.why[args[1]]; s != "" {
					a.setContent(v, s)
				}
				if s := a.content[args[1]]; s != "" {
					a.setContent(v, s)
				}
			}
		}
	default:
		for _, i := range aliasArgs(name) {
			if i < len(args) {
				a.taint(v, a.why[args[i]])
			}
		}
	}
}

type memWrite struct {
	in   ssa.Instruction
	f    *ssa.Function
	root string
	what string
}

// writes lists every instruction that may modify memory reachable from the roots.
func (a *aliasAn) writes(skip func(*ssa.Function) bool) []memWrite {
	var out []memWrite
	for _, f := range a.p.funcs {
		if skip != nil && skip(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if s := a.why[x.Addr]; s != "" {
						out = append(out, memWrite{in, f, s, "store"})
					}
				case *ssa.MapUpdate:
					if s := a.why[x.Map]; s != "" {
						out = append(out, memWrite{in, f, s, "map update"})
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					args := cc.Args
					name := calleeName(cc)
					if name == "builtin.append" {
						if s := a.why[args[0]]; s != "" && !fullSlice(args[0]) {
							out = append(out, memWrite{in, f, s, "append into spare capacity"})
						}
						continue
					}
					lib := false
					for _, g := range a.p.callees[c] {
						if a.p.inLib[g] {
							lib = true
						}
					}
					if lib && !cc.IsInvoke() {
						continue
					}
					for _, i := range writesArgs(cc) {
						if i < len(args) && a.why[args[i]] != "" {
							out = append(out, memWrite{in, f, a.why[args[i]], name})
						}
					}
				}
			}
		}
	}
	return out
}

// fullSlice: s[a:b:b]-style slices have no spare capacity.
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && s.High != nil && s.Max == s.High
}
