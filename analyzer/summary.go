package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Summary: results and final contents of everything written, as terms over the parameters.
type Summary struct {
	fn    *ssa.Function
	alive bool
	pc    *Term
	res   []*Term
	mem   map[string]*Term // by the name of the location's key term
	keys  map[string]*Term
	init  map[string]*Term
}

// summary evaluates f; args are the terms of the parameters (fresh symbols named after position if nil).
func (e *Eng) summary(f *ssa.Function, args []*Term) *Summary {
	return e.summaryOf(f, args, nil)
}

func (e *Eng) summaryOf(f *ssa.Function, args, free []*Term) *Summary {
	if args == nil {
		args = e.params(f)
	}
	st := &State{heap: map[*Obj]*Term{}, pc: e.b.T()}
	if e.pre != nil {
		st.pc = e.pre
	}
	e.stack = nil
	r, alive := e.inline(f, args, free, st)
	s := &Summary{fn: f, alive: alive, mem: map[string]*Term{}, keys: map[string]*Term{}, init: map[string]*Term{}}
	if !alive {
		return s
	}
	s.pc = st.pc
	if r != nil {
		if r.op == "tuple" && f.Signature.Results().Len() > 1 {
			for _, a := range r.args {
				s.res = append(s.res, e.box(st, a))
			}
		} else {
			s.res = []*Term{e.box(st, r)}
		}
	}
	for o, v := range st.heap {
		if o.key != nil {
			s.init[o.key.String()] = o.init
		}
		if o.key == nil {
			g := o.kind == 'r'
			for _, x := range e.globals {
				if x == o {
					g = true
				}
			}
			if !g {
				continue
			}
			s.init[o.name] = o.init
			if v != o.init {
				s.mem[o.name] = e.box(st, v)
			}
			continue
		}
		if v == o.init {
			continue
		}
		bx := e.box(st, v)
		if bx == o.init {
			continue
		}
		s.mem[o.key.String()] = bx
		s.keys[o.key.String()] = o.key
	}
	return s
}

func (e *Eng) params(f *ssa.Function) []*Term {
	var out []*Term
	for i, p := range f.Params {
		out = append(out, e.b.sym(fmt.Sprintf("p%d", i), p.Type()))
	}
	return out
}

func (s *Summary) print() {
	fmt.Println("==", fname(s.fn))
	if !s.alive {
		fmt.Println("never returns normally")
		return
	}
	fmt.Println("when", s.pc)
	for i, r := range s.res {
		fmt.Printf("result %d: %s\n", i, r)
	}
	var ks []string
	for k := range s.mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("mem %s := %s\n", k, s.mem[k])
	}
}
