package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// debugEval: pdftcheck eval <rel pkg> <Type.Method|func> ... prints the summaries of functions.
func debugEval(repo string, args []string) {
	p, err := loadProg(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for i := 0; i+1 < len(args); i += 2 {
		rel := args[i]
		if rel == "." {
			rel = ""
		}
		var f *ssa.Function
		if t, m, ok := strings.Cut(args[i+1], "."); ok {
			f = p.method(rel, t, m)
		} else {
			f = p.fn(rel, args[i+1])
		}
		if f == nil {
			fmt.Println("no function", args[i+1])
			continue
		}
		e := newEng(p)
		func() {
			defer func() {
				if x := recover(); x != nil {
					if u, ok := x.(undecided); ok {
						var st []string
						for _, g := range e.stack {
							st = append(st, fname(g))
						}
						fmt.Println("UNDECIDED", fname(f), u.msg, "in", strings.Join(st, " > "))
						return
					}
					panic(x)
				}
			}()
			s := e.summary(f, nil)
			s.print()
			fmt.Println("terms", e.b.n, "steps", e.steps)
		}()
	}
}

// debugEvalAll: which functions of a package have a value graph.
func debugEvalAll(dir string, args []string) {
	p, err := loadProg(dir)
	if err != nil {
		panic(err)
	}
	for f := range p.inLib {
		if f.Synthetic != "" || f.Parent() != nil || f.Blocks == nil || f.Pkg == nil {
			continue
		}
		if len(args) > 0 && !strings.Contains(fname(f), args[0]) {
			continue
		}
		func() {
			e := newEng(p)
			start := time.Now()
			defer func() {
				d := time.Since(start).Milliseconds()
				if x := recover(); x != nil {
					var st []string
					for _, g := range e.stack {
						st = append(st, fname(g))
					}
					if u, is := x.(undecided); is {
						fmt.Printf("GIVEUP %s: %s in %s (%d ms)\n", fname(f), u.msg, strings.Join(st, " > "), d)
					} else {
						fmt.Printf("PANIC %s: %v in %s (%d ms)\n", fname(f), x, strings.Join(st, " > "), d)
					}
				} else if d > 1000 {
					fmt.Printf("SLOW %s %d ms\n", fname(f), d)
				}
			}()
			s := e.summary(f, nil)
			if !s.alive {
				fmt.Printf("DEAD %s\n", fname(f))
			}
		}()
	}
}

// structDiff: where two terms first differ in form, for debugging.
func structDiff(x, y *Term, path string, n *int) {
	if x == y || *n <= 0 {
		return
	}
	if x.op == y.op && x.s == y.s && len(x.args) == len(y.args) && len(x.args) > 0 {
		for i := range x.args {
			structDiff(x.args[i], y.args[i], fmt.Sprintf("%s/%s%s.%d", path, x.op, clip(x.s), i), n)
		}
		return
	}
	*n--
	fmt.Printf("   ~%s\n      %s\n      %s\n", path, x.show(7), y.show(7))
}

// debugEff: pdftcheck eff <rel pkg> <func> prints the effects of a function.
func debugEff(repo string, args []string) {
	p, err := loadProg(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	rel := args[0]
	if rel == "." {
		rel = ""
	}
	f := findFn(p, rel, args[1])
	e := newEffects(p)
	e.types()
	fmt.Println(e.w[f])
	fmt.Println(e.wt[f])
	fmt.Println(e.fields[f])
}

// once: pdftcheck once evaluates every specification once and names the properties that are violated (for experiments
// with many changed trees).
func once(repo string) int {
	p, err := loadProg(repo)
	if err != nil {
		fmt.Println("LOAD", err)
		return 1
	}
	onceSpecs = true
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	hit := map[string][]string{}
	und := 0
	add := func(id string, r *Report) {
		for _, f := range r.findings {
			hit[id] = append(hit[id], f.Rule+" "+f.Key+": "+f.Msg)
		}
		und += r.counts["undecided"]
	}
	for _, id := range ids {
		r := &Report{prop: id, counts: map[string]int{}, seen: map[string]bool{}}
		runProp(p, props[id], r)
		add(id, r)
	}
	r := &Report{counts: map[string]int{}, seen: map[string]bool{}}
	q := loadSpecs(p, r, "")
	und += r.counts["undecided"]
	done := map[string]*Report{}
	for _, s := range specs {
		id := s.prop
		s.prop = ""
		under := s.under != nil
		k := fmt.Sprint(s.rel, s.impl, s.ref, s.opaque, s.ws, s.when, s.closures, s.errs, s.weak, s.only, s.skip, s.pre, under)
		r := done[k]
		if r == nil {
			r = &Report{counts: map[string]int{}, seen: map[string]bool{}}
			done[k] = r
			if q != nil {
				t := time.Now()
				runSpec(q, r, s)
				if d := time.Since(t); os.Getenv("VERIF_DEBUG") != "" && d > time.Second {
					fmt.Println("slow", d, s.impl, s.ref)
				}
				und += r.counts["undecided"]
			}
		}
		for _, f := range r.findings {
			hit[id] = append(hit[id], f.Rule+" "+f.Key+": "+f.Msg)
		}
	}
	if os.Getenv("COVER") != "" {
		printCover(p)
	}
	fmt.Println("undecided", und)
	for _, id := range ids {
		if len(hit[id]) > 0 {
			m := hit[id][0]
			if len(m) > 300 {
				m = m[:300]
			}
			fmt.Println("HIT", id, len(hit[id]), m)
		}
	}
	return 0
}

// listSpecs: pdftcheck specs lists the specified functions of every property.
func listSpecs() {
	m := map[string][]string{}
	for _, s := range specs {
		n := s.impl
		if s.rel != "" {
			n = s.rel[strings.LastIndex(s.rel, "/")+1:] + ":" + n
		}
		if !containsStr(m[s.prop], n) {
			m[s.prop] = append(m[s.prop], n)
		}
	}
	var ids []string
	for id := range m {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Println(id, strings.Join(m[id], ", "))
	}
}

func containsStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Coverage of the specifications, for experiments: the functions that are specified, that the code of specified
// functions runs through, and that specifications themselves rely on.
var coverSpec, coverImpl, coverRef = map[string]bool{}, map[string]bool{}, map[string]bool{}

func noteCover(impl *ssa.Function, byImpl, byRef map[*ssa.Function]bool) {
	coverSpec[impl.String()] = true
	for f := range byImpl {
		coverImpl[f.String()] = true
	}
	for f := range byRef {
		coverRef[f.String()] = true
	}
}

func printCover(p *Prog) {
	var a, b []string
	globals := map[string]bool{}
	for _, f := range p.funcs {
		n := 0
		for _, bl := range f.Blocks {
			n += len(bl.Instrs)
		}
		zz := strings.Contains(f.String(), ".zzC") || f.Parent() != nil && strings.Contains(f.Parent().String(), ".zzC")
		if zz {
			for _, bl := range f.Blocks {
				for _, in := range bl.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							globals[g.String()+" of "+f.Name()] = true
						}
					}
				}
			}
			continue
		}
		switch {
		case coverSpec[f.String()]:
		case coverRef[f.String()]:
			a = append(a, fmt.Sprintf("TRUSTED %4d %s", n, f))
		case !coverImpl[f.String()]:
			b = append(b, fmt.Sprintf("UNSPEC  %4d %s", n, f))
		}
	}
	for g := range globals {
		a = append(a, "GLOBAL "+g)
	}
	sort.Strings(a)
	sort.Strings(b)
	fmt.Println(strings.Join(append(a, b...), "\n"))
}
