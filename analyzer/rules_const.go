package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
)

// Values of exported constants that callers combine with | and the code tests with &: disjoint bits, and the same in
// the editing library and in the generator it hands them to. A constant that is gone is not judged.
func constOf(p *Prog, rel, name string) (int64, string, bool) {
	path := p.mod
	if rel != "" {
		path += "/" + rel
	}
	sp := p.bypth[path]
	if sp == nil || sp.Pkg == nil {
		return 0, "", false
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok || c.Val().Kind() != constant.Int {
		return 0, "", false
	}
	v, ok := constant.Int64Val(c.Val())
	return v, p.pos(c.Pos()), ok
}

func ruleBits(rule string, names ...string) func(*Prog, *Report) {
	return func(p *Prog, r *Report) {
		r.rule(rule + ": option constants occupy bits of their own and mean the same to the library and to the generator")
		for _, rel := range []string{"", "minigopdf"} {
			seen := map[int64]string{}
			for _, n := range names {
				v, pos, ok := constOf(p, rel, n)
				if !ok {
					continue
				}
				msg := ""
				if v <= 0 {
					msg = fmt.Sprintf("%s is %d: it cannot be told apart from no option", n, v)
				}
				for w, o := range seen {
					if v&w != 0 {
						msg = fmt.Sprintf("%s (%d) shares bits with %s (%d)", n, v, o, w)
					}
				}
				seen[v] = n
				r.ob(msg == "", rule, rel+"."+n, pos, msg)
			}
		}
		for _, n := range names {
			v, pos, ok := constOf(p, "", n)
			w, _, ok2 := constOf(p, "minigopdf", n)
			if ok && ok2 {
				r.ob(v == w, rule, n+" in both packages", pos, fmt.Sprintf("%s is %d in the library but %d in the generator that interprets it", n, v, w))
			}
		}
	}
}

func ruleValues(rule, rel, why string, vals map[string]int64) func(*Prog, *Report) {
	return func(p *Prog, r *Report) {
		r.rule(rule + ": " + why)
		for n, want := range vals {
			if v, pos, ok := constOf(p, rel, n); ok {
				r.ob(v == want, rule, n, pos, fmt.Sprintf("%s is %d, not %d: %s", n, v, want, why))
			}
		}
	}
}

// ruleSelectors: the table the embedded font's directory takes its entry selector from holds floor(log2 n) where it is
// used (nine tables), if it is written as a plain list.
func ruleSelectors(p *Prog, r *Report) {
	r.rule("C25-selector: the entry selector of a font with nine tables is 3")
	for _, pk := range p.pkgs {
		if pk.PkgPath != p.mod+"/minigopdf" {
			continue
		}
		for _, f := range pk.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				v, ok := n.(*ast.ValueSpec)
				if !ok || len(v.Names) != 1 || v.Names[0].Name != "EntrySelectors" || len(v.Values) != 1 {
					return true
				}
				l, ok := v.Values[0].(*ast.CompositeLit)
				if !ok || len(l.Elts) < 10 {
					return true
				}
				for _, e := range l.Elts {
					if _, ok := e.(*ast.KeyValueExpr); ok {
						return true
					}
				}
				if tv := pk.TypesInfo.Types[l.Elts[9]]; tv.Value != nil {
					c, ok := constant.Int64Val(constant.ToInt(tv.Value))
					r.ob(ok && c == 3, "C25-selector", "EntrySelectors[9]", p.pos(l.Elts[9].Pos()), fmt.Sprintf("the entry selector for nine tables is %d, not floor(log2 9) = 3", c))
				}
				return true
			})
		}
	}
}

func init() {
	moreRules["C25"] = append(moreRules["C25"], ruleSelectors)
	add := func(prop string, f func(*Prog, *Report)) { moreRules[prop] = append(moreRules[prop], f) }
	for _, c := range []string{"C06", "C27", "C31"} {
		add(c, ruleBits(c+"-options", "Left", "Top", "Right", "Bottom", "Center", "Middle"))
	}
	for _, c := range []string{"C30", "C31"} {
		add(c, ruleBits(c+"-styles", "Italic", "Bold", "Underline"))
		for _, rel := range []string{"", "minigopdf"} {
			add(c, ruleValues(c+"-regular", rel, "the regular style has no bit of another style", map[string]int64{"Regular": 0}))
		}
	}
	for _, c := range []string{"C18", "C19"} {
		add(c, ruleValues(c+"-permissions", "minigopdf", "permission bits as the PDF standard numbers them (table 22: bits 3 to 6)",
			map[string]int64{"PermissionsPrint": 4, "PermissionsModify": 8, "PermissionsCopy": 16, "PermissionsAnnotForms": 32}))
	}
}
