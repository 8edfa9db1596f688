package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is a violated obligation.
type Finding struct {
	Rule string // rule id
	Key  string // construct the rule was applied to (stable under line shifts)
	Pos  string
	Msg  string
}

// Report collects what a property's rules analysed.
type Report struct {
	prop     string
	tier     string
	findings []Finding
	counts   map[string]int
	obls     int
	samples  []string
	rules    []string
	notes    []string
	seen     map[string]bool
}

func (r *Report) count(k string, n int) { r.counts[k] += n }

// ob records one obligation: ok or violated.
func (r *Report) ob(ok bool, rule, key, pos, msg string) bool {
	r.obls++
	r.counts["obligations["+rule+"]"]++
	if len(r.samples) < 40 {
		st := "holds"
		if !ok {
			st = "VIOLATED"
		}
		r.samples = append(r.samples, fmt.Sprintf("%s %s at %s: %s", rule, key, pos, st))
	}
	if !ok {
		k := rule + "|" + key + "|" + msg
		if !r.seen[k] {
			r.seen[k] = true
			r.findings = append(r.findings, Finding{rule, key, pos, msg})
		}
	}
	return ok
}

func (r *Report) rule(s string) { r.rules = append(r.rules, s) }

// floor notes that a rule matched fewer constructs than were confirmed by hand: it decides less than it did.
func (r *Report) floor(rule string, min int) {
	n := r.counts["obligations["+rule+"]"]
	if n < min {
		r.notes = append(r.notes, fmt.Sprintf("rule %s matched %d constructs, at least %d were confirmed by hand: it no longer sees all the code it is about", rule, n, min))
		r.count("undecided", 1)
	}
}

type propDef struct {
	id    string
	run   func(p *Prog, r *Report)
	level string
}

var props = map[string]propDef{}

func register(id string, run func(p *Prog, r *Report)) {
	props[id] = propDef{id: id, run: run, level: "other"}
}

func knownFindings(root string) map[string]bool {
	out := map[string]bool{}
	f, err := os.Open(filepath.Join(root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if strings.HasPrefix(l, "known:") { // known: property=<id> <rule>|<key>
			out[strings.TrimSpace(strings.TrimPrefix(l, "known:"))] = true
		}
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: pdftcheck <property|all|list> [quick|thorough]")
		os.Exit(2)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	var ids []string
	switch os.Args[1] {
	case "list":
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	case "specs":
		listSpecs()
		return
	case "once":
		os.Exit(once(repo))
	case "eff":
		debugEff(repo, os.Args[2:])
		return
	case "evalall":
		debugEvalAll(repo, os.Args[2:])
		return
	case "eval":
		debugEval(repo, os.Args[2:])
		return
	case "all":
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	default:
		ids = strings.Split(os.Args[1], ",")
	}
	if os.Getenv("VERIF_CHILD") == "" && os.Getenv("VERIF_DEBUG") == "" {
		guard(root, tier, ids)
	}
	start := time.Now()
	p, err := loadProg(repo)
	code := 0
	for _, id := range ids {
		def, ok := props[id]
		if !ok {
			fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
			os.Exit(2)
		}
		r := &Report{prop: id, tier: tier, counts: map[string]int{}, seen: map[string]bool{}}
		if err != nil {
			r.ob(false, "load", "program", "?", "the program could not be loaded: "+err.Error())
		} else {
			runProp(p, def, r)
		}
		if finish(root, def, r, start) {
			code = 1
		}
		start = time.Now()
	}
	os.Exit(code)
}

// guard runs the analysis in a process of its own: one that dies or does not end has decided nothing.
func guard(root, tier string, ids []string) {
	ctx, cancel := context.WithTimeout(context.Background(), 800*time.Second)
	defer cancel()
	start := time.Now()
	c := exec.CommandContext(ctx, os.Args[0], os.Args[1:]...)
	c.Env = append(os.Environ(), "VERIF_CHILD=1")
	c.Stdout = os.Stdout
	var msg strings.Builder
	c.Stderr = &tail{w: &msg}
	err := c.Run()
	if err == nil {
		os.Exit(0)
	}
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 1 {
		os.Exit(1)
	}
	fmt.Fprintln(os.Stderr, msg.String())
	for _, id := range ids {
		def, ok := props[id]
		if !ok {
			os.Exit(2)
		}
		r := &Report{prop: id, tier: tier, counts: map[string]int{"undecided": 1}, seen: map[string]bool{}}
		r.notes = append(r.notes, "not decided: the analysis did not end: "+err.Error())
		finish(root, def, r, start)
	}
	os.Exit(0)
}

// tail keeps the first part of what is written.
type tail struct {
	w *strings.Builder
}

func (t *tail) Write(b []byte) (int, error) {
	if t.w.Len() < 4000 {
		t.w.Write(b)
	}
	return len(b), nil
}

func runProp(p *Prog, def propDef, r *Report) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				panic(e)
			}
			r.notes = append(r.notes, fmt.Sprintf("not decided: the analysis stopped: %v", e))
			r.count("undecided", 1)
		}
	}()
	def.run(p, r)
	r.count("functions_in_program", len(p.funcs))
	r.count("packages_in_program", len(p.pkgs))
}

func finish(root string, def propDef, r *Report, start time.Time) bool {
	known := knownFindings(root)
	var viol, kn []Finding
	for _, f := range r.findings {
		f.Key, f.Msg = strings.ToValidUTF8(f.Key, "…"), strings.ToValidUTF8(f.Msg, "…")
		if known["property="+def.id+" "+f.Rule+"|"+f.Key] {
			kn = append(kn, f)
		} else {
			viol = append(viol, f)
		}
	}
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(evdir, 0755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation": "static analysis of /repo's current source (type-checked, SSA form); no code of /repo is run. Rules applied: " + strings.Join(r.rules, " || "),
		"obligations": r.obls,
		"discharged":  r.obls - len(r.findings),
		"samples":     r.samples,
	}
	for k, v := range r.counts {
		cov[k] = v
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	ev := map[string]any{
		"property": def.id, "tier": r.tier, "seed": seed, "level": def.level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, def.id+".json"), append(b, '\n'), 0644)
	for _, f := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s (%s): %s\n", def.id, f.Rule, f.Key, f.Pos, f.Msg)
	}
	rp := filepath.Join(evdir, def.id+".replay.txt")
	os.Remove(rp)
	if len(viol) > 0 {
		var sb strings.Builder
		for _, f := range viol {
			fmt.Fprintf(&sb, "rule %s\nconstruct %s\nat %s\n%s\n\n", f.Rule, f.Key, f.Pos, f.Msg)
		}
		os.WriteFile(rp, []byte(sb.String()), 0644)
		for _, f := range viol {
			fmt.Printf("%s %s [%s] %s: %s\n", def.id, f.Pos, f.Rule, f.Key, f.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", def.id, rp)
		return true
	}
	fmt.Printf("OK property=%s obligations=%d wall=%.1fs\n", def.id, r.obls, time.Since(start).Seconds())
	return false
}

var assumptions = []string{
	"the Go type checker and golang.org/x/tools/go/ssa represent the program faithfully",
	"standard library functions behave as documented (modelled, not analysed)",
}
