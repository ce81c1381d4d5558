package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&b, `\u{%x}`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtSym(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.$!", c)) {
			return "|" + n + "|"
		}
	}
	return n
}

// smtSort turns our sort text into SMT-LIB text with quoted symbols.
func smtSort(s Sort) string {
	switch {
	case s.IsSeq():
		return "(Seq " + smtSort(s.Elem()) + ")"
	case s.IsArray():
		k, v := s.ArrayParts()
		return "(Array " + smtSort(k) + " " + smtSort(v) + ")"
	}
	return smtSym(string(s))
}

func writeTerm(b *strings.Builder, t *Term, names map[*Term]string, depth int) {
	if names != nil {
		if n, ok := names[t]; ok && depth > 0 {
			b.WriteString(n)
			return
		}
	}
	switch t.op {
	case "var", "bound":
		b.WriteString(smtSym(t.s))
		return
	case "int":
		if t.sort == SReal {
			b.WriteString(t.i.String() + ".0")
			return
		}
		if t.i.Sign() < 0 {
			fmt.Fprintf(b, "(- %s)", t.i.String()[1:])
		} else {
			b.WriteString(t.i.String())
		}
		return
	case "str":
		b.WriteString(smtString(t.s))
		return
	case "true", "false":
		b.WriteString(t.op)
		return
	case "seq.empty":
		fmt.Fprintf(b, "(as seq.empty %s)", smtSort(t.sort))
		return
	case "constarr":
		fmt.Fprintf(b, "((as const %s) ", smtSort(t.sort))
		writeTerm(b, t.args[0], names, depth+1)
		b.WriteByte(')')
		return
	case "forall", "exists":
		fmt.Fprintf(b, "(%s ((%s %s)) ", t.op, smtSym(t.args[0].s), smtSort(t.args[0].sort))
		writeTerm(b, t.args[1], names, depth+1)
		b.WriteByte(')')
		return
	}
	op := t.op
	switch op {
	case "app":
		op = smtSym(t.s)
	case "ctor":
		op = smtSym("mk!" + t.s)
	case "field":
		op = smtSym(t.s)
	}
	if len(t.args) == 0 {
		b.WriteString(op)
		return
	}
	b.WriteByte('(')
	b.WriteString(op)
	for _, a := range t.args {
		b.WriteByte(' ')
		writeTerm(b, a, names, depth+1)
	}
	b.WriteByte(')')
}

// Datatypes are registered by sort name.
type Datatype struct {
	name   Sort
	fields []Sort
}

var datatypes = map[Sort]*Datatype{}

// Script builds the SMT-LIB script that asserts all the given facts.
func Script(facts []*Term, negGoal *Term, wantModel bool) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	all := append(append([]*Term{}, facts...), negGoal)
	// reference counts
	refs := map[*Term]int{}
	var order []*Term
	hasBound := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		for _, a := range t.args {
			visit(a)
			if hasBound[a] {
				hasBound[t] = true
			}
		}
		if t.op == "bound" {
			hasBound[t] = true
		}
		order = append(order, t)
	}
	for _, t := range all {
		visit(t)
	}
	// sorts
	declared := map[Sort]bool{SInt: true, SBool: true, SString: true, SReal: true}
	var dts []*Datatype
	var declSort func(s Sort)
	declSort = func(s Sort) {
		if declared[s] {
			return
		}
		if s.IsSeq() {
			declSort(s.Elem())
			return
		}
		if s.IsArray() {
			k, v := s.ArrayParts()
			declSort(k)
			declSort(v)
			return
		}
		declared[s] = true
		if d, ok := datatypes[s]; ok {
			for _, f := range d.fields {
				declSort(f)
			}
			dts = append(dts, d)
			return
		}
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", smtSort(s))
	}
	declSort(SAny)
	for _, t := range order {
		declSort(t.sort)
	}
	for _, d := range dts {
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", smtSort(d.name), smtSym("mk!"+string(d.name)))
		for i, f := range d.fields {
			fmt.Fprintf(&b, " (%s %s)", smtSym(fmt.Sprintf("%s!f%d", d.name, i)), smtSort(f))
		}
		b.WriteString("))))\n")
	}
	// symbols
	seen := map[string]bool{}
	for _, t := range order {
		switch t.op {
		case "var":
			if !seen[t.s] {
				seen[t.s] = true
				fmt.Fprintf(&b, "(declare-fun %s () %s)\n", smtSym(t.s), smtSort(t.sort))
			}
		case "app":
			if !seen["f:"+t.s] {
				seen["f:"+t.s] = true
				fmt.Fprintf(&b, "(declare-fun %s (", smtSym(t.s))
				for i, a := range t.args {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(smtSort(a.sort))
				}
				fmt.Fprintf(&b, ") %s)\n", smtSort(t.sort))
			}
		}
	}
	// shared subterms
	names := map[*Term]string{}
	n := 0
	for _, t := range order {
		if refs[t] > 1 && len(t.args) > 0 && !hasBound[t] && t.op != "forall" && t.op != "exists" {
			n++
			fmt.Fprintf(&b, "(define-fun t%d () %s ", n, smtSort(t.sort))
			writeTerm(&b, t, names, 0)
			b.WriteString(")\n")
			names[t] = fmt.Sprintf("t%d", n)
		}
	}
	for _, t := range facts {
		b.WriteString("(assert ")
		writeTerm(&b, t, names, 1)
		b.WriteString(")\n")
	}
	b.WriteString("(assert ")
	writeTerm(&b, negGoal, names, 1)
	b.WriteString(")\n(check-sat)\n")
	if wantModel {
		b.WriteString("(get-model)\n")
	}
	return b.String()
}

type SolveResult struct {
	Status string // unsat, sat, unknown
	Solver string
	Time   float64
	Model  string
	Script string
	ByAll  map[string]string
}

type solverCmd struct {
	name string
	args func(file string, timeout int) []string
	pre  func(script string) string
}

func ident(s string) string { return s }

var solvers = []solverCmd{
	{"z3-new", func(f string, t int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", t), f} }, ident},
	{"cvc5", func(f string, t int) []string {
		return []string{"cvc5", "--strings-exp", "--produce-models", fmt.Sprintf("--tlimit=%d", t*1000), f}
	}, ident},
	{"z3", func(f string, t int) []string { return []string{"z3", fmt.Sprintf("-T:%d", t), f} }, ident},
}

var (
	tmpDir      string
	fileCtr     int
	fileMu      sync.Mutex
	solverTime  float64
	solverCalls int
	procSem     = make(chan struct{}, 8)
)

func runSolver(ctx context.Context, sc solverCmd, script string, timeout int) (string, string) {
	fileMu.Lock()
	fileCtr++
	f := filepath.Join(tmpDir, fmt.Sprintf("q%d-%s.smt2", fileCtr, sc.name))
	fileMu.Unlock()
	os.WriteFile(f, []byte(sc.pre(script)), 0o644)
	defer os.Remove(f)
	select {
	case procSem <- struct{}{}:
	case <-ctx.Done():
		return "unknown", ""
	}
	defer func() { <-procSem }()
	if ctx.Err() != nil {
		return "unknown", ""
	}
	start := time.Now()
	c2, cancel := context.WithTimeout(ctx, time.Duration(timeout+2)*time.Second)
	defer cancel()
	a := sc.args(f, timeout)
	cmd := exec.CommandContext(c2, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	fileMu.Lock()
	solverTime += time.Since(start).Seconds()
	solverCalls++
	fileMu.Unlock()
	s := out.String()
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	switch first {
	case "unsat", "sat":
		return first, s
	}
	if strings.Contains(s, "error") && os.Getenv("GVC_DEBUG") != "" && !strings.Contains(first, "unknown") && !strings.Contains(first, "timeout") {
		fmt.Fprintf(os.Stderr, "solver %s: %s\n", sc.name, strings.SplitN(s, "\n", 3)[0])
		os.WriteFile("/tmp/gvc-err-"+sc.name+".smt2", []byte(script), 0o644)
	}
	return "unknown", s
}

// Solve decides facts |= goal.
func Solve(facts []*Term, goal *Term, timeout int, wantModel bool, rs []*Rule) SolveResult {
	if goal == True {
		return SolveResult{Status: "unsat", Solver: "simplifier"}
	}
	smtMu.Lock()
	ng := Not(goal)
	fs := relevant(facts, ng)
	fs = append(fs, groundAxioms(fs, ng, rs)...)
	script := Script(fs, ng, wantModel)
	ground := ""
	if ab, q := abstractQuants(append(append([]*Term{}, fs...), ng)); q {
		ground = Script(ab[:len(ab)-1], ab[len(ab)-1], false)
	}
	smtMu.Unlock()
	memoMu.Lock()
	if r, ok := memo[script]; ok {
		memoMu.Unlock()
		return r
	}
	memoMu.Unlock()
	r := SolveResult{}
	if ground != "" {
		st := time.Now()
		t := timeout / 2
		if t < 2 {
			t = 2
		}
		if solveScriptQuick(ground, 2) {
			r = SolveResult{Status: "unsat", Solver: solvers[0].name + " (instantiated)", Time: time.Since(st).Seconds(), Script: ground}
		} else if r = solveSplit(facts, goal, timeout, rs); r.Status == "unsat" {
		} else if r = solveScript(ground, t); r.Status == "unsat" {
			r.Solver += " (instantiated)"
		} else {
			r = solveScript(script, timeout)
			r.Time = time.Since(st).Seconds()
		}
	} else {
		st := time.Now()
		if solveScriptQuick(script, 2) {
			r = SolveResult{Status: "unsat", Solver: solvers[0].name, Time: time.Since(st).Seconds(), Script: script}
		} else if r = solveSplit(facts, goal, timeout, rs); r.Status != "unsat" {
			r = solveScript(script, timeout)
			r.Time = time.Since(st).Seconds()
		}
	}
	memoMu.Lock()
	memo[script] = r
	memoMu.Unlock()
	return r
}

var quickSolver = func(ms int) solverCmd {
	return solverCmd{"z3-new", func(f string, t int) []string {
		return []string{"z3-new", fmt.Sprintf("-t:%d", ms), fmt.Sprintf("-T:%d", t), f}
	}, ident}
}

func solveScriptMs(script string, ms int) bool {
	st, _ := runSolver(context.Background(), quickSolver(ms), script, ms/1000+1)
	return st == "unsat"
}

func solveScriptQuick(script string, timeout int) bool {
	st, _ := runSolver(context.Background(), solvers[0], script, timeout)
	return st == "unsat"
}

func solveScript(script string, timeout int) SolveResult {
	res := SolveResult{Status: "unknown", Script: script, ByAll: map[string]string{}}
	start := time.Now()
	// quick attempt
	quick := 2
	if timeout < quick {
		quick = timeout
	}
	st, out := runSolver(context.Background(), solvers[0], script, quick)
	if st == "unsat" {
		return SolveResult{Status: st, Solver: solvers[0].name, Time: time.Since(start).Seconds(), Script: script}
	}
	res.ByAll[solvers[0].name] = st
	if st == "sat" {
		res.Status, res.Model, res.Solver = st, out, solvers[0].name
		// a second opinion is cheap: solvers disagree only on bugs
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct {
		name, st, out string
	}
	ch := make(chan r, len(solvers))
	cnt := 0
	for i, sc := range solvers {
		if i == 0 && (st == "sat" || timeout <= quick) {
			continue
		}
		cnt++
		go func(sc solverCmd) {
			s, o := runSolver(ctx, sc, script, timeout)
			ch <- r{sc.name, s, o}
		}(sc)
	}
	for i := 0; i < cnt; i++ {
		x := <-ch
		res.ByAll[x.name] = x.st
		if x.st == "unsat" && res.Status != "sat" {
			res.Status, res.Solver = "unsat", x.name
			break
		}
		if x.st == "sat" {
			if res.Status != "sat" {
				res.Status, res.Model, res.Solver = "sat", x.out, x.name
			}
			break
		}
	}
	res.Time = time.Since(start).Seconds()
	return res
}

var smtMu sync.Mutex

// relevant keeps the facts that share symbols with the goal (transitively). Dropping facts is sound.
func relevant(facts []*Term, goal *Term) []*Term {
	if os.Getenv("GVC_NOSLICE") != "" {
		return append([]*Term{}, facts...)
	}
	symMemo := map[*Term]map[string]bool{}
	var syms func(t *Term) map[string]bool
	syms = func(t *Term) map[string]bool {
		if m, ok := symMemo[t]; ok {
			return m
		}
		m := map[string]bool{}
		var rec func(t *Term)
		seen := map[*Term]bool{}
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "var" && t != NilT {
				m[t.s] = true
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		symMemo[t] = m
		return m
	}
	need := map[string]bool{}
	for s := range syms(goal) {
		need[s] = true
	}
	used := make([]bool, len(facts))
	for changed := true; changed; {
		changed = false
		for i, f := range facts {
			if used[i] {
				continue
			}
			fsy := syms(f)
			hit := len(fsy) == 0
			for s := range fsy {
				if need[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for s := range fsy {
					need[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, f := range facts {
		if used[i] && f != True {
			out = append(out, f)
		}
	}
	return out
}

// freeBound: does the term contain bound variables without their quantifier?
var freeMemo = map[*Term][]*Term{}

func freeBound(t *Term) []*Term {
	if t.op == "bound" {
		return []*Term{t}
	}
	if len(t.args) == 0 {
		return nil
	}
	if r, ok := freeMemo[t]; ok {
		return r
	}
	var out []*Term
	for _, a := range t.args {
		for _, b := range freeBound(a) {
			dup := false
			for _, c := range out {
				dup = dup || c == b
			}
			if !dup {
				out = append(out, b)
			}
		}
	}
	if t.op == "forall" || t.op == "exists" {
		var o2 []*Term
		for _, b := range out {
			if b != t.args[0] {
				o2 = append(o2, b)
			}
		}
		out = o2
	}
	freeMemo[t] = out
	return out
}

// collect returns all closed subterms of the terms (also those inside of quantifiers).
func collect(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		if t.op != "bound" && len(freeBound(t)) == 0 {
			out = append(out, t)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// abstractQuants replaces closed quantified formulas by propositional variables (weaker facts, so sound for unsat).
func abstractQuants(ts []*Term) ([]*Term, bool) {
	any := false
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == "forall" || t.op == "exists" {
			any = true
			r = Var(fmt.Sprintf("Q!%d", t.id), SBool)
		} else {
			na := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				na[i] = rec(a)
				ch = ch || na[i] != a
			}
			r = t
			if ch {
				r = Rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	var out []*Term
	for _, t := range ts {
		out = append(out, rec(t))
	}
	return out, any
}
