package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Case splits: a query that the solvers do not decide directly is divided along the branch conditions of the code. Each
// case is the same query plus one literal, simplified with it, so all cases together are the query itself.

type splitLit struct {
	atom *Term
	val  bool
}

// literals of the fact: atoms that are known to be true or false.
func literals(f *Term, val bool, out map[*Term]*Term) {
	switch {
	case f.op == "not":
		literals(f.args[0], !val, out)
	case f.op == "and" && val:
		for _, a := range f.args {
			literals(a, true, out)
		}
	case f.op == "or" && !val:
		for _, a := range f.args {
			literals(a, false, out)
		}
	case f.op == "true" || f.op == "false" || f.op == "forall" || f.op == "exists":
	default:
		if len(freeBound(f)) == 0 {
			out[f] = Bool(val)
			if val && f.op == "=" && f.args[0].sort != SBool {
				switch {
				case f.args[0].isConst() && !f.args[1].isConst():
					out[f.args[1]] = f.args[0]
				case f.args[1].isConst() && !f.args[0].isConst():
					out[f.args[0]] = f.args[1]
				}
			}
			if c := Not(f); c.op != "not" {
				out[c] = Bool(!val)
			}
		}
	}
}

// assumeLits simplifies the query with the literals; closed is true if a contradiction was found.
func assumeLits(facts []*Term, ng *Term, lits []splitLit) (nf []*Term, nng *Term, closed bool) {
	all := append(append([]*Term{}, facts...), ng)
	known := map[*Term]*Term{}
	for _, l := range lits {
		literals(l.atom, l.val, known)
	}
	for round := 0; round < 6; round++ {
		m := map[*Term]*Term{}
		for a, v := range known {
			m[a] = v
		}
		changed := false
		next := make([]*Term, len(all))
		for i, f := range all {
			// the fact itself must not be replaced by true because of its own literals
			n := substBelow(f, m)
			if n != f {
				changed = true
			}
			next[i] = n
			if n == False {
				return nil, nil, true
			}
		}
		all = next
		for _, f := range all {
			lm := map[*Term]*Term{}
			literals(f, true, lm)
			for a, v := range lm {
				if k, ok := known[a]; ok {
					if k != v {
						return nil, nil, true
					}
					continue
				}
				known[a] = v
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	seen := map[*Term]bool{}
	for _, f := range all[:len(all)-1] {
		if f != True && !seen[f] {
			seen[f] = true
			nf = append(nf, f)
		}
	}
	// the literals themselves
	for _, l := range lits {
		t := l.atom
		if !l.val {
			t = Not(t)
		}
		if !seen[t] {
			seen[t] = true
			nf = append(nf, t)
		}
	}
	return nf, all[len(all)-1], false
}

// substBelow substitutes within the fact but keeps literals that are the fact itself.
func substBelow(f *Term, m map[*Term]*Term) *Term {
	if f.op == "and" {
		na := make([]*Term, len(f.args))
		for i, a := range f.args {
			na[i] = substBelow(a, m)
		}
		return And(na...)
	}
	if f.op == "not" && f.args[0].op == "or" {
		na := make([]*Term, len(f.args[0].args))
		for i, a := range f.args[0].args {
			na[i] = substBelow(Not(a), m)
		}
		return And(na...)
	}
	if v, ok := m[f]; ok {
		if v == False {
			return False
		}
		return f
	}
	if f.op == "not" {
		if v, ok := m[f.args[0]]; ok {
			if v == True {
				return False
			}
			return f
		}
	}
	return Subst(f, m)
}

// branchAtom chooses the atom to split on.
func branchAtom(facts []*Term, ng *Term) *Term {
	score := map[*Term]int{}
	uses := map[*Term]int{}
	seen := map[*Term]bool{}
	var order []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			uses[a]++
			rec(a)
		}
		order = append(order, t)
	}
	rec(ng)
	inGoal := len(order)
	for _, f := range facts {
		rec(f)
	}
	var atoms func(t *Term, w int, d int)
	atoms = func(t *Term, w int, d int) {
		if len(freeBound(t)) > 0 || d > 4 {
			return
		}
		switch t.op {
		case "not", "and", "or", "=>":
			for _, a := range t.args {
				atoms(a, w, d+1)
			}
		case "true", "false", "forall", "exists":
		default:
			score[t] += w
		}
	}
	for i, t := range order {
		switch t.op {
		case "ite":
			w := 2
			if i < inGoal {
				w = 20
			}
			if t.sort.IsArray() {
				w = 10
			}
			atoms(t.args[0], w, 0)
		case "or", "=>":
			atoms(t, 1, 0)
		}
	}
	var cand []*Term
	for t := range score {
		cand = append(cand, t)
	}
	sort.Slice(cand, func(i, j int) bool {
		if score[cand[i]] != score[cand[j]] {
			return score[cand[i]] > score[cand[j]]
		}
		return cand[i].id < cand[j].id
	})
	if len(cand) == 0 || score[cand[0]] < 2 {
		return nil
	}
	return cand[0]
}

// solveSplit tries to decide facts |= goal by case splits.
func solveSplit(facts []*Term, goal *Term, timeout int, rs []*Rule) SolveResult {
	deadline := time.Now().Add(time.Duration(timeout) * time.Second)
	var leaves int32
	var failed atomic.Bool
	smtMu.Lock()
	ng0 := Not(goal)
	fs0 := relevant(facts, ng0)
	smtMu.Unlock()
	sem := make(chan struct{}, 8)
	dbg := os.Getenv("GVC_SPLIT") != ""
	var solve func(fs []*Term, ng *Term, lits []splitLit, depth int)
	solve = func(fs []*Term, ng *Term, path []splitLit, depth int) {
		lits := path
		if len(path) > 0 {
			lits = path[len(path)-1:]
		}
		if failed.Load() {
			return
		}
		if time.Now().After(deadline) {
			failed.Store(true)
			return
		}
		smtMu.Lock()
		t0 := time.Now()
		nf, nng, closed := assumeLits(fs, ng, lits)
		var script string
		if !closed {
			nf = relevant(nf, nng)
			g := append(append([]*Term{}, nf...), groundAxioms(nf, nng, rs)...)
			ab, _ := abstractQuants(append(g, nng))
			script = Script(ab[:len(ab)-1], ab[len(ab)-1], false)
			if dbg {
				println("case", depth, "facts", len(nf), "instances", len(g), "size", len(script), "ms", time.Since(t0).Milliseconds())
			}
		}
		smtMu.Unlock()
		atomic.AddInt32(&leaves, 1)
		if closed {
			return
		}
		ms := 400
		if depth >= 6 {
			ms = 1000
		}
		sem <- struct{}{}
		r := solveScriptMs(script, ms)
		<-sem
		if dbg && depth >= 8 {
			pp := ""
			for _, l := range path {
				pp += fmt.Sprintf(" | %.70s %v", l.atom.str(), l.val)
			}
			println("DEEP", r, depth, pp)
		}
		if r {
			return
		}
		if atomic.LoadInt32(&leaves) > 600 {
			failed.Store(true)
			return
		}
		smtMu.Lock()
		a := branchAtom(nf, nng)
		smtMu.Unlock()
		if a == nil && depth == 0 {
			failed.Store(true)
			return
		}
		if a == nil || depth >= 12 {
			if dbg {
				os.WriteFile(fmt.Sprintf("/tmp/w/split-%d.smt2", len(script)), []byte(script), 0o644)
			}
			// last chance: all solvers
			t := int(time.Until(deadline).Seconds())
			if t > 10 {
				t = 10
			}
			if t > 0 && solveScript(script, t).Status == "unsat" {
				return
			}
			if dbg {
				println("split: open case at depth", depth)
				for _, l := range path {
					println("   ", l.atom.str(), l.val)
				}
			}
			failed.Store(true)
			return
		}
		var wg sync.WaitGroup
		for _, v := range []bool{true, false} {
			wg.Add(1)
			go func(v bool) {
				defer wg.Done()
				solve(nf, nng, append(append([]splitLit{}, path...), splitLit{a, v}), depth+1)
			}(v)
		}
		wg.Wait()
	}
	start := time.Now()
	solve(fs0, ng0, nil, 0)
	res := SolveResult{Status: "unknown", Time: time.Since(start).Seconds()}
	if !failed.Load() {
		res.Status, res.Solver = "unsat", "z3-new (instantiated, cases)"
	}
	if dbg {
		println("split:", leaves, "cases", res.Status, int(res.Time), "s")
	}
	return res
}
