package main

import (
	"fmt"
	"strings"
)

// Rule is an axiom or proved lemma that is instantiated on ground terms matching its triggers.
type Rule struct {
	name     string
	vars     []*Term
	triggers []*Term
	body     *Term
	maxGen   int
	opaque   string
}

func match(p, t *Term, sub map[*Term]*Term) bool {
	if p.op == "bound" {
		if x, ok := sub[p]; ok {
			return x == t
		}
		if p.sort != t.sort {
			return false
		}
		sub[p] = t
		return true
	}
	if (p.op == "+" || p.op == "*") && p.sort == t.sort && len(p.args) > 0 {
		// sums have no fixed order of summands: compare them as soon as all variables are known
		all := true
		for _, v := range freeBound(p) {
			if _, ok := sub[v]; !ok {
				all = false
			}
		}
		if all {
			return Subst(p, sub) == t
		}
	}
	if n := len(p.args); p.op == "str.++" && t.op == "str.++" && n > 0 && len(t.args) > n && p.args[n-1].op == "bound" {
		// the last variable of a concatenation stands for the rest
		for i := range p.args[:n-1] {
			if !match(p.args[i], t.args[i], sub) {
				return false
			}
		}
		return match(p.args[n-1], Concat(t.args[n-1:]...), sub)
	}
	if p.op != t.op || p.sort != t.sort || p.s != t.s || len(p.args) != len(t.args) {
		return false
	}
	if p.i != nil && (t.i == nil || p.i.Cmp(t.i) != 0) {
		return false
	}
	for i := range p.args {
		if !match(p.args[i], t.args[i], sub) {
			return false
		}
	}
	return true
}

// groundAxioms instantiates all axioms needed for the terms occurring in facts and goal.
func groundAxioms(facts []*Term, goal *Term, rules []*Rule) []*Term {
	var out []*Term
	gen := map[*Term]int{}
	done := map[string]bool{}
	emitted := map[*Term]bool{}
	var terms []*Term
	addTerms := func(ts []*Term, g int) {
		for _, t := range collect(ts) {
			if _, ok := gen[t]; !ok {
				gen[t] = g
				terms = append(terms, t)
			}
		}
	}
	addTerms(append(append([]*Term{}, facts...), goal), 0)
	pol := map[*Term]int{}
	for _, f := range facts {
		polarity(f, 1, pol)
	}
	polarity(goal, 1, pol)
	emitP := func(t *Term, g int, pt *Term, p int) {
		if t == True || emitted[t] {
			return
		}
		emitted[t] = true
		out = append(out, t)
		polarity(pt, p, pol)
		addTerms([]*Term{t}, g)
	}
	emit := func(t *Term, g int) { emitP(t, g, t, 1) }
	// match from pos for rules is quadratic in rounds; the term sets are small
	for round := 0; round < 8; round++ {
		n := len(terms)
		start := len(out)
		byHead := map[string][]*Term{}
		for _, t := range terms[:n] {
			byHead[headKey(t)] = append(byHead[headKey(t)], t)
		}
		for _, t := range terms[:n] {
			if t.op == "forall" || t.op == "exists" {
				quantAxioms(t, byHead, emitP, gen, done, pol[t])
				continue
			}
			builtinAxioms(t, byHead, emit, gen[t])
		}
		for ri, r := range rules {
			var rec func(k int, sub map[*Term]*Term, g int)
			rec = func(k int, sub map[*Term]*Term, g int) {
				if k == len(r.triggers) {
					key := fmt.Sprintf("%d", ri)
					for _, v := range r.vars {
						x, ok := sub[v]
						if !ok {
							return
						}
						key += fmt.Sprintf(",%d", x.id)
					}
					if done[key] {
						return
					}
					done[key] = true
					emit(Subst(r.body, sub), g+1)
					return
				}
				for _, t := range byHead[headKey(r.triggers[k])] {
					tg := gen[t]
					if tg >= r.maxGen {
						continue
					}
					s2 := map[*Term]*Term{}
					for a, b := range sub {
						s2[a] = b
					}
					if match(r.triggers[k], t, s2) {
						mg := g
						if tg > mg {
							mg = tg
						}
						rec(k+1, s2, mg)
					}
				}
			}
			rec(0, map[*Term]*Term{}, 0)
			if len(out) > 4000 {
				return out
			}
		}
		if len(out) == start && len(terms) == n {
			break
		}
	}
	return out
}

// quantAxioms: witness of a closed quantified formula and its instances at the matching ground terms.
func quantAxioms(q *Term, byHead map[string][]*Term, emit func(*Term, int, *Term, int), gen map[*Term]int, done map[string]bool, pol int) {
	v, body := q.args[0], q.args[1]
	g := gen[q]
	if g >= 5 {
		return
	}
	inst := func(t *Term, g int) {
		key := fmt.Sprintf("q%d,%d", q.id, t.id)
		if done[key] {
			return
		}
		done[key] = true
		b := Subst(body, map[*Term]*Term{v: t})
		if q.op == "forall" {
			emit(Or(Not(q), b), g+1, b, 1)
		} else {
			emit(Or(q, Not(b)), g+1, b, 2)
		}
	}
	sk := Var(fmt.Sprintf("sk!%d", q.id), v.sort)
	key := fmt.Sprintf("q%d,sk", q.id)
	// a witness is needed where the formula has to be refuted (forall) or shown (exists), instances otherwise
	witness, instances := pol&2 != 0, pol&1 != 0
	if q.op == "exists" {
		witness, instances = instances, witness
	}
	if witness && !done[key] {
		done[key] = true
		b := Subst(body, map[*Term]*Term{v: sk})
		if q.op == "forall" {
			emit(Or(q, Not(b)), g, b, 2)
		} else {
			emit(Or(Not(q), b), g, b, 1)
		}
	}
	if !instances {
		return
	}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for i, a := range t.args {
			rec(a)
			if t.op == "forall" || t.op == "exists" {
				continue
			}
			var off *Term
			if a == v {
				off = Int(0)
			} else if a.op == "+" && len(a.args) == 2 && a.args[0] == v && a.args[1].isInt() {
				off = a.args[1]
			} else if a.op == "+" && len(a.args) == 2 && a.args[1] == v && a.args[0].isInt() {
				off = a.args[0]
			} else {
				continue
			}
			switch {
			case t.op == "app", t.op == "select" && i == 1, t.op == "seq.nth" && i == 1, t.op == "str.at" && i == 1, t.op == "str.prefixof", t.op == "str.contains", t.op == "seq.contains":
			default:
				continue
			}
			heads := byHead[headKey(t)]
			if t.op == "seq.nth" {
				// updates mention an index, too
				heads = append(append([]*Term{}, heads...), byHead["app|seq!upd!"+string(t.args[0].sort)]...)
			}
			for _, h := range heads {
				if i >= len(h.args) || h.args[i].sort != a.sort || h.op == t.op && len(h.args) != len(t.args) {
					continue
				}
				if h.op == t.op && t.args[0].sort != h.args[0].sort {
					continue
				}
				if h.op == "select" && t.op == "select" && !sameHeap(t.args[0], h.args[0]) {
					continue
				}
				if gen[h] >= 4 {
					continue
				}
				x := h.args[i]
				if !off.isInt() || off.i.Sign() != 0 {
					x = Sub(x, off)
				}
				inst(x, gen[h])
			}
		}
	}
	rec(body)
}

// polarity records for all formulas whether they occur positively (1) or negatively (2).
func polarity(t *Term, p int, pol map[*Term]int) {
	if t.sort != SBool || pol[t]&p == p {
		return
	}
	pol[t] |= p
	flip := p&1<<1 | p>>1&1
	switch t.op {
	case "not":
		polarity(t.args[0], flip, pol)
	case "and", "or":
		for _, a := range t.args {
			polarity(a, p, pol)
		}
	case "=>":
		polarity(t.args[0], flip, pol)
		polarity(t.args[1], p, pol)
	case "ite":
		polarity(t.args[0], 3, pol)
		polarity(t.args[1], p, pol)
		polarity(t.args[2], p, pol)
	case "forall", "exists":
	default:
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			for _, a := range t.args {
				if a.sort == SBool {
					polarity(a, 3, pol)
				} else {
					rec(a)
				}
			}
		}
		rec(t)
	}
}

// heapClass is the state entry a heap variable belongs to; it only limits which instances are tried.
var heapClass = map[*Term]string{}

func heapVar(key string, v *Term) *Term {
	if v.sort.IsArray() {
		heapClass[v] = key
	}
	return v
}

var classMemo = map[*Term]map[string]bool{}

// classesOf returns the state entries the array may come from (nil: unknown).
func classesOf(a *Term) map[string]bool {
	if m, ok := classMemo[a]; ok {
		return m
	}
	var m map[string]bool
	switch a.op {
	case "var":
		if c, ok := heapClass[a]; ok {
			m = map[string]bool{c: true}
		}
	case "select", "store":
		m = classesOf(a.args[0])
	case "ite":
		x, y := classesOf(a.args[1]), classesOf(a.args[2])
		if x != nil && y != nil {
			m = map[string]bool{}
			for k := range x {
				m[k] = true
			}
			for k := range y {
				m[k] = true
			}
		}
	}
	classMemo[a] = m
	return m
}

func sameHeap(a, b *Term) bool {
	x, y := classesOf(a), classesOf(b)
	if x == nil || y == nil {
		return true
	}
	for k := range x {
		if y[k] {
			return true
		}
	}
	return false
}

func headKey(t *Term) string { return t.op + "|" + t.s }

func builtinAxioms(t *Term, byHead map[string][]*Term, emit func(*Term, int), g int) {
	switch {
	case t.op == "app" && strings.HasPrefix(t.s, "seq!upd!"):
		s, i, v := t.args[0], t.args[1], t.args[2]
		inr := And(Le(Int(0), i), Lt(i, SeqLen(s)))
		emit(Implies(inr, Eq(mk("seq.nth", t.sort.Elem(), "", nil, t, i), v)), g+1)
		emit(Eq(mk("seq.len", SInt, "", nil, t), SeqLen(s)), g+1)
	case t.op == "seq.nth" && t.args[0].op == "app" && strings.HasPrefix(t.args[0].s, "seq!upd!"):
		u, j := t.args[0], t.args[1]
		emit(Implies(Ne(u.args[1], j), Eq(t, SeqNth(u.args[0], j))), g)
		emit(Implies(And(Eq(u.args[1], j), Le(Int(0), j), Lt(j, SeqLen(u.args[0]))), Eq(t, u.args[2])), g)
	case isBoxCtor(t):
		tag := tagOf(t.s[len("box!"):])
		emit(Eq(App("typeof", SInt, t), tag), g)
		emit(Ne2(t, NilT), g)
		emit(Eq(mk("app", t.args[0].sort, "un"+t.s, nil, t), t.args[0]), g)
	case t.op == "app" && t.s == "typeof":
		emit(mk("=", SBool, "", nil, Eq2(t.args[0], NilT), Eq2(t, Int(0))), g)
	case t.op == "app" && strings.HasPrefix(t.s, "unbox!"):
		// a value of that dynamic type is the box of its content
		name := t.s[len("unbox!"):]
		x := t.args[0]
		if !isBoxCtor(x) {
			b := mk("app", SAny, "box!"+name, nil, t)
			emit(Implies(Eq(App("typeof", SInt, x), tagOf(name)), Eq2(x, b)), g+3)
		}
	case t.op == "store":
		// helps solvers that are weak on nested arrays
	}
}

func Eq2(a, b *Term) *Term {
	if a == b {
		return True
	}
	return mk("=", SBool, "", nil, a, b)
}
func Ne2(a, b *Term) *Term { return mk("not", SBool, "", nil, Eq2(a, b)) }

var tags = map[string]int{}

func tagOf(name string) *Term {
	if _, ok := tags[name]; !ok {
		tags[name] = len(tags) + 1
	}
	return Int(int64(tags[name]))
}

func Box(name string, v *Term) *Term {
	if v.op == "app" && v.s == "unbox!"+name {
		// keep the box; equality is provided by axioms
	}
	return App("box!"+name, SAny, v)
}
func Unbox(name string, s Sort, v *Term) *Term {
	if isBoxCtor(v) && v.s == "box!"+name {
		return v.args[0]
	}
	if v.op == "ite" {
		a, b := v.args[1], v.args[2]
		if isBoxCtor(a) || isBoxCtor(b) {
			return Ite(v.args[0], Unbox(name, s, a), Unbox(name, s, b))
		}
	}
	return App("unbox!"+name, s, v)
}
func TypeOf(v *Term) *Term {
	if isBoxCtor(v) {
		return tagOf(v.s[len("box!"):])
	}
	if v == NilT {
		return Int(0)
	}
	if v.op == "ite" {
		return Ite(v.args[0], TypeOf(v.args[1]), TypeOf(v.args[2]))
	}
	return App("typeof", SInt, v)
}
