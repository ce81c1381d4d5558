package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bindParams gives contract names to the arguments.
func (ex *Exec) bindParams(fs *FuncSpec, sig *types.Signature, recv *SVal, args []Val) map[string]SVal {
	var vs []SVal
	pts := sigParams(sig)
	if recv != nil {
		vs = append(vs, *recv)
		// the signature of an interface method has the interface as receiver
		pts = pts[len(pts)-sig.Params().Len():]
		for i, a := range args {
			vs = append(vs, SVal{a.t, pts[i]})
		}
	} else {
		off := 0
		if len(pts) < len(args) {
			panic(Unsupported{"arity of " + fs.key})
		}
		for i, a := range args {
			vs = append(vs, SVal{a.t, pts[off+i]})
		}
	}
	m := map[string]SVal{}
	if len(fs.params) > 0 {
		if len(fs.params) != len(vs) {
			panic(SpecError{fmt.Sprintf("%s:%d: %s has %d parameters (with receiver)", fs.file, fs.line, fs.key, len(vs))})
		}
		for i, p := range fs.params {
			m[p.name] = vs[i]
		}
		return m
	}
	return m
}

func (ex *Exec) bindResults(m map[string]SVal, fs *FuncSpec, sig *types.Signature, res []*Term) {
	for i, r := range res {
		gt := sig.Results().At(i).Type()
		v := SVal{r, gt}
		if i < len(fs.results) {
			m[fs.results[i].name] = v
		} else if n := sig.Results().At(i).Name(); n != "" && n != "_" {
			m[n] = v
		}
		if i == 0 {
			if _, ok := m["result"]; !ok {
				m["result"] = v
			}
		}
		m[fmt.Sprintf("result%d", i)] = v
	}
}

func (ex *Exec) applyContract(fr *Frame, st *State, fs *FuncSpec, sig *types.Signature, recv *SVal, args []Val, in ssa.Instruction) (Val, *State) {
	if ex.dry == 0 {
		if fs.extern {
			t := fs.key
			if fs.note != "" {
				t += " (" + fs.note + ")"
			}
			ex.trusted["contract of "+t] = true
		} else {
			ex.underC[fs.key] = true
		}
	}
	vars := ex.bindParams(fs, sig, recv, args)
	old := st.clone()
	pkg := fnPkg(fr.fn)
	ev := &Env{ex: ex, st: st, old: old, vars: vars, ovars: vars, pkg: pkg}
	for _, r := range fs.requires {
		lbl := r.label
		if lbl == "" {
			lbl = r.e.String()
		}
		ex.check("precondition of "+fs.key, lbl, st, ev.bool(r.e), in.Pos())
	}
	if st.dead() {
		return Val{}, st
	}
	if fs.exits {
		return Val{}, &State{pc: False}
	}
	for _, m := range fs.modifies {
		ex.havocMod(ev, m, st)
	}
	n := sig.Results().Len()
	var res []*Term
	if fs.pure {
		var at []*Term
		if recv != nil {
			at = append(at, recv.t)
		}
		for _, a := range args {
			at = append(at, a.t)
		}
		res = ex.pureApp(fs, sig, at)
	} else {
		ptr := false
		for i := 0; i < n; i++ {
			switch sig.Results().At(i).Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan:
				ptr = true
			}
		}
		for _, m := range fs.modifies {
			if _, ghost := ex.ghostSort[m.s]; !ghost || !fs.extern {
				ptr = true // what is written may refer to new objects
			}
		}
		if ptr {
			na := FreshV("alloc", SInt)
			ex.assume(st, Le(ex.get(st, "$alloc"), na))
			st.v["$alloc"] = na
		}
		for i := 0; i < n; i++ {
			gt := sig.Results().At(i).Type()
			t := FreshV("r!"+lastPart(fs.key), sortOf(gt))
			ex.typeFacts(st, t, gt)
			res = append(res, t)
		}
	}
	ev2 := &Env{ex: ex, st: st, old: old, vars: cloneVars(vars), ovars: vars, pkg: pkg}
	ex.bindResults(ev2.vars, fs, sig, res)
	for _, g := range fs.ghostInit {
		if fs.extern {
			n := *ev2
			n.st = old
			ex.ghostSetIn(&n, ev2, g, st)
		}
	}
	for _, e := range fs.ensures {
		ex.assume(st, ev2.bool(e.e))
	}
	if n == 1 {
		return Val{t: res[0]}, st
	}
	return Val{tuple: res}, st
}

// ghostSetIn evaluates a ghost assignment of an external contract (right-hand side in the state before the call).
func (ex *Exec) ghostSetIn(old, ev *Env, g GhostSet, st *State) {
	n := *ev
	n.st = old.st
	if _, ok := ex.ghostSort[g.target.s]; !ok {
		panic(SpecError{"unknown ghost " + g.target.s})
	}
	v := n.coerce(g.e, n.eval(g.e), ex.ghostSort[g.target.s])
	st.v["$"+g.target.s] = v.t
}

func lastPart(k string) string { return k[strings.LastIndex(k, ".")+1:] }

// havocMod forgets what a callee may modify.
func (ex *Exec) havocMod(ev *Env, m *Expr, st *State) {
	ks, places := ex.modTargets(ev, m)
	for _, k := range ks {
		s, ok := ex.keySort[k]
		if !ok {
			panic(SpecError{"modifies unknown " + k})
		}
		st.v[k] = heapVar(k, FreshV("m!"+short(k), s))
		ex.wrote(st, k, nil, nil, nil)
	}
	for _, p := range places {
		if p.strukt {
			si := structInfo(p.typ)
			if si == nil {
				key := "h:*" + typeKey(p.typ)
				ex.declare(key, ArrayOf(SInt, sortOf(p.typ)))
				ex.store(st, p, FreshV("m!", sortOf(p.typ)))
				continue
			}
			for i, f := range si.fields {
				ex.store(st, ex.fieldPlace(p, p.typ, i), FreshV("m!"+f.name, sortOf(f.gt)))
			}
			continue
		}
		if p.typ == nil {
			_, v := ex.keySort[p.base].ArrayParts()
			ex.store(st, p, heapVar(p.base, FreshV("m!"+short(p.base), v)))
			continue
		}
		ex.store(st, p, FreshV("m!", sortOf(p.typ)))
	}
}

// modTargets lists the state entries and places a modifies item denotes.
func (ex *Exec) modTargets(ev *Env, m *Expr) ([]string, []*Place) {
	switch m.op {
	case "id":
		if _, ok := ex.ghostSort[m.s]; ok {
			return []string{"$" + m.s}, nil
		}
	case "sel":
		if n, ok := dotted(m); ok {
			if k, p := ex.globalPlace(ev, n); k != "" {
				_ = p
				return []string{k}, nil
			}
		}
		base := ev.eval(m.args[0])
		if p, ok := under(base.gt).(*types.Pointer); ok {
			st := p.Elem().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == m.s {
					return nil, []*Place{ex.fieldPlace(ex.derefPlace(base.t, p.Elem()), p.Elem(), i)}
				}
			}
		}
	case "call":
		n, _ := dotted(m.args[0])
		switch n {
		case "deref":
			v := ev.eval(m.args[1])
			p := under(v.gt).(*types.Pointer)
			return nil, []*Place{ex.derefPlace(v.t, p.Elem())}
		case "heap":
			name := m.args[1].s
			if m.args[1].op != "str" {
				name, _ = dotted(m.args[1])
			}
			k := strings.LastIndex(name, ".")
			ex.heapByName(ev.st, name)
			return []string{"h:" + typeKey(ex.lookupType(name[:k])) + "." + name[k+1:]}, nil
		case "mapsof": // all maps of a type
			mt, ok := ex.lookupType(m.args[1].s).(*types.Map)
			if !ok {
				panic(SpecError{"mapsof needs a map type"})
			}
			d, vv := ex.mapHeaps(mt)
			return []string{d, vv, ex.mapLenHeap(mt)}, nil
		case "mapof":
			v := ev.eval(m.args[1])
			mt := under(v.gt).(*types.Map)
			d, vv := ex.mapHeaps(mt)
			l := ex.mapLenHeap(mt)
			var ps []*Place
			for _, k := range []string{d, vv, l} {
				ps = append(ps, &Place{base: k, ref: v.t, typ: nil})
			}
			return nil, ps
		}
	}
	panic(SpecError{fmt.Sprintf("cannot modify %s", m)})
}

func (ex *Exec) globalPlace(ev *Env, name string) (string, *Place) {
	k := strings.LastIndex(name, ".")
	if k < 0 {
		return "", nil
	}
	for _, p := range ex.prog.AllPackages() {
		if p.Pkg != nil && shortPkg(p.Pkg) == name[:k] {
			if g, ok := p.Members[name[k+1:]].(*ssa.Global); ok {
				elem := g.Type().(*types.Pointer).Elem()
				key := globalKey(g)
				ex.declare(key, sortOf(elem))
				return key, &Place{base: key, typ: elem}
			}
		}
	}
	return "", nil
}

// verifyFunc generates the obligations of one function under contract.
func (ex *Exec) verifyFunc(key string, safety bool) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Unsupported:
				err = fmt.Errorf("outside of the verifier's reach: %s", x.msg)
			case SpecError:
				err = fmt.Errorf("contract cannot be evaluated: %s", x.msg)
			default:
				if os.Getenv("GVC_PANIC") != "" {
					panic(r)
				}
				err = fmt.Errorf("internal error of the verifier: %v", r)
			}
		}
	}()
	fn := ex.fns[key]
	if fn == nil {
		return fmt.Errorf("function %s does not exist any more", key)
	}
	fs := ex.spec.funcs[key]
	if fs == nil {
		fs = &FuncSpec{key: key, loops: map[int][]Clause{}, loopSets: map[int][]GhostSet{}, loopAsm: map[int][]*Expr{}}
	}
	ex.topKey = key
	ex.topRules = ex.rulesFor(fs)
	ex.safety = safety
	ex.autoCands = fs.cands || safety
	ex.facts = nil
	ex.factSeen = map[*Term]bool{}
	ex.stack = []*ssa.Function{fn}
	ex.dry = 0
	freshCtr = map[string]int{}
	st := &State{pc: True, v: map[string]*Term{}}
	ex.thread, ex.shared, ex.threadReads, ex.theChan, ex.theWG, ex.again = nil, map[string]bool{}, map[string]bool{}, nil, nil, false
	ex.aliasBroken = map[string]bool{}
	if ex.racy == nil {
		ex.racy = map[string]bool{}
	}
	ex.keySort[runningKey] = SBool
	st.v[runningKey] = False
	ex.keySort["$alloc"] = SInt
	ex.assume(st, Lt(Int(0), ex.get(st, "$alloc")))
	fr := ex.newFrame(fn, fn.Name(), nil)
	fr.spec = fs
	ex.top = fr
	var args []Val
	for i, p := range fn.Params {
		name := p.Name()
		if name == "" || name == "_" {
			name = fmt.Sprintf("p%d", i)
		}
		t := FreshV("in!"+name, sortOf(p.Type()))
		fr.regs[p] = Val{t: t}
		args = append(args, Val{t: t})
		ex.typeFacts(st, t, p.Type())
	}
	for _, fv := range fn.FreeVars {
		elem := fv.Type().(*types.Pointer).Elem()
		k := "c:fv:" + fv.Name()
		ex.keySort[k] = sortOf(elem)
		t := FreshV("fv!"+fv.Name(), sortOf(elem))
		st.v[k] = t
		fr.regs[fv] = Val{t: placeTerm(&Place{base: k, typ: elem})}
		ex.typeFacts(st, t, elem)
	}
	vars := ex.bindParams(fs, fn.Signature, nil, args)
	for i, p := range fn.Params {
		if _, ok := vars[p.Name()]; !ok && len(fs.params) == 0 {
			vars[p.Name()] = SVal{args[i].t, p.Type()}
		}
	}
	fr.params = vars
	for _, g := range ex.globalFacts {
		ex.assume(st, g)
	}
	ng := len(ex.globalFacts)
	fr.entry = st.clone()
	ev := &Env{ex: ex, st: st, old: fr.entry, vars: vars, ovars: vars, pkg: fnPkg(fn), frame: fr}
	for _, r := range fs.requires {
		ex.assume(st, ev.bool(r.e))
	}
	for _, g := range fs.ghostInit {
		ex.ghostSet(ev, g, st)
	}
	// the requirements must be satisfiable
	ex.oblige(&Obl{kind: "vacuity", label: "preconditions are satisfiable"}, st, False)
	if fs.induct != "" {
		ex.inductHyp(fs, fn, vars, st)
	}
	ex.run(fr, nil, fn.Blocks[0], st.clone(), nil)
	live := false
	for _, r := range fr.returns {
		if r.st.dead() {
			continue
		}
		live = true
		rv := cloneVars(vars)
		ex.bindResults(rv, fs, fn.Signature, r.vals)
		e2 := &Env{ex: ex, st: r.st, old: fr.entry, vars: rv, ovars: vars, pkg: fnPkg(fn), frame: fr}
		nf := len(ex.facts)
		for _, a := range fs.asserts {
			ex.check("assert", labelOf(a), r.st, e2.bool(a.e), 0)
		}
		for _, c := range fs.ensures {
			ex.oblige(&Obl{kind: "ensures", label: labelOf(c), pos: "return " + r.pos}, r.st, e2.bool(c.e))
		}
		if !fs.noframe {
			ex.frameCheck(fr, fs, e2, r)
		}
		if fs.pure {
			app := ex.pureApp(fs, fn.Signature, termsOf(args))
			_ = app
		}
		_ = nf
	}
	if !live {
		ex.note("%s never returns normally", key)
	}
	if len(ex.globalFacts) > ng {
		// constants discovered on the way
		for _, o := range ex.obls {
			if o.fn == key {
				o.facts = append(append([]*Term{}, o.facts...), ex.globalFacts[ng:]...)
			}
		}
	}
	return nil
}

func termsOf(vs []Val) []*Term {
	var out []*Term
	for _, v := range vs {
		out = append(out, v.t)
	}
	return out
}

func labelOf(c Clause) string {
	if c.label != "" {
		return c.label
	}
	return c.e.String()
}

// inductHyp is kept for contracts proved by induction over a parameter; recursion in the code itself uses the contract.
func (ex *Exec) inductHyp(fs *FuncSpec, fn *ssa.Function, vars map[string]SVal, st *State) {
	panic(SpecError{"induct is only available for lemmas"})
}

// frameCheck: everything outside of the modifies clause is unchanged.
func (ex *Exec) frameCheck(fr *Frame, fs *FuncSpec, ev *Env, r retState) {
	allowed := map[string]bool{}
	refs := map[string][]*Term{}
	oev := &Env{ex: ex, st: fr.entry, old: fr.entry, vars: fr.params, ovars: fr.params, pkg: ev.pkg, frame: nil}
	for _, m := range fs.modifies {
		ks, ps := ex.modTargets(oev, m)
		for _, k := range ks {
			allowed[k] = true
		}
		for _, p := range ps {
			if p.strukt {
				if si := structInfo(p.typ); si != nil {
					for i := range si.fields {
						fp := ex.fieldPlace(p, p.typ, i)
						refs[fp.base] = append(refs[fp.base], p.ref)
					}
				} else {
					k := "h:*" + typeKey(p.typ)
					refs[k] = append(refs[k], p.ref)
				}
				continue
			}
			if p.ref != nil {
				refs[p.base] = append(refs[p.base], p.ref)
			} else {
				allowed[p.base] = true
			}
		}
	}
	var keys []string
	for k := range r.st.v {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if !isStateKey(k) && !strings.HasPrefix(k, "c:fv:") || k == "$alloc" || allowed[k] {
			continue
		}
		if strings.HasPrefix(k, "c:fv:") {
			continue
		}
		v, o := r.st.v[k], ex.get(fr.entry, k)
		if v == o {
			continue
		}
		if strings.HasPrefix(k, "h:") {
			x := FreshV("frame!ref", SInt)
			hyp := []*Term{Le(Int(0), x), Lt(x, ex.get(fr.entry, "$alloc"))}
			for _, rf := range refs[k] {
				hyp = append(hyp, Ne(x, rf))
			}
			ex.oblige(&Obl{kind: "frame", label: k[2:] + " unchanged", pos: "return " + r.pos}, r.st, Implies(And(hyp...), Eq(Select(v, x), Select(o, x))))
			continue
		}
		ex.oblige(&Obl{kind: "frame", label: strings.TrimPrefix(k, "g:") + " unchanged", pos: "return " + r.pos}, r.st, Eq(v, o))
	}
}

// ---- lemmas and recursive spec functions

func (ex *Exec) setupSpecs() error {
	for _, g := range ex.spec.ghosts {
		s, gt := ex.resolveType(g.ty)
		ex.ghostSort[g.name] = s
		ex.ghostType[g.name] = gt
		ex.declare("$"+g.name, s)
	}
	ex.declare("$alloc", SInt)
	return nil
}

// buildRules turns recursive spec functions and lemmas into instantiation rules; lemma obligations are added on the way.
func (ex *Exec) buildRules() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Unsupported:
				err = fmt.Errorf("%s", x.msg)
			case SpecError:
				err = fmt.Errorf("%s", x.msg)
			default:
				panic(r)
			}
		}
	}()
	ex.topKey = "spec"
	ex.useRules = nil
	st := &State{pc: True, v: map[string]*Term{}}
	for _, o := range ex.spec.order {
		switch o := o.(type) {
		case *SpecFn:
			if !o.rec && !o.opaque || o.body == nil {
				continue
			}
			ev := &Env{ex: ex, st: st, vars: map[string]SVal{}}
			var vs []*Term
			for _, p := range o.params {
				s, gt := ex.resolveType(p.ty)
				b := Bound(o.name+"$"+p.name, s)
				vs = append(vs, b)
				ev.vars[p.name] = SVal{b, gt}
			}
			rs, _ := ex.resolveType(o.ret)
			app := App("spec!"+o.name, rs, vs...)
			body := ev.coerce(o.body, ev.eval(o.body), rs).t
			ex.useRules = append(ex.useRules, &Rule{name: "def " + o.name, vars: vs, triggers: []*Term{app}, body: Eq(app, body), maxGen: o.fuel, opaque: ite3(o.opaque, o.name)})
		case *Lemma:
			ex.lemma(o, st)
		}
	}
	return nil
}

func ite3(c bool, s string) string {
	if c {
		return s
	}
	return ""
}

// rulesFor leaves out the definitions of opaque specification functions the function does not reveal.
func (ex *Exec) rulesFor(fs *FuncSpec) []*Rule {
	var out []*Rule
	for _, r := range ex.useRules {
		ok := r.opaque == ""
		if fs != nil {
			for _, n := range fs.reveal {
				ok = ok || n == r.opaque
			}
		}
		if ok {
			out = append(out, r)
		}
	}
	return out
}

func (ex *Exec) lemma(l *Lemma, st *State) {
	mkEnv := func(f func(p Param, s Sort) *Term) (*Env, []*Term) {
		ev := &Env{ex: ex, st: st, vars: map[string]SVal{}}
		var vs []*Term
		for _, p := range l.params {
			s, gt := ex.resolveType(p.ty)
			t := f(p, s)
			vs = append(vs, t)
			ev.vars[p.name] = SVal{t, gt}
		}
		return ev, vs
	}
	bev, bvs := mkEnv(func(p Param, s Sort) *Term { return Bound(l.name+"$"+p.name, s) })
	var hyp, con []*Term
	for _, r := range l.requires {
		hyp = append(hyp, bev.bool(r))
	}
	for _, e := range l.ensures {
		con = append(con, bev.bool(e))
	}
	stmt := Implies(And(hyp...), And(con...))
	if !l.axiom {
		freshCtr = map[string]int{}
		sub := map[*Term]*Term{}
		var cs []*Term
		for _, b := range bvs {
			c := Fresh("lem!"+strings.ReplaceAll(b.s, "$", "."), b.sort)
			sub[b] = c
			cs = append(cs, c)
		}
		facts := []*Term{}
		for _, h := range hyp {
			facts = append(facts, Subst(h, sub))
		}
		var rs []*Rule
		for _, r := range ex.useRules {
			hidden := false
			for _, h := range l.hide {
				hidden = hidden || r.name == "def "+h || r.name == h
			}
			if !hidden {
				rs = append(rs, r)
			}
		}
		if l.induct != "" {
			name, last := l.induct, false
			if strings.HasSuffix(name, "$last") {
				name, last = strings.TrimSuffix(name, "$last"), true
			}
			k := -1
			for i, p := range l.params {
				if p.name == name {
					k = i
				}
			}
			if k < 0 {
				panic(SpecError{"lemma " + l.name + ": no parameter " + name})
			}
			c := cs[k]
			var smaller, cond *Term
			switch {
			case c.sort == SInt:
				smaller, cond = Sub(c, Int(1)), Lt(Int(0), c)
			case c.sort == SString && last:
				smaller, cond = Substr(c, Int(0), Sub(StrLen(c), Int(1))), Lt(Int(0), StrLen(c))
			case c.sort == SString:
				smaller, cond = Substr(c, Int(1), Sub(StrLen(c), Int(1))), Lt(Int(0), StrLen(c))
			case last:
				smaller, cond = SeqExtract(c, Int(0), Sub(SeqLen(c), Int(1))), Lt(Int(0), SeqLen(c))
			default:
				smaller, cond = SeqExtract(c, Int(1), Sub(SeqLen(c), Int(1))), Lt(Int(0), SeqLen(c))
			}
			// induction hypothesis for the same other parameters ...
			m := map[*Term]*Term{}
			for i, b := range bvs {
				m[b] = cs[i]
			}
			m[bvs[k]] = smaller
			facts = append(facts, Implies(cond, Subst(stmt, m)))
			// ... and for all others when there are triggers
			if len(l.triggers) > 0 {
				var ts []*Term
				m2 := map[*Term]*Term{bvs[k]: smaller}
				var others []*Term
				for i, b := range bvs {
					if i != k {
						others = append(others, b)
					}
				}
				for _, t := range l.triggers {
					ts = append(ts, Subst(bev.eval(t).t, m2))
				}
				rs = append(rs, &Rule{name: "IH " + l.name, vars: others, triggers: ts, body: Implies(cond, Subst(stmt, m2)), maxGen: 2})
			}
		}
		cev := &Env{ex: ex, st: st, vars: map[string]SVal{}}
		for i, p := range l.params {
			_, gt := ex.resolveType(p.ty)
			cev.vars[p.name] = SVal{cs[i], gt}
		}
		for _, u := range l.uses {
			if n, _ := dotted(u.args[0]); n == l.name && l.induct != "" {
				// induction hypothesis for a smaller parameter
				k := -1
				for i, p := range l.params {
					if p.name == strings.TrimSuffix(l.induct, "$last") {
						k = i
					}
				}
				m := map[*Term]*Term{}
				for i, a := range u.args[1:] {
					m[bvs[i]] = cev.coerce(a, cev.eval(a), bvs[i].sort).t
				}
				less := And(Le(Int(0), m[bvs[k]]), Lt(m[bvs[k]], cs[k]))
				if cs[k].sort != SInt {
					less = Lt(Len(m[bvs[k]]), Len(cs[k]))
				}
				facts = append(facts, Implies(less, Subst(stmt, m)))
				continue
			}
			facts = append(facts, ex.lemmaInstance(cev, u))
		}
		for i, e := range con {
			o := &Obl{fn: "lemma " + l.name, kind: "lemma", label: l.ensures[i].String(), facts: facts, pc: True, goal: Subst(e, sub), rules: rs}
			ex.obls = append(ex.obls, o)
			facts = append(facts[:len(facts):len(facts)], Subst(e, sub))
		}
	} else {
		t := "axiom " + l.name
		if l.note != "" {
			t += ": " + l.note
		}
		ex.trusted[t] = true
	}
	ex.lemmas[l.name] = &lemmaInfo{l, bvs, stmt}
	if len(bvs) == 0 {
		ex.globalFacts = append(ex.globalFacts, stmt)
	}
	if len(l.triggers) > 0 {
		var ts []*Term
		for _, t := range l.triggers {
			ts = append(ts, bev.eval(t).t)
		}
		ex.useRules = append(ex.useRules, &Rule{name: l.name, vars: bvs, triggers: ts, body: stmt, maxGen: 4})
	}
}

type lemmaInfo struct {
	l    *Lemma
	vars []*Term
	stmt *Term
}

func (ex *Exec) lemmaInstance(ev *Env, u *Expr) *Term {
	n, _ := dotted(u.args[0])
	li := ex.lemmas[n]
	if li == nil {
		specErr(u, "unknown lemma %s", n)
	}
	m := map[*Term]*Term{}
	for i, a := range u.args[1:] {
		m[li.vars[i]] = ev.coerce(a, ev.eval(a), li.vars[i].sort).t
	}
	return Subst(li.stmt, m)
}

// pureByName finds a pure function contract by alias or (suffix of its) key.
func (ex *Exec) pureByName(name string) (*FuncSpec, *types.Signature) {
	var best *FuncSpec
	for k, f := range ex.spec.funcs {
		if !f.pure {
			continue
		}
		if f.alias == name || f.alias2 == name || k == name || strings.HasSuffix(k, "/"+name) {
			if best == nil || f.key < best.key {
				best = f
			}
		}
	}
	if best == nil {
		return nil, nil
	}
	sig := ex.sigOf(best.key)
	if sig == nil {
		panic(SpecError{"no signature for " + best.key})
	}
	return best, sig
}

// sigOf finds the Go signature behind a contract key.
func (ex *Exec) sigOf(key string) *types.Signature {
	if fn := ex.fns[key]; fn != nil {
		return fn.Signature
	}
	k := strings.LastIndex(key, ".")
	pk, n := key[:k], key[k+1:]
	for _, p := range ex.prog.AllPackages() {
		if p.Pkg == nil {
			continue
		}
		if shortPkg(p.Pkg) == pk {
			if o, ok := p.Pkg.Scope().Lookup(n).(*types.Func); ok {
				return o.Type().(*types.Signature)
			}
		}
	}
	// method of a named type or interface
	if t := ex.lookupType(pk); t != nil {
		if it, ok := t.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == n {
					return it.Method(i).Type().(*types.Signature)
				}
			}
		}
		for _, tt := range []types.Type{t, types.NewPointer(t)} {
			ms := types.NewMethodSet(tt)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == n {
					return ms.At(i).Obj().Type().(*types.Signature)
				}
			}
		}
	}
	return nil
}

// ---- concurrency and filepath.Walk: see conc.go
