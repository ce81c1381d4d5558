package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Threads. The function under verification may start threads (go statements), send values to them over one channel
// and wait for them with a wait group. The events chan.send, chan.recv, chan.close, go.start, go.begin and go.end have
// contracts like external functions. The body of a thread is verified on its own at the go statement: whatever it
// reads from a variable that threads may write is arbitrary, except for the elements of a slice whose index the
// thread has received (ghost mine: every value is sent at most once, so at most one thread has received it), provided
// that all threads only write elements they own. Symmetrically for the starting function: until the wait group is
// waited for it only knows the elements whose index has not been sent yet (ghost sent).
type thread struct {
	key  string
	mark int
}

const runningKey = "c:conc:running"

// foreign: the state entry does not belong to the running thread alone.
func (th *thread) foreign(k string) bool {
	switch {
	case strings.HasPrefix(k, "c:tmp:"), k == runningKey, k == "$alloc", k == "$mine", k == "$drained", k == "$done":
		return false
	case strings.HasPrefix(k, "c:"+th.key+":"), strings.HasPrefix(k, "c:"+th.key+"/"):
		return false
	}
	return true
}

func (ex *Exec) running(st *State) bool {
	r, ok := st.v[runningKey]
	return ok && r != False
}

func (ex *Exec) concGhost(st *State, name string) *Term {
	if _, ok := ex.ghostSort[name]; !ok {
		panic(Unsupported{"threads need a contract with the ghost " + name})
	}
	return ex.get(st, "$"+name)
}

// event applies the contract of a thread event.
func (ex *Exec) event(fr *Frame, st *State, key string, params, results []types.Type, args []*Term, in ssa.Instruction) (Val, *State) {
	fs := ex.spec.funcs[key]
	if fs == nil {
		panic(Unsupported{key + " without a contract in " + fnKey(fr.fn)})
	}
	tuple := func(ts []types.Type) *types.Tuple {
		var vs []*types.Var
		for i, t := range ts {
			vs = append(vs, types.NewParam(0, nil, fmt.Sprintf("p%d", i), t))
		}
		return types.NewTuple(vs...)
	}
	var as []Val
	for _, a := range args {
		as = append(as, Val{t: a})
	}
	return ex.applyContract(fr, st, fs, types.NewSignatureType(nil, nil, nil, tuple(params), tuple(results), false), nil, as, in)
}

func (ex *Exec) ownKey(k string) string { return ex.topKey + "|own|" + k }
func (ex *Exec) resKey(k string) string { return ex.topKey + "|res|" + k }

// owned: may only this thread (or only the starting function) write the element?
func (ex *Exec) owned(st *State, i *Term) *Term {
	if ex.thread != nil {
		return Select(ex.concGhost(st, "mine"), i)
	}
	return Not(Select(ex.concGhost(st, "sent"), i))
}

// interfere: what other threads may have done to a variable before it is read.
func (ex *Exec) interfere(st *State, p *Place) {
	if ex.thread == nil && !ex.running(st) {
		return
	}
	if p.strukt {
		if s, ok := p.typ.Underlying().(*types.Struct); ok && structInfo(p.typ) != nil {
			for i := 0; i < s.NumFields(); i++ {
				ex.interfere(st, ex.fieldPlace(p, p.typ, i))
			}
		}
		return
	}
	k := p.base
	if ex.thread != nil {
		if !ex.thread.foreign(k) || p.ref != nil && newerThan(p.ref, ex.thread.mark) {
			return
		}
		ex.threadReads[k] = true
		if !ex.shared[k] && !ex.racy[k] {
			return
		}
	} else if !ex.shared[k] {
		return
	}
	ex.othersWrite(st, k)
}

func (ex *Exec) othersWrite(st *State, k string) {
	old := ex.get0(st, k)
	if old == nil {
		return
	}
	nv := heapVar(k, FreshV("th!"+short(k), old.sort))
	if old.sort.IsSeq() && !ex.racy[k] && !ex.dropped[ex.ownKey(k)] {
		ex.assume(st, Eq(Len(nv), Len(old)))
		i := Bound("th!i", SInt)
		n := SeqNth(nv, i)
		ex.assume(st, Forall(i, Implies(And(Le(Int(0), i), Lt(i, Len(old)), ex.owned(st, i)), Eq(n, SeqNth(old, i)))))
	}
	st.v[k] = nv
}

// wrote is called after a write to a state entry.
func (ex *Exec) wrote(st *State, k string, ref, old, nv *Term) {
	if ex.thread == nil {
		if !ex.running(st) {
			return
		}
		if ex.threadReads[k] && !ex.shared[k] && !ex.racy[k] {
			ex.racy[k] = true
			ex.again = true
		}
		if !ex.shared[k] {
			return
		}
	} else {
		if !ex.thread.foreign(k) || ref != nil && newerThan(ref, ex.thread.mark) {
			return
		}
		ex.oblige(&Obl{kind: "thread", label: "nothing shared is written after the wait group was told that the thread is done"}, st, Not(ex.concGhost(st, "done")))
	}
	if old == nil || !old.sort.IsSeq() || ex.dropped[ex.ownKey(k)] {
		return
	}
	i := Var(fmt.Sprintf("own!i!%d", nv.id), SInt)
	ex.oblige(&Obl{kind: "thread", label: "only elements the thread owns are written: " + short(k), cand: ex.ownKey(k), auto: true}, st,
		And(Eq(Len(nv), Len(old)), Implies(And(Le(Int(0), i), Lt(i, Len(old)), Not(ex.owned(st, i))), Eq(SeqNth(nv, i), SeqNth(old, i)))))
}

// threadResult: every element that belongs to a received index satisfies the spec function threadResult.
func (ex *Exec) threadResult(fr *Frame, st *State, k string, which string) *Term {
	sp := ex.spec.specs["threadResult"]
	v := ex.get0(st, k)
	if sp == nil || v == nil || !v.sort.IsSeq() || len(sp.params) != 2 {
		return nil
	}
	if s, _ := ex.resolveType(sp.params[1].ty); s != v.sort.Elem() {
		return nil
	}
	i := Bound("res!i", SInt)
	ev := &Env{ex: ex, st: st, vars: map[string]SVal{"$i": {i, types.Typ[types.Int]}, "$r": {SeqNth(v, i), nil}}, pkg: fnPkg(fr.fn)}
	e := &Expr{op: "call", args: []*Expr{{op: "id", s: "threadResult"}, {op: "id", s: "$i"}, {op: "id", s: "$r"}}}
	p := ev.specCall(e, sp, e.args[1:]).t
	return Forall(i, Implies(And(Le(Int(0), i), Lt(i, Len(v)), Select(ex.concGhost(st, which), i)), p))
}

func (ex *Exec) sharedKeys() []string {
	var out []string
	for k := range ex.shared {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// threadInvs: candidate invariants of the loops of a thread.
func (ex *Exec) threadInvs(fr *Frame, pre *State, add func(name string, f func(st *State) *Term)) {
	for _, k := range ex.sharedKeys() {
		k := k
		if pv := ex.get0(pre, k); pv != nil && pv.sort.IsSeq() {
			add("length of "+short(k), func(st *State) *Term {
				if v := ex.get0(st, k); v != nil {
					return Eq(Len(pv), Len(v))
				}
				return True
			})
		}
		if ex.thread == nil {
			continue
		}
		add("results of the received values are stored in "+short(k), func(st *State) *Term {
			t := ex.threadResult(fr, st, k, "mine")
			if t == nil {
				return True
			}
			return t
		})
	}
}

func (ex *Exec) goStmt(fr *Frame, st *State, in *ssa.Go) {
	c := &in.Call
	if c.IsInvoke() {
		panic(Unsupported{"go with an interface method in " + fnKey(fr.fn)})
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(fr, st, a))
	}
	if fn := c.StaticCallee(); fn != nil && !isMakeClosure(c.Value) {
		ex.spawn(fr, st, fn, nil, args, in)
		return
	}
	clo, ok := ex.closures[ex.val(fr, st, c.Value).t]
	if !ok {
		panic(Unsupported{"go with an unknown function in " + fnKey(fr.fn)})
	}
	ex.spawn(fr, st, clo.fn, clo.bindings, args, in)
}

func (ex *Exec) spawn(fr *Frame, st *State, fn *ssa.Function, bindings []*Term, args []Val, in ssa.Instruction) {
	if ex.thread != nil {
		panic(Unsupported{"a thread that starts a thread"})
	}
	key := fr.key + "/" + fn.Name() + "@" + instrID(in)
	ex.event(fr, st, "go.start", nil, nil, nil, in)
	run := func() {
		ts := st.clone()
		ex.thread = &thread{key: key, mark: newMark()}
		defer func() { ex.thread = nil }()
		for _, k := range ex.sharedKeys() {
			ex.othersWrite(ts, k)
		}
		as := append([]Val{}, args...)
		for i, a := range as {
			if a.origin != nil && a.origin.ref == nil && ex.shared[a.origin.base] && ex.load(st, a.origin) == a.t {
				as[i].t = ex.load(ts, a.origin)
			}
		}
		_, ts = ex.event(fr, ts, "go.begin", nil, nil, nil, in)
		start := ts.clone()
		_, ts = ex.callFn(fr, ts, fn, bindings, as, nil, in)
		if ts.dead() {
			panic(Unsupported{"a thread that never ends"})
		}
		for k, v := range ts.v {
			if !ex.thread.foreign(k) {
				continue
			}
			if o := ex.get0(start, k); o != nil && o != v {
				ex.shared[k] = true
			}
		}
		for _, k := range ex.sharedKeys() {
			if t := ex.threadResult(fr, ts, k, "mine"); t != nil && !ex.dropped[ex.resKey(k)] {
				ex.oblige(&Obl{kind: "thread", label: "results of the received values are stored in " + short(k), cand: ex.resKey(k)}, ts, t)
			}
		}
		ex.event(fr, ts, "go.end", nil, nil, nil, in)
	}
	saved := copyRegs(fr.regs)
	for n := -1; n != len(ex.shared); {
		n = len(ex.shared)
		nf := len(ex.facts)
		ex.dry++
		run()
		ex.dry--
		ex.truncFacts(nf)
		fr.regs = copyRegs(saved)
	}
	for k := range ex.shared {
		if strings.HasPrefix(k, "h:map") {
			panic(Unsupported{"a map that threads write in " + fnKey(fr.fn)})
		}
	}
	if ex.dry == 0 {
		run()
		fr.regs = saved
	}
	for _, k := range ex.sharedKeys() {
		ex.othersWrite(st, k)
	}
	st.v[runningKey] = True
}

// join: all threads have ended.
func (ex *Exec) join(fr *Frame, st *State) {
	if !ex.running(st) {
		return
	}
	for _, k := range ex.sharedKeys() {
		ex.othersWrite(st, k)
		if t := ex.threadResult(fr, st, k, "sent"); t != nil && !ex.dropped[ex.resKey(k)] && !ex.dropped[ex.ownKey(k)] {
			ex.assume(st, t)
		}
	}
	st.v[runningKey] = False
}

func (ex *Exec) send(fr *Frame, st *State, in *ssa.Send) {
	if ex.thread != nil {
		panic(Unsupported{"a thread that sends"})
	}
	ch := ex.val(fr, st, in.Chan).t
	ex.oneChan(ch)
	_, s := ex.event(fr, st, "chan.send", []types.Type{in.Chan.Type(), in.X.Type()}, nil, []*Term{ch, ex.val(fr, st, in.X).t}, in)
	if s != st {
		*st = *s
	}
}

// oneChan: all channel operations have to be on the same channel.
func (ex *Exec) oneChan(ch *Term) {
	if ex.theChan != nil && ex.theChan != ch {
		panic(Unsupported{"more than one channel"})
	}
	ex.theChan = ch
}

func (ex *Exec) recv(fr *Frame, st *State, in *ssa.UnOp) *State {
	if ex.thread == nil {
		panic(Unsupported{"channel receive outside of a thread in " + fnKey(fr.fn)})
	}
	ch := ex.val(fr, st, in.X).t
	ex.oneChan(ch)
	elem := in.X.Type().Underlying().(*types.Chan).Elem()
	r, s := ex.event(fr, st, "chan.recv", []types.Type{in.X.Type()}, []types.Type{elem, types.Typ[types.Bool]}, []*Term{ch}, in)
	if in.CommaOk {
		fr.regs[in] = r
	} else {
		fr.regs[in] = Val{t: r.tuple[0]}
	}
	return s
}

func (ex *Exec) closeChan(fr *Frame, st *State, ch *Term, t types.Type, in ssa.Instruction) *State {
	if ex.thread != nil {
		panic(Unsupported{"a thread that closes a channel"})
	}
	ex.oneChan(ch)
	_, s := ex.event(fr, st, "chan.close", []types.Type{t}, nil, []*Term{ch}, in)
	return s
}

// walk: path/filepath.Walk as a loop that calls the callback any number of times, with the facts about the visited
// entries that the contract of the calling function assumes.
func (ex *Exec) walk(fr *Frame, st *State, args []Val, in ssa.Instruction) (Val, *State) {
	clo, ok := ex.closures[args[1].t]
	if !ok {
		panic(Unsupported{"filepath.Walk with an unknown callback in " + fnKey(fr.fn)})
	}
	var w *WalkSpec
	for f := fr; f != nil && w == nil; f = f.parent {
		if f.spec != nil {
			w = f.spec.walk
		}
	}
	if w == nil {
		w = &WalkSpec{}
	}
	ex.trusted["path/filepath.Walk (calls the callback for the entries of the tree in lexical order; a directory is skipped exactly if its call returned SkipDir; facts assumed per entry: see walk in the contract)"] = true
	env := func(s *State) *Env {
		ev := ex.frameEnv(fr, s, nil, nil)
		return ev
	}
	base := fmt.Sprintf("%s|%s|walk", ex.topKey, fr.key)
	var invs []*loopInv
	for i, c := range w.invs {
		invs = append(invs, ex.invVariants(fr, nil, fmt.Sprintf("%s|inv%d", base, i), c)...)
	}
	eval := func(inv *loopInv, s *State) (t *Term, err error) {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(SpecError); ok {
					err = fmt.Errorf("%s", x.msg)
					return
				}
				panic(r)
			}
		}()
		ev := env(s)
		ev.sub = inv.sub
		return ev.bool(inv.e), nil
	}
	check := func(s *State, what string) {
		if s.dead() {
			return
		}
		for _, inv := range invs {
			if ex.dropped[inv.key] {
				continue
			}
			t, err := eval(inv, s)
			if err != nil {
				if ex.dry == 0 {
					ex.dropped[inv.key] = true
					ex.note("invariant dropped (%v)", err)
				}
				continue
			}
			lbl := inv.label
			if lbl == "" {
				lbl = inv.e.String()
			}
			ex.oblige(&Obl{kind: "invariant " + what, label: lbl, cand: inv.key, pos: fnKey(fr.fn) + " walk"}, s, t)
		}
	}
	errT := clo.fn.Signature.Results().At(0).Type()
	global := func(s *State, n string) *Term {
		v, ok := env(s).global(n)
		if !ok {
			panic(Unsupported{"no " + n})
		}
		return v.t
	}
	// one call of the callback; returns the states: next entry, end of the walk with the result
	body := func(hs *State) (back []*State, out []*State, res []*Term) {
		s := hs.clone()
		var as []Val
		vars := map[string]SVal{}
		for i, n := range []string{"$path", "$info", "$err"} {
			gt := clo.fn.Signature.Params().At(i).Type()
			t := FreshV(n[1:], sortOf(gt))
			ex.typeFacts(s, t, gt)
			as = append(as, Val{t: t})
			vars[n] = SVal{t, gt}
		}
		with := func(s *State) *Env {
			ev := env(s)
			for k, v := range vars {
				ev.vars[k] = v
			}
			return ev
		}
		for _, e := range w.assumes {
			ex.assume(s, with(s).bool(e))
		}
		skipDir, skipAll := global(s, "path/filepath.SkipDir"), global(s, "path/filepath.SkipAll")
		ex.assume(s, And(Ne(skipDir, NilT), Ne(skipAll, NilT), Ne(skipDir, skipAll), Ne(vars["$err"].t, skipDir), Ne(vars["$err"].t, skipAll)))
		r, s := ex.callFn(fr, s, clo.fn, clo.bindings, as, nil, in)
		if s.dead() {
			return
		}
		vars["$ret"] = SVal{r.t, errT}
		skip, all := Eq(r.t, skipDir), Eq(r.t, skipAll)
		vars["$skipDir"] = SVal{skip, types.Typ[types.Bool]}
		vars["$skipAll"] = SVal{all, types.Typ[types.Bool]}
		next := ex.branch(s, Or(Eq(r.t, NilT), skip))
		for _, g := range w.sets {
			if !next.dead() {
				ex.ghostSet(with(next), g, next)
			}
		}
		stop := ex.branch(s, And(Ne(r.t, NilT), Not(skip)))
		for _, g := range w.sets {
			if !stop.dead() {
				ex.ghostSet(with(stop), g, stop)
			}
		}
		if !next.dead() {
			back = append(back, next)
		}
		if !stop.dead() {
			out = append(out, stop)
			res = append(res, Ite(all, NilT, r.t))
		}
		return
	}
	pre := st.clone()
	mods := map[string]bool{}
	savedRegs := copyRegs(fr.regs)
	for iter := 0; iter < 40; iter++ {
		nf := len(ex.facts)
		hs := ex.havoc(fr, nil, pre, mods, nil)
		ex.dry++
		back, _, _ := body(hs)
		ex.dry--
		ex.truncFacts(nf)
		fr.regs = copyRegs(savedRegs)
		changed := false
		for _, b := range back {
			for k, v := range b.v {
				hv, ok := hs.v[k]
				if !ok {
					if !isStateKey(k) {
						continue
					}
					hv = ex.get(hs, k)
				}
				if v != hv && !mods[k] {
					mods[k] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	check(pre, "initial")
	hs := ex.havoc(fr, nil, pre, mods, nil)
	for _, inv := range invs {
		if ex.dropped[inv.key] {
			continue
		}
		if t, err := eval(inv, hs); err == nil {
			ex.assume(hs, t)
		}
	}
	back, outs, res := body(hs)
	for _, b := range back {
		check(b, "preserved")
	}
	// the walk ends regularly or because of the callback
	more := FreshV("walkEnds", SBool)
	s0 := ex.branch(hs, more)
	for _, e := range w.exits {
		ex.assume(s0, env(s0).bool(e))
	}
	states, vals := []*State{s0}, []*Term{NilT}
	for i, o := range outs {
		s1 := ex.branch(o, Not(more))
		if !s1.dead() {
			states = append(states, s1)
			vals = append(vals, res[i])
		}
	}
	m := ex.merge(states)
	pcs := make([]*Term, len(states))
	for i, s := range states {
		pcs[i] = s.pc
	}
	conds := relConds(pcs)
	acc := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		acc = Ite(conds[i], vals[i], acc)
	}
	return Val{t: acc}, m
}
