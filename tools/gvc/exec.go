package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Unsupported struct{ msg string }

type Val struct {
	t      *Term
	tuple  []*Term
	origin *Place // where a loaded value came from
}

// Obl is one proof obligation.
type Obl struct {
	fn      string
	kind    string // ensures, requires, frame, safety, invariant, lemma, assert, channel
	label   string
	pos     string
	facts   []*Term
	pc      *Term
	goal    *Term
	cand    string // key of the candidate invariant this obligation belongs to
	auto    bool   // automatically generated candidate
	foreign bool   // invariant of another loop
	rules   []*Rule
	res     SolveResult
	solved  bool
}

func (o *Obl) name() string {
	s := o.fn + ": " + o.kind
	if o.label != "" {
		s += " [" + o.label + "]"
	}
	if o.pos != "" {
		s += " at " + o.pos
	}
	return s
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	num    int // 1-based, in block order
	pre    *State
	st     *State // header state after havoc
	invs   []*loopInv
}

type loopInv struct {
	key   string
	e     *Expr
	auto  *Term
	autoF func(st *State) *Term
	label string
	sub   map[string]string // variables that take the place of names
}

type deferred struct {
	block  *ssa.BasicBlock
	guard  *Term
	common *ssa.CallCommon
	args   []Val
	fnv    *Term
	instr  ssa.Instruction
}

type edge struct {
	pred *ssa.BasicBlock
	st   *State
}

type retState struct {
	st   *State
	vals []*Term
	pos  string
}

type Frame struct {
	fn      *ssa.Function
	key     string
	regs    map[ssa.Value]Val
	parent  *Frame
	spec    *FuncSpec
	entry   *State
	params  map[string]SVal
	defers  []deferred
	loops   map[*ssa.BasicBlock]*Loop
	active  map[*ssa.BasicBlock]*Loop
	rpo     []*ssa.BasicBlock
	returns []retState
	origins map[ssa.Value]*Place // where slice arguments came from
	alias   map[string]*Place    // cell that holds a slice argument -> caller's place
	cur     *ssa.BasicBlock
}

type Exec struct {
	prog         *ssa.Program
	fset         *token.FileSet
	spec         *SpecFile
	fns          map[string]*ssa.Function
	facts        []*Term
	topRules     []*Rule
	globalFacts  []*Term
	obls         []*Obl
	dry          int
	keySort      map[string]Sort
	heapType     map[string]types.Type
	ghostSort    map[string]Sort
	ghostType    map[string]types.Type
	globConst    map[*ssa.Global]*Term
	globStores   map[*ssa.Global][]*ssa.Store
	globAddr     map[*ssa.Global]bool
	closures     map[*Term]*Closure
	dropped      map[string]bool
	topKey       string
	top          *Frame
	safety       bool
	stack        []*ssa.Function
	notes        map[string]bool // trusted library functions, ignored effects
	trusted      map[string]bool
	underC       map[string]bool // functions whose contracts were used
	inlined      map[string]bool
	factSeen     map[*Term]bool
	escMemo      map[ssa.Value]bool
	goClosures   []*Closure
	autoCands    bool
	renaming     bool
	builderCells map[string]bool
	locals       map[string]map[string]string // recorded local variables: function -> name -> type
	useRules     []*Rule
	constPlaces  map[string]*Term
	tmpOrigins   map[string]tmpOrigin
	pureNames    map[string]string
	lemmas       map[string]*lemmaInfo
	thread       *thread
	shared       map[string]bool // state entries that threads write
	threadReads  map[string]bool
	racy         map[string]bool // state entries that threads read and the starting function writes while they run
	again        bool
	replacers    map[*Term][]*Term
	theChan      *Term
	theWG        *Term
	aliasBroken  map[string]bool
}

func (ex *Exec) note(format string, a ...interface{}) { ex.notes[fmt.Sprintf(format, a...)] = true }

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.fset.Position(p)
	f := q.Filename
	if k := strings.Index(f, "/src/"); k >= 0 {
		f = f[k+5:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (ex *Exec) assume(st *State, f *Term) {
	if st.dead() {
		return
	}
	if f == False {
		st.pc = False
		return
	}
	t := Implies(st.pc, f)
	if t == True || ex.factSeen[t] {
		return
	}
	ex.factSeen[t] = true
	ex.facts = append(ex.facts, t)
}

// branch restricts a state by a condition.
func (ex *Exec) branch(st *State, c *Term) *State {
	n := st.clone()
	n.pc = And(st.pc, c)
	return n
}

func (ex *Exec) oblige(o *Obl, st *State, goal *Term) {
	if ex.dry > 0 || st.dead() {
		return
	}
	if o.fn == "" {
		o.fn = ex.topKey
	}
	o.facts = ex.facts[:len(ex.facts):len(ex.facts)]
	o.pc = st.pc
	o.goal = goal
	o.rules = ex.topRules
	ex.obls = append(ex.obls, o)
}

func (ex *Exec) check(kind, label string, st *State, goal *Term, pos token.Pos) {
	ex.oblige(&Obl{kind: kind, label: label, pos: ex.pos(pos)}, st, goal)
	ex.assume(st, goal)
}

func (ex *Exec) safe(what string, st *State, goal *Term, pos token.Pos) {
	if goal == True {
		return
	}
	if ex.safety {
		ex.oblige(&Obl{kind: "safety", label: what, pos: ex.pos(pos)}, st, goal)
	}
	ex.assume(st, goal)
}

// ---- control flow helpers

func computeRPO(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit successors in reverse so that RPO follows the source order
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func findLoops(fn *ssa.Function, rpo []*ssa.BasicBlock) map[*ssa.BasicBlock]*Loop {
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range loops {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return loopPos(loops[hs[i]]) < loopPos(loops[hs[j]]) })
	for i, h := range hs {
		loops[h].num = i + 1
	}
	return loops
}

// loopPos orders loops by source position.
func loopPos(l *Loop) token.Pos {
	best := token.Pos(1 << 40)
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && p < best {
				best = p
			}
		}
	}
	return best*1000 + token.Pos(l.header.Index)
}

func (ex *Exec) newFrame(fn *ssa.Function, key string, parent *Frame) *Frame {
	fr := &Frame{fn: fn, key: key, regs: map[ssa.Value]Val{}, parent: parent, active: map[*ssa.BasicBlock]*Loop{},
		origins: map[ssa.Value]*Place{}, alias: map[string]*Place{}}
	fr.rpo = computeRPO(fn)
	fr.loops = findLoops(fn, fr.rpo)
	return fr
}

// merge joins the states of several edges.
func (ex *Exec) merge(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if !s.dead() {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return &State{pc: False, v: map[string]*Term{}}
	}
	if len(live) == 1 {
		return live[0].clone()
	}
	pcs := make([]*Term, len(live))
	for i, s := range live {
		pcs[i] = s.pc
	}
	conds := relConds(pcs)
	out := &State{pc: OrPC(pcs), v: map[string]*Term{}}
	keys := map[string]bool{}
	for _, s := range live {
		for k := range s.v {
			keys[k] = true
		}
	}
	for k := range keys {
		isCell := strings.HasPrefix(k, "c:")
		var acc *Term
		for i := len(live) - 1; i >= 0; i-- {
			v, ok := live[i].v[k]
			if !ok {
				if isCell {
					continue
				}
				v = ex.get(live[i], k)
			}
			if acc == nil {
				acc = v
			} else if acc != v {
				acc = Ite(conds[i], v, acc)
			}
		}
		out.v[k] = acc
	}
	return out
}

// relConds removes the conjuncts that all path conditions share.
func relConds(pcs []*Term) []*Term {
	cnt := map[*Term]int{}
	for _, p := range pcs {
		for _, c := range conjuncts(p) {
			cnt[c]++
		}
	}
	out := make([]*Term, len(pcs))
	for i, p := range pcs {
		var r []*Term
		for _, c := range conjuncts(p) {
			if cnt[c] < len(pcs) {
				r = append(r, c)
			}
		}
		out[i] = And(r...)
	}
	return out
}

// run executes the blocks of set (all if nil) starting at start. Edges to backTo are collected.
func (ex *Exec) run(fr *Frame, set map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, st *State, backTo *ssa.BasicBlock) []*State {
	return ex.runTo(fr, set, start, st, backTo, nil)
}

// runTo executes blocks like run; the edges that leave the set of blocks are handed to exit.
func (ex *Exec) runTo(fr *Frame, set map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, st *State, backTo *ssa.BasicBlock, exit func(b, s *ssa.BasicBlock, o *State)) []*State {
	pending := map[*ssa.BasicBlock][]edge{start: {{nil, st}}}
	var back []*State
	route := func(b, s *ssa.BasicBlock, o *State) {
		if s == backTo {
			l := fr.loops[s]
			ex.loopSets(fr, l, o, b)
			back = append(back, o)
			return
		}
		if set != nil && !set[s] && exit != nil {
			exit(b, s, o)
			return
		}
		if l := fr.active[s]; l != nil && s.Dominates(b) {
			ex.loopSets(fr, l, o, b)
			ex.checkInvs(fr, l, o, "preserved", b)
			return
		}
		if set != nil && !set[s] {
			return
		}
		pending[s] = append(pending[s], edge{b, o})
	}
	for _, b := range fr.rpo {
		in := pending[b]
		if len(in) == 0 || set != nil && !set[b] {
			continue
		}
		var sts []*State
		for _, e := range in {
			sts = append(sts, e.st)
		}
		cur := ex.merge(sts)
		if cur.dead() {
			continue
		}
		// phi nodes
		ex.phis(fr, b, in)
		if l := fr.loops[b]; l != nil && b != backTo {
			if outs, ok := ex.unroll(fr, l, cur); ok {
				for _, e := range outs {
					route(e.from, e.to, e.st)
				}
				continue
			}
			cur = ex.enterLoop(fr, l, cur)
		}
		fr.cur = b
		outs := ex.block(fr, b, cur)
		for i, s := range b.Succs {
			if i >= len(outs) || outs[i].dead() {
				continue
			}
			route(b, s, outs[i])
		}
	}
	return back
}

func (ex *Exec) phis(fr *Frame, b *ssa.BasicBlock, in []edge) {
	for _, instr := range b.Instrs {
		phi, ok := instr.(*ssa.Phi)
		if !ok {
			break
		}
		var live []edge
		for _, e := range in {
			if !e.st.dead() {
				live = append(live, e)
			}
		}
		pcs := make([]*Term, len(live))
		for i, e := range live {
			pcs[i] = e.st.pc
		}
		conds := relConds(pcs)
		var acc *Term
		for i := len(live) - 1; i >= 0; i-- {
			k := -1
			for j, p := range b.Preds {
				if p == live[i].pred {
					k = j
				}
			}
			if k < 0 {
				continue
			}
			v := ex.val(fr, live[i].st, phi.Edges[k]).t
			if acc == nil {
				acc = v
			} else {
				acc = Ite(conds[i], v, acc)
			}
		}
		fr.regs[phi] = Val{t: acc}
	}
}

// ---- loops

func isStateKey(k string) bool { return !strings.HasPrefix(k, "c:") }

func (ex *Exec) enterLoop(fr *Frame, l *Loop, pre *State) *State {
	pre = pre.clone()
	mods, hs := ex.discover(fr, l, pre)
	l.pre = pre
	fr.cur = l.header
	ex.collectInvs(fr, l, pre, mods)
	fr.active[l.header] = l
	l.st = hs
	ex.checkInvs(fr, l, pre, "initial", l.header)
	for _, inv := range l.invs {
		if ex.dropped[inv.key] {
			continue
		}
		t, err := ex.evalInv(fr, l, inv, hs, l.header)
		if err == nil {
			if ex.dry > 0 && t == False {
				continue // a candidate that does not hold on a trial run
			}
			ex.assume(hs, t)
		}
	}
	if fr.spec != nil {
		for _, e := range fr.spec.loopAsm[l.num] {
			ev := ex.frameEnv(fr, hs, l.header, l)
			ex.assume(hs, ev.bool(e))
		}
	}
	ex.assumeTypes(hs, mods)
	return hs
}

// assumeTypes adds the facts that hold for every value of a type.
func (ex *Exec) assumeTypes(st *State, mods map[string]bool) {
	if mods["$alloc"] {
		// allocation never shrinks
	}
}

// discover finds what the loop body modifies and returns the havocked header state.
func (ex *Exec) discover(fr *Frame, l *Loop, pre *State) (map[string]bool, *State) {
	mods := map[string]bool{}
	precise := map[string][]*Term{} // heap array -> loop invariant refs written
	savedRegs := copyRegs(fr.regs)
	savedDefers := append([]deferred{}, fr.defers...)
	for iter := 0; iter < 40; iter++ {
		nf := len(ex.facts)
		ng := len(ex.globalFacts)
		startSeq := termSeq
		_ = startSeq
		mark := newMark()
		hs := ex.havoc(fr, l, pre, mods, precise)
		start := hs.clone()
		ex.dry++
		savedActive := fr.active
		fr.active = map[*ssa.BasicBlock]*Loop{}
		for k, v := range savedActive {
			fr.active[k] = v
		}
		savedReturns := fr.returns
		back := ex.run(fr, l.blocks, l.header, start, l.header)
		fr.returns = savedReturns
		fr.active = savedActive
		ex.dry--
		ex.truncFacts(nf)
		ex.globalFacts = ex.globalFacts[:len(ex.globalFacts)]
		_ = ng
		changed := false
		for _, p := range ex.aliasPairs(fr, pre, mods, precise) {
			for _, b := range back {
				if b.v[p[0]] != b.v[p[1]] {
					ex.aliasBroken[p[0]] = true
					changed = true
				}
			}
		}
		for _, b := range back {
			for k, v := range b.v {
				hv, ok := hs.v[k]
				if !ok {
					if !isStateKey(k) {
						continue
					}
					hv = ex.get(hs, k)
				}
				if v == hv {
					continue
				}
				if mods[k] && precise[k] == nil {
					continue
				}
				// store chains with loop invariant references
				if v.sort.IsArray() && (!mods[k] || precise[k] != nil) {
					if refs, ok := storeRefs(v, hv, mark); ok {
						for _, r := range refs {
							if !hasTerm(precise[k], r) {
								precise[k] = append(precise[k], r)
								changed = true
							}
						}
						if !mods[k] {
							mods[k] = true
							changed = true
						}
						continue
					}
				}
				if !mods[k] || precise[k] != nil {
					mods[k] = true
					delete(precise, k)
					precise[k] = nil
					changed = true
				}
			}
		}
		fr.regs = copyRegs(savedRegs)
		fr.defers = savedDefers
		if !changed {
			break
		}
	}
	hs := ex.havoc(fr, l, pre, mods, precise)
	return mods, hs
}

func hasTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func copyRegs(m map[ssa.Value]Val) map[ssa.Value]Val {
	n := make(map[ssa.Value]Val, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// marks: fresh variables created after a mark are recognised by their creation number.
var varSeq = map[*Term]int{}
var varCtr int

func newMark() int { return varCtr }

// FreshV is Fresh with a creation number.
func FreshV(name string, s Sort) *Term {
	t := Fresh(name, s)
	varCtr++
	varSeq[t] = varCtr
	return t
}

func newerThan(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "var" && varSeq[t] > mark {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func storeRefs(v, base *Term, mark int) ([]*Term, bool) {
	var refs []*Term
	seen := map[*Term]bool{}
	// stores to the same reference collapse, so that a chain may end below the base
	roots := map[*Term][]*Term{base: nil}
	var strip []*Term
	for b := base; b.op == "store"; {
		strip = append(append([]*Term{}, strip...), b.args[1])
		b = b.args[0]
		roots[b] = strip
	}
	var rec func(v *Term) bool
	rec = func(v *Term) bool {
		if seen[v] {
			return true
		}
		if extra, ok := roots[v]; ok {
			for _, r := range extra {
				if !hasTerm(refs, r) {
					refs = append(refs, r)
				}
			}
			return true
		}
		seen[v] = true
		if v.op == "store" {
			if newerThan(v.args[1], mark) {
				return false
			}
			if !hasTerm(refs, v.args[1]) {
				refs = append(refs, v.args[1])
			}
			return rec(v.args[0])
		}
		if v.op == "ite" {
			return rec(v.args[1]) && rec(v.args[2])
		}
		return false
	}
	return refs, rec(v)
}

func (ex *Exec) havoc(fr *Frame, l *Loop, pre *State, mods map[string]bool, precise map[string][]*Term) *State {
	hs := pre.clone()
	var keys []string
	for k := range mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		old := ex.get0(pre, k)
		if old == nil {
			continue
		}
		if precise[k] != nil {
			arr := old
			_, vs := old.sort.ArrayParts()
			for _, r := range precise[k] {
				arr = Store(arr, r, heapVar(k, FreshV("lh!"+short(k), vs)))
			}
			hs.v[k] = arr
			continue
		}
		nv := heapVar(k, FreshV("lh!"+short(k), old.sort))
		hs.v[k] = nv
		if k == "$alloc" {
			ex.assume(hs, Le(old, nv))
		}
	}
	for _, p := range ex.aliasPairs(fr, pre, mods, precise) {
		hs.v[p[1]] = hs.v[p[0]]
	}
	return hs
}

// aliasPairs: slice variables (parameters, copies) and the variables their slices came from, where both have the
// same content before and after each iteration of a loop.
func (ex *Exec) aliasPairs(fr *Frame, pre *State, mods map[string]bool, precise map[string][]*Term) [][2]string {
	var out [][2]string
	for k, up := range fr.alias {
		if up == nil || up.ref != nil || len(up.path) > 0 || !mods[k] || !mods[up.base] || precise[k] != nil || precise[up.base] != nil || ex.aliasBroken[k] {
			continue
		}
		a, b := pre.v[k], ex.get0(pre, up.base)
		if a != nil && a == b {
			out = append(out, [2]string{k, up.base})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

func (ex *Exec) get0(st *State, k string) *Term {
	if t, ok := st.v[k]; ok {
		return t
	}
	if !isStateKey(k) {
		return nil
	}
	return ex.get(st, k)
}

func short(k string) string {
	if i := strings.LastIndexAny(k, ":"); i >= 0 {
		k = k[i+1:]
	}
	return k
}

// collectInvs gathers the candidate invariants of a loop.
func (ex *Exec) collectInvs(fr *Frame, l *Loop, pre *State, mods map[string]bool) {
	l.invs = nil
	add := func(key string, c Clause) { l.invs = append(l.invs, ex.invVariants(fr, l, key, c)...) }
	base := fmt.Sprintf("%s|%s|%d", ex.topKey, fr.key, l.num)
	spec := fr.spec
	own := spec != nil
	if spec == nil {
		// loops of inlined helpers try the invariants of the functions they are inlined into
		for p := fr.parent; p != nil && spec == nil; p = p.parent {
			spec = p.spec
		}
	}
	if spec != nil {
		for i, c := range spec.loopAll {
			add(fmt.Sprintf("%s|all.%d", base, i), c)
		}
		if own && len(spec.loops[l.num]) > 0 {
			for i, c := range spec.loops[l.num] {
				add(fmt.Sprintf("%s|inv%d.%d", base, l.num, i), c)
			}
		}
		if !own || len(fr.loops) < len(spec.loops) || len(spec.loops[l.num]) == 0 && len(fr.loops) != maxKey(spec.loops) {
			for _, n := range sortedKeys(spec.loops) {
				if own && n == l.num {
					continue
				}
				for i, c := range spec.loops[n] {
					add(fmt.Sprintf("%s|foreign%d.%d", base, n, i), c)
				}
			}
		}
	}
	// automatic candidates
	autos := func(name string, f func(st *State) *Term) {
		l.invs = append(l.invs, &loopInv{key: base + "|auto:" + name, autoF: f, label: name})
	}
	ex.threadInvs(fr, pre, autos)
	var keys []string
	for k := range mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		k := k
		if strings.HasPrefix(k, "c:") {
			pv := pre.v[k]
			if pv == nil {
				continue
			}
			if pv.sort == SInt && strings.HasSuffix(k, ":rangeindex") || pv.sort == SInt && strings.Contains(k, ":rangeindex#") {
				autos(k+">=-1", func(st *State) *Term { return Le(Int(-1), st.v[k]) })
				if ln := rangeLen(l); ln != nil {
					if v, ok := fr.regs[ln]; ok {
						autos(k+"<len", func(st *State) *Term { return Or(Eq(st.v[k], Int(-1)), Lt(st.v[k], v.t)) })
					} else if c, ok := ln.(*ssa.Const); ok {
						ct := ex.constTerm(c)
						autos(k+"<len", func(st *State) *Term { return Or(Eq(st.v[k], Int(-1)), Lt(st.v[k], ct)) })
					}
				}
				continue
			}
			if pv.sort == SInt && strings.Contains(k, ":rangeint.iter") {
				autos(k+">=0", func(st *State) *Term { return Le(Int(0), st.v[k]) })
				if n := rangeIntLen(l); n != nil {
					if v, ok := fr.regs[n]; ok {
						autos(k+"<n", func(st *State) *Term { return Lt(st.v[k], v.t) })
					} else if c, ok := n.(*ssa.Const); ok {
						ct := ex.constTerm(c)
						autos(k+"<n", func(st *State) *Term { return Lt(st.v[k], ct) })
					}
				}
				continue
			}
			if pv.sort == SInt {
				if bound := ex.loopBound(fr, l, k); bound != nil {
					autos(k+"<=bound", func(st *State) *Term { return Le(st.v[k], bound(st)) })
					if !ex.autoCands {
						autos(k+">=0", func(st *State) *Term { return Le(Int(0), st.v[k]) })
					}
				}
			}
			if pv.sort.IsSeq() && ex.autoCands && storesElements(l) {
				autos(k+" keeps its length", func(st *State) *Term { return Eq(Len(st.v[k]), Len(pv)) })
			}
			if pv.sort == SString && ex.builderCells[k] {
				autos(k+" grows", func(st *State) *Term { return StrPrefix(pv, st.v[k]) })
			}
			if pv.sort == SInt && ex.autoCands {
				autos(k+">=pre", func(st *State) *Term { return Le(pv, st.v[k]) })
				autos(k+">=0", func(st *State) *Term { return Le(Int(0), st.v[k]) })
				for k2, v2 := range pre.v {
					if strings.HasPrefix(k2, "c:"+fr.key+":") && (v2.sort == SString || v2.sort.IsSeq()) {
						k2 := k2
						autos(k+"<=len "+k2, func(st *State) *Term { return Le(st.v[k], Len(st.v[k2])) })
					}
				}
			}
			if strings.Contains(k, ":itn:") && pv.sort == SInt && ex.spec.usesRunes {
				autos(k+">=0", func(st *State) *Term { return Le(Int(0), st.v[k]) })
				for k2, v2 := range pre.v {
					if strings.HasPrefix(k2, "c:"+fr.key+":its:") && v2.sort == SString && strings.HasSuffix(k2, k[strings.LastIndex(k, ":"):]) {
						k2 := k2
						autos(k+"<=runes", func(st *State) *Term { return Le(st.v[k], Len(runesOf(st.v[k2]))) })
					}
				}
			}
			if strings.Contains(k, ":it:") && pv.sort == SInt {
				autos(k+">=0", func(st *State) *Term { return Le(Int(0), st.v[k]) })
				for k2, v2 := range pre.v {
					if strings.HasPrefix(k2, "c:"+fr.key+":its:") && v2.sort == SString && strings.HasSuffix(k2, k[strings.LastIndex(k, ":"):]) {
						k2 := k2
						autos(k+"<=len", func(st *State) *Term { return Le(st.v[k], Len(st.v[k2])) })
					}
				}
			}
		}
	}
}

// storesElements: the loop assigns elements of slices.
func storesElements(l *Loop) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if _, ok := s.Addr.(*ssa.IndexAddr); ok {
					return true
				}
			}
		}
	}
	return false
}

func maxKey(m map[int][]Clause) int {
	r := 0
	for k := range m {
		if k > r {
			r = k
		}
	}
	return r
}

func sortedKeys(m map[int][]Clause) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// rangeIntLen finds the number a loop over an integer counts to.
func rangeIntLen(l *Loop) ssa.Value {
	for _, p := range l.header.Preds {
		if !l.blocks[p] {
			continue
		}
		for _, in := range p.Instrs {
			if i, ok := in.(*ssa.If); ok {
				if b, ok := i.Cond.(*ssa.BinOp); ok && b.Op == token.LSS {
					return b.Y
				}
			}
		}
	}
	return nil
}

// rangeLen finds the length a rangeindex loop counts to.
func rangeLen(l *Loop) ssa.Value {
	for _, in := range l.header.Instrs {
		if i, ok := in.(*ssa.If); ok {
			if b, ok := i.Cond.(*ssa.BinOp); ok && b.Op == token.LSS {
				return b.Y
			}
		}
	}
	return nil
}

func (ex *Exec) frameEnv(fr *Frame, st *State, b *ssa.BasicBlock, l *Loop) *Env {
	ev := &Env{ex: ex, st: st, vars: map[string]SVal{}, frame: fr, block: b, loop: l, pkg: fnPkg(fr.fn)}
	f := fr
	for f != nil && f.params == nil {
		f = f.parent
	}
	if f != nil {
		ev.old = f.entry
		ev.ovars = cloneVars(f.params)
		if f != fr {
			for k, v := range f.params {
				ev.vars[k] = v
			}
		}
	}
	return ev
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	return nil
}

func (ex *Exec) evalInv(fr *Frame, l *Loop, inv *loopInv, st *State, b *ssa.BasicBlock) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(SpecError); ok {
				err = fmt.Errorf("%s", s.msg)
				return
			}
			if s, ok := r.(Unsupported); ok {
				err = fmt.Errorf("%s", s.msg)
				return
			}
			panic(r)
		}
	}()
	if inv.autoF != nil {
		return inv.autoF(st), nil
	}
	ev := ex.frameEnv(fr, st, l.header, l)
	ev.sub = inv.sub
	return ev.bool(inv.e), nil
}

func (ex *Exec) checkInvs(fr *Frame, l *Loop, st *State, what string, b *ssa.BasicBlock) {
	if st.dead() {
		return
	}
	for _, inv := range l.invs {
		if ex.dropped[inv.key] {
			continue
		}
		t, err := ex.evalInv(fr, l, inv, st, b)
		if err != nil {
			if ex.dry == 0 {
				ex.dropped[inv.key] = true
				ex.note("invariant dropped (%v)", err)
			}
			continue
		}
		lbl := inv.label
		if lbl == "" && inv.e != nil {
			lbl = inv.e.String()
		}
		ex.oblige(&Obl{kind: "invariant " + what, label: lbl, cand: inv.key, auto: inv.autoF != nil, foreign: strings.Contains(inv.key, "|foreign"), pos: fmt.Sprintf("%s loop %d", fnKey(fr.fn), l.num)}, st, t)
	}
}

func (ex *Exec) loopSets(fr *Frame, l *Loop, st *State, b *ssa.BasicBlock) {
	if fr.spec == nil {
		return
	}
	for _, g := range fr.spec.loopSets[l.num] {
		ev := ex.frameEnv(fr, st, l.header, l)
		ex.ghostSet(ev, g, st)
	}
}

func (ex *Exec) ghostSet(ev *Env, g GhostSet, st *State) {
	if g.target.op != "id" {
		panic(SpecError{"ghost assignment to a non-ghost"})
	}
	if _, ok := ex.ghostSort[g.target.s]; !ok {
		panic(SpecError{"unknown ghost " + g.target.s})
	}
	v := ev.coerce(g.e, ev.eval(g.e), ex.ghostSort[g.target.s])
	st.v["$"+g.target.s] = v.t
}

// loopCounter is the counter of a loop "for i := range n" or "for i := ...; i < n; ...".
func (ex *Exec) loopCounter(ev *Env) (SVal, bool) {
	fr, l := ev.frame, ev.loop
	if a := rangeInt(l); a != nil {
		if v, ok := ev.st.v[ex.cellKey(fr, a)]; ok {
			return SVal{v, types.Typ[types.Int]}, true
		}
	}
	for _, in := range l.header.Instrs {
		i, ok := in.(*ssa.If)
		if !ok {
			continue
		}
		b, ok := i.Cond.(*ssa.BinOp)
		if !ok || b.Op != token.LSS && b.Op != token.NEQ {
			continue
		}
		if u, ok := b.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a, ok := u.X.(*ssa.Alloc); ok && !l.blocks[a.Block()] {
				if v, ok := ev.st.v[ex.cellKey(fr, a)]; ok && v.sort == SInt {
					return SVal{v, types.Typ[types.Int]}, true
				}
			}
		}
	}
	return SVal{}, false
}

// rangeInt finds the counter of a loop over an integer.
func rangeInt(l *Loop) *ssa.Alloc {
	for _, p := range l.header.Preds {
		if !l.blocks[p] {
			continue
		}
		for _, in := range p.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if a, ok := s.Addr.(*ssa.Alloc); ok && a.Comment == "rangeint.iter" && !l.blocks[a.Block()] {
					return a
				}
			}
		}
	}
	return nil
}

// rangeKey resolves the key variable of a range loop at its header: the index of the next iteration.
func (ex *Exec) rangeKey(ev *Env, name string) (SVal, bool) {
	for b := range ev.loop.blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := s.Addr.(*ssa.Alloc)
			if !ok || a.Comment != name {
				continue
			}
			u, ok := s.Val.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			it, ok := u.X.(*ssa.Alloc)
			if !ok || it.Comment != "rangeindex" && it.Comment != "rangeint.iter" || ev.loop.blocks[it.Block()] {
				continue
			}
			v, ok := ev.st.v[ex.cellKey(ev.frame, it)]
			if !ok {
				continue
			}
			if it.Comment == "rangeindex" {
				v = Add(v, Int(1))
			}
			return SVal{v, types.Typ[types.Int]}, true
		}
	}
	return SVal{}, false
}

// local resolves a local variable of the frame by its source name.
func (ex *Exec) local(ev *Env, name string) (SVal, bool) {
	fr := ev.frame
	if n, ok := ev.sub[name]; ok {
		to := *ev
		to.sub = nil
		return ex.local(&to, n)
	}
	if name == "$idx" {
		if ev.loop == nil {
			return SVal{}, false
		}
		// rangeindex of this loop
		for _, in := range ev.loop.header.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if a, ok := u.X.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
					if v, ok := ev.st.v[ex.cellKey(fr, a)]; ok {
						return SVal{Add(v, Int(1)), types.Typ[types.Int]}, true
					}
				}
			}
		}
		for _, in := range ev.loop.header.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if v, ok := ev.st.v[strings.Replace(ex.iterKey(fr, n.Iter), ":it:", ":itn:", 1)]; ok {
					return SVal{v, types.Typ[types.Int]}, true
				}
			}
		}
		return ex.loopCounter(ev)
	}
	if name == "$visited" || name == "$pos" {
		// position within a text, visited keys of a map
		if ev.loop == nil {
			return SVal{}, false
		}
		for b := range ev.loop.blocks {
			for _, in := range b.Instrs {
				if n, ok := in.(*ssa.Next); ok && b == ev.loop.header {
					if v, ok := ev.st.v[ex.iterKey(fr, n.Iter)]; ok {
						return SVal{v, nil}, true
					}
				}
			}
		}
		return SVal{}, false
	}
	want := 0
	if k := strings.LastIndex(name, "$"); k > 0 {
		fmt.Sscanf(name[k+1:], "%d", &want)
		name = name[:k]
	}
	var found *ssa.Alloc
	n := 0
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Comment != name {
				continue
			}
			n++
			if want > 0 {
				if n == want {
					found = a
				}
				continue
			}
			if ev.block != nil && !b.Dominates(ev.block) {
				continue
			}
			found = a
		}
	}
	if want == 0 && ev.loop != nil && (found == nil || found.Block() == ev.loop.header) {
		if v, ok := ex.rangeKey(ev, name); ok {
			return v, true
		}
	}
	if found != nil {
		elem := found.Type().(*types.Pointer).Elem()
		if ex.cellable(found) {
			v, ok := ev.st.v[ex.cellKey(fr, found)]
			if !ok {
				return SVal{}, false
			}
			return SVal{v, elem}, true
		}
		if r, ok := fr.regs[found]; ok {
			return SVal{ex.load(ev.st, ex.derefPlace(r.t, elem)), elem}, true
		}
		return SVal{}, false
	}
	for _, fv := range fr.fn.FreeVars {
		if fv.Name() == name {
			if r, ok := fr.regs[fv]; ok {
				elem := fv.Type().(*types.Pointer).Elem()
				return SVal{ex.load(ev.st, ex.derefPlace(r.t, elem)), elem}, true
			}
		}
	}
	// locals of the caller for inlined functions
	if fr.parent != nil {
		if v, ok := ex.renamed(ev, name); ok {
			return v, true
		}
		n := *ev
		n.frame = fr.parent
		n.block = fr.parent.cur
		n.loop = nil
		if v, ok := ev.callerVar(fr.parent, name); ok {
			return v, true
		}
		return ex.local(&n, name)
	}
	return ex.renamed(ev, name)
}

func (ev *Env) callerVar(fr *Frame, name string) (SVal, bool) {
	if fr.params != nil {
		v, ok := fr.params[name]
		return v, ok
	}
	return SVal{}, false
}

func (ex *Exec) cellKey(fr *Frame, a *ssa.Alloc) string {
	n := a.Comment
	if n == "" {
		n = a.Name()
	}
	return "c:" + fr.key + ":" + a.Name() + ":" + n
}

func (ex *Exec) iterKey(fr *Frame, v ssa.Value) string {
	return "c:" + fr.key + ":it:" + v.Name()
}

// cellable: the address of the variable does not escape, so it can be kept as a cell.
func (ex *Exec) cellable(a *ssa.Alloc) bool {
	if r, ok := ex.escMemo[a]; ok {
		return !r
	}
	r := ex.escapes(a, map[ssa.Value]bool{})
	ex.escMemo[a] = r
	return !r
}

func (ex *Exec) escapes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == v {
				// the pointer itself is stored: fine if it goes to a local variable whose loads do not escape
				a, ok := x.Addr.(*ssa.Alloc)
				if !ok || len(storesTo(a)) != 1 || ex.loadsEscape(a, seen) {
					return true
				}
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return true
			}
		case *ssa.FieldAddr:
			if ex.escapes(x, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if ex.escapes(x, seen) {
				return true
			}
		case *ssa.Slice:
			// slicing an array: used for literals only
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && ex.escapes(x.Fn.(*ssa.Function).FreeVars[i], seen) {
					return true
				}
			}
		case *ssa.BinOp:
		case *ssa.Call, *ssa.Defer, *ssa.Go:
			c := x.(ssa.CallInstruction).Common()
			fn := c.StaticCallee()
			if fn != nil && isBuilderMethod(fn) && ex.spec.funcs[fnKey(fn)] == nil {
				continue
			}
			if fn == nil || c.Value == v || len(fn.Blocks) == 0 || !isModuleFn(fn) {
				return true
			}
			if fs := ex.spec.funcs[fnKey(fn)]; fs != nil && !fs.inline {
				return true
			}
			for i, arg := range c.Args {
				if arg == v && ex.escapes(fn.Params[i], seen) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func storesTo(a *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			out = append(out, s)
		}
	}
	return out
}

// loadsEscape: does a value loaded from the local variable (or the variable's own address) escape?
func (ex *Exec) loadsEscape(a *ssa.Alloc, seen map[ssa.Value]bool) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == a {
				return true
			}
		case *ssa.UnOp:
			if ex.escapes(x, seen) {
				return true
			}
		case *ssa.MakeClosure:
			return true
		default:
			return true
		}
	}
	return false
}

func isModuleFn(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil && fn.Object() != nil {
		p = fn.Object().Pkg()
	}
	return isModulePkg(p)
}

// ---- values

func (ex *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return Val{t: ex.constTerm(v)}
	case *ssa.Function:
		return Val{t: ex.fnTerm(v)}
	case *ssa.Global:
		if c, ok := ex.constGlobal(v); ok {
			// address of a constant variable
			p := &Place{base: "gc:" + v.String(), typ: v.Type().(*types.Pointer).Elem()}
			t := placeTerm(p)
			ex.keySort[p.base] = c.sort
			ex.constPlaces[p.base] = c
			return Val{t: t}
		}
		elem := v.Type().(*types.Pointer).Elem()
		k := globalKey(v)
		ex.declare(k, sortOf(elem))
		return Val{t: placeTerm(&Place{base: k, typ: elem})}
	case *ssa.Builtin:
		return Val{t: Var("builtin!"+v.Name(), SFn)}
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(Unsupported{fmt.Sprintf("value %s of %s is not available", v.Name(), fnKey(fr.fn))})
	}
	return r
}

func (ex *Exec) truncFacts(n int) {
	for _, f := range ex.facts[n:] {
		delete(ex.factSeen, f)
	}
	ex.facts = ex.facts[:n]
}

// typeFacts: what holds for every value of the type.
func (ex *Exec) typeFacts(st *State, t *Term, gt types.Type) {
	switch u := gt.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		if t.op == "int" || containsAddr(t) {
			return
		}
		ex.assume(st, And(Le(Int(0), t), Lt(t, ex.get(st, "$alloc"))))
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 && !t.isConst() {
			ex.assume(st, Le(Int(0), t))
		}
	}
}

func (ex *Exec) alloc(st *State) *Term {
	r := ex.get(st, "$alloc")
	st.v["$alloc"] = Add(r, Int(1))
	return r
}
