package main

// Invariants name local variables of the source. The names at the time the contracts were written are recorded, so that
// a renamed variable can be found again: the only new variable of the same type.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func localVars(fn *ssa.Function) []*ssa.Alloc {
	var out []*ssa.Alloc
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && token.IsIdentifier(a.Comment) && a.Comment != "rangeindex" && a.Comment != "complit" && a.Comment != "varargs" && a.Comment != "slicelit" && a.Comment != "makeslice" && a.Comment != "new" {
				out = append(out, a)
			}
		}
	}
	return out
}

func varType(a *ssa.Alloc) string { return typeKey(types.Unalias(a.Type().(*types.Pointer).Elem())) }

func (ex *Exec) recordLocals(file string) int {
	m := map[string]map[string]string{}
	for k, fn := range ex.fns {
		m[k] = map[string]string{}
		for _, a := range localVars(fn) {
			m[k][a.Comment] = varType(a)
		}
	}
	b, err := json.MarshalIndent(m, "", " ")
	if err == nil {
		err = os.WriteFile(file, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func (ex *Exec) loadLocals(file string) {
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &ex.locals)
	}
	if err != nil {
		ex.note("no recorded local variables (%v)", err)
	}
}

// renamed finds the variable that has taken the place of a recorded one.
func (ex *Exec) renamed(ev *Env, name string) (SVal, bool) {
	if strings.HasPrefix(name, "$") || ex.renaming {
		return SVal{}, false
	}
	fr := ev.frame
	key := fnKey(fr.fn)
	typ := ex.locals[key][name]
	if typ == "" {
		return SVal{}, false
	}
	found := ""
	for _, a := range localVars(fr.fn) {
		if _, known := ex.locals[key][a.Comment]; known || a.Comment == found || varType(a) != typ {
			continue
		}
		if ev.block != nil && !a.Block().Dominates(ev.block) {
			continue
		}
		if found != "" {
			return SVal{}, false
		}
		found = a.Comment
	}
	if found == "" {
		return SVal{}, false
	}
	ex.renaming = true
	defer func() { ex.renaming = false }()
	return ex.local(ev, found)
}

// variants of an invariant: variables that the source does not have any more stand for each new variable of their type,
// and the variables of "any" for each variable of theirs.
func (ex *Exec) variants(fr *Frame, l *Loop, c Clause) []map[string]string {
	type cand struct {
		name string
		to   []string
	}
	var cands []cand
	var frames []*Frame
	have := map[string]bool{}
	for f := fr; f != nil; f = f.parent {
		frames = append(frames, f)
		for _, a := range localVars(f.fn) {
			have[a.Comment] = true
		}
		for _, v := range f.fn.FreeVars {
			have[v.Name()] = true
		}
	}
	typed := func(typ string, fresh bool) []string {
		var out []string
		seen := map[string]bool{}
		for _, f := range frames {
			known := ex.locals[fnKey(f.fn)]
			for _, a := range localVars(f.fn) {
				if _, k := known[a.Comment]; fresh && k || seen[a.Comment] || varType(a) != typ {
					continue
				}
				if l != nil && f == fr && !a.Block().Dominates(l.header) {
					continue
				}
				seen[a.Comment] = true
				out = append(out, a.Comment)
			}
			if f.params != nil {
				break // up to the function of the contract
			}
		}
		return out
	}
	for _, a := range c.any {
		_, gt := ex.resolveType(a.ty)
		if gt == nil {
			return nil
		}
		if to := typed(typeKey(types.Unalias(gt)), false); len(to) > 0 {
			cands = append(cands, cand{a.name, to})
		} else {
			return nil
		}
	}
	if ex.locals != nil {
		for _, n := range idNames(c.e) {
			var typ string
			for _, f := range frames {
				if t := ex.locals[fnKey(f.fn)][n]; t != "" && typ == "" {
					typ = t
				}
			}
			if typ == "" {
				continue
			}
			isNew := ex.locals[fnKey(fr.fn)] == nil && fr.parent != nil
			if have[n] && !isNew {
				continue
			}
			to := typed(typ, true)
			if have[n] {
				all := []string{n}
				for _, t := range to {
					if t != n {
						all = append(all, t)
					}
				}
				to = all
			}
			if len(to) > 0 {
				cands = append(cands, cand{n, to})
			}
		}
	}
	out := []map[string]string{{}}
	for _, c := range cands {
		var next []map[string]string
		for _, m := range out {
			for _, t := range c.to {
				if len(next) >= 64 {
					break
				}
				n := map[string]string{c.name: t}
				for k, v := range m {
					n[k] = v
				}
				next = append(next, n)
			}
		}
		out = next
	}
	return out
}

// idNames are the simple names in an expression.
func idNames(e *Expr) []string {
	var out []string
	seen := map[string]bool{}
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if e == nil {
			return
		}
		if e.op == "id" && !seen[e.s] {
			seen[e.s] = true
			out = append(out, e.s)
		}
		for _, a := range e.args {
			walk(a)
		}
	}
	walk(e)
	return out
}

// invVariants makes the candidates of an invariant.
func (ex *Exec) invVariants(fr *Frame, l *Loop, key string, c Clause) []*loopInv {
	var out []*loopInv
	for i, m := range ex.variants(fr, l, c) {
		k := key
		if i > 0 {
			k = fmt.Sprintf("%s~%d", key, i)
		}
		if len(m) == 0 {
			m = nil
		}
		out = append(out, &loopInv{key: k, e: c.e, label: c.label, sub: m})
	}
	return out
}

// loopBound is the bound of a loop "for ...; i < bound; ..." whose counter is kept in the cell.
func (ex *Exec) loopBound(fr *Frame, l *Loop, cell string) func(st *State) *Term {
	for _, in := range l.header.Instrs {
		i, ok := in.(*ssa.If)
		if !ok {
			continue
		}
		b, ok := i.Cond.(*ssa.BinOp)
		if !ok || b.Op != token.LSS && b.Op != token.NEQ {
			continue
		}
		u, ok := b.X.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		a, ok := u.X.(*ssa.Alloc)
		if !ok || l.blocks[a.Block()] || !ex.cellable(a) || ex.cellKey(fr, a) != cell {
			continue
		}
		if f := ex.boundTerm(fr, b.Y); f != nil {
			return f
		}
		y := b.Y
		return func(st *State) *Term { return ex.headerValue(fr, l, st, y) }
	}
	return nil
}

// headerValue is what a value that is computed in the header of a loop is in a state.
func (ex *Exec) headerValue(fr *Frame, l *Loop, st *State, y ssa.Value) *Term {
	in, ok := y.(ssa.Instruction)
	if !ok || in.Block() != l.header {
		return ex.val(fr, st, y).t
	}
	nf, ng, regs, cur := len(ex.facts), len(ex.globalFacts), copyRegs(fr.regs), fr.cur
	ex.dry++
	defer func() {
		ex.dry--
		ex.truncFacts(nf)
		ex.globalFacts = ex.globalFacts[:ng]
		fr.regs, fr.cur = regs, cur
	}()
	ex.block(fr, l.header, st.clone())
	return ex.val(fr, st, y).t
}

func (ex *Exec) boundTerm(fr *Frame, v ssa.Value) func(st *State) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		t := ex.constTerm(x)
		return func(st *State) *Term { return t }
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && ex.cellable(a) {
			k := ex.cellKey(fr, a)
			return func(st *State) *Term {
				if t := st.v[k]; t != nil {
					return t
				}
				panic(Unsupported{"no loop bound"})
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if u, ok := x.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
				if a, ok := u.X.(*ssa.Alloc); ok && ex.cellable(a) {
					k := ex.cellKey(fr, a)
					return func(st *State) *Term {
						if t := st.v[k]; t != nil && (t.sort == SString || t.sort.IsSeq()) {
							return Len(t)
						}
						panic(Unsupported{"no loop bound"})
					}
				}
			}
		}
	case *ssa.BinOp:
		if f, g := ex.boundTerm(fr, x.X), ex.boundTerm(fr, x.Y); f != nil && g != nil {
			switch x.Op {
			case token.ADD:
				return func(st *State) *Term { return Add(f(st), g(st)) }
			case token.SUB:
				return func(st *State) *Term { return Sub(f(st), g(st)) }
			}
		}
	}
	return nil
}
