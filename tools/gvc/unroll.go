package main

import (
	"golang.org/x/tools/go/ssa"
)

// Loops whose number of iterations is known while executing (over the elements of a literal, say) are executed
// iteration by iteration: exactly what they do, without an invariant.

const maxUnroll = 40

type leaving struct {
	from, to *ssa.BasicBlock
	st       *State
}

func (ex *Exec) unroll(fr *Frame, l *Loop, pre *State) ([]leaving, bool) {
	if ex.thread != nil || !ex.unrollable(l) {
		return nil, false
	}
	nf, ng, no, nr := len(ex.facts), len(ex.globalFacts), len(ex.obls), len(fr.returns)
	regs := copyRegs(fr.regs)
	defers := append([]deferred{}, fr.defers...)
	active := map[*ssa.BasicBlock]*Loop{}
	for k, v := range fr.active {
		active[k] = v
	}
	undo := func() {
		ex.truncFacts(nf)
		ex.globalFacts = ex.globalFacts[:ng]
		ex.obls = ex.obls[:no]
		fr.returns = fr.returns[:nr]
		fr.regs = regs
		fr.defers = defers
		fr.active = active
	}
	live := func(outs []*State) int {
		n := 0
		for _, o := range outs {
			if !o.dead() {
				n++
			}
		}
		return n
	}
	var outs []leaving
	cur := pre.clone()
	for i := 0; ; i++ {
		if cur.dead() {
			return outs, true
		}
		// the condition in the header must be decided
		if i > maxUnroll {
			undo()
			return nil, false
		}
		nf2, ng2, no2 := len(ex.facts), len(ex.globalFacts), len(ex.obls)
		ex.dry++
		n := live(ex.block(fr, l.header, cur.clone()))
		ex.dry--
		ex.truncFacts(nf2)
		ex.globalFacts = ex.globalFacts[:ng2]
		ex.obls = ex.obls[:no2]
		if n != 1 {
			undo()
			return nil, false
		}
		back := ex.runTo(fr, l.blocks, l.header, cur, l.header, func(b, s *ssa.BasicBlock, o *State) {
			outs = append(outs, leaving{b, s, o})
		})
		cur = ex.merge(back)
	}
}

// unrollable: the loop has its condition in its header, registers nothing to run later, and its values are used
// inside of it only (variables live in the state).
func (ex *Exec) unrollable(l *Loop) bool {
	if len(l.header.Instrs) == 0 {
		return false
	}
	if _, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Defer, *ssa.Go, *ssa.Select:
				return false
			case *ssa.Phi:
				if b == l.header {
					return false
				}
			}
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if a, ok := in.(*ssa.Alloc); ok && ex.cellable(a) {
				continue
			}
			if refs := v.Referrers(); refs != nil {
				for _, r := range *refs {
					if _, dbg := r.(*ssa.DebugRef); !dbg && !l.blocks[r.Block()] {
						return false
					}
				}
			}
		}
	}
	return true
}
