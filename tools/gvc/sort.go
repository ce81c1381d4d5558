package main

// Sorting functions of the standard library: the slice becomes a permutation of itself; it is in the order of the
// comparison if that is shown to be a strict weak order.

import (
	"golang.org/x/tools/go/ssa"
)

func isSort(key string) (cmp int, ok bool) {
	switch key {
	case "sort.Slice", "sort.SliceStable":
		return 1, true
	case "slices.SortFunc", "slices.SortStableFunc":
		return 2, true
	case "sort.Strings", "sort.Ints", "slices.Sort":
		return 0, true
	}
	return 0, false
}

func (ex *Exec) sortModel(fr *Frame, st *State, key string, kind int, args []Val, in ssa.Instruction) (Val, *State, bool) {
	call, isCall := in.(ssa.CallInstruction)
	if !isCall {
		return Val{}, nil, false
	}
	if _, isDefer := in.(*ssa.Defer); isDefer {
		return Val{}, nil, false
	}
	a0 := call.Common().Args[0]
	for {
		if x, ok := a0.(*ssa.MakeInterface); ok {
			a0 = x.X
			continue
		}
		if x, ok := a0.(*ssa.ChangeType); ok {
			a0 = x.X
			continue
		}
		break
	}
	v := ex.val(fr, st, a0)
	if v.t == nil || !v.t.sort.IsSeq() {
		panic(Unsupported{"sorting in " + fnKey(fr.fn)})
	}
	ex.trusted["sort.Slice, slices.Sort* (the result is a permutation in the order of the comparison, if that is a strict weak order)"] = true
	s := v.t
	n := Len(s)
	p := FreshV("sorted", s.sort)
	nth := func(s, i *Term) *Term { return mk("seq.nth", s.sort.Elem(), "", nil, s, i) }
	in0 := func(i *Term) *Term { return And(Le(Int(0), i), Lt(i, n)) }
	perm, inv := FreshV("perm", ArrayOf(SInt, SInt)), FreshV("inv", ArrayOf(SInt, SInt))
	i := Bound("sort!i", SInt)
	ex.assume(st, Eq(Len(p), n))
	pi, ii := Select(perm, i), Select(inv, i)
	ex.assume(st, Forall(i, Implies(in0(i), And(in0(pi), Eq(nth(p, i), nth(s, pi)), Eq(Select(inv, pi), i)))))
	ex.assume(st, Forall(i, Implies(in0(i), And(in0(ii), Eq(nth(s, i), nth(p, ii)), Eq(Select(perm, ii), i)))))
	if v.origin == nil {
		fr.regs[a0] = Val{t: p}
	} else {
		if ex.load(st, v.origin) != s {
			panic(Unsupported{"sorting an outdated slice value in " + fnKey(fr.fn)})
		}
		ex.storeAliased(fr, st, v.origin, s, p)
	}
	// the comparison of two elements
	x, y := FreshV("sort!x", SInt), FreshV("sort!y", SInt)
	var less *Term
	if kind == 0 {
		a, b := nth(p, x), nth(p, y)
		switch a.sort {
		case SInt:
			less = Lt(a, b)
		case SString:
			less = mk("str.<", SBool, "", nil, a, b)
		}
	} else if clo := ex.closures[args[1].t]; clo != nil {
		mark := newMark()
		nf := len(ex.facts)
		tmp := st.clone()
		ex.assume(tmp, And(in0(x), in0(y)))
		as := []Val{{t: x}, {t: y}}
		if kind == 2 {
			as = []Val{{t: nth(p, x)}, {t: nth(p, y)}}
		}
		r, after := ex.callFn(fr, tmp, clo.fn, clo.bindings, as, nil, in)
		pure := !after.dead() && r.t != nil && !newerThan(r.t, mark)
		if pure {
			for k, t := range st.v {
				if after.v[k] != t {
					pure = false
				}
			}
		}
		ex.truncFacts(nf)
		if !pure {
			if !after.dead() {
				for k, t := range st.v {
					if after.v[k] != t {
						panic(Unsupported{"sorting with a comparison that has effects in " + fnKey(fr.fn)})
					}
				}
			}
			ex.note("order of a sorted slice unknown in %s", fnKey(fr.fn))
		} else if kind == 2 {
			less = Lt(r.t, Int(0))
		} else {
			less = r.t
		}
	}
	if less == nil {
		return Val{}, st, true
	}
	cand := ex.topKey + "|" + fr.key + "|sort|" + instrID(in)
	if ex.dropped[cand] {
		return Val{}, st, true
	}
	lt := func(a, b *Term) *Term { return Subst(less, map[*Term]*Term{x: a, y: b}) }
	z := FreshV("sort!z", SInt)
	ex.oblige(&Obl{kind: "sort", label: "the comparison is a strict weak order", cand: cand, auto: true, pos: ex.pos(in.Pos())}, st,
		Implies(And(in0(x), in0(y), in0(z)), And(Not(lt(x, x)), Implies(And(lt(x, y), lt(y, z)), lt(x, z)), Implies(And(Not(lt(x, y)), Not(lt(y, z))), Not(lt(x, z))))))
	j := Bound("sort!j", SInt)
	ex.assume(st, Forall(i, Forall(j, Implies(And(Le(Int(0), i), Lt(i, j), Lt(j, n)), Not(lt(j, i))))))
	return Val{}, st, true
}
