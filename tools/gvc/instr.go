package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// block executes one basic block and returns the states on its outgoing edges.
func (ex *Exec) block(fr *Frame, b *ssa.BasicBlock, st *State) []*State {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := ex.val(fr, st, in.Cond).t
			return []*State{ex.branch(st, c), ex.branch(st, Not(c))}
		case *ssa.Jump:
			return []*State{st}
		case *ssa.Return:
			var vals []*Term
			for _, r := range in.Results {
				vals = append(vals, ex.val(fr, st, r).t)
			}
			fr.returns = append(fr.returns, retState{st, vals, ex.pos(in.Pos())})
			return nil
		case *ssa.Panic:
			if ex.safety {
				ex.oblige(&Obl{kind: "safety", label: "panic not reached", pos: ex.pos(in.Pos())}, st, False)
			}
			return nil
		default:
			st = ex.instr(fr, st, in)
			if st.dead() {
				return nil
			}
		}
	}
	return nil
}

func (ex *Exec) instr(fr *Frame, st *State, in ssa.Instruction) *State {
	set := func(v ssa.Value, t *Term) { fr.regs[v] = Val{t: t} }
	switch in := in.(type) {
	case *ssa.Alloc:
		elem := in.Type().(*types.Pointer).Elem()
		if ex.cellable(in) {
			k := ex.cellKey(fr, in)
			ex.keySort[k] = sortOfSafe(elem)
			if isBuilder(elem) {
				ex.builderCells[k] = true
			}
			if ex.keySort[k] == "" {
				st.v[k] = Int(0)
			} else {
				st.v[k] = zeroValue(elem)
			}
			delete(fr.alias, k)
			set(in, placeTerm(&Place{base: k, typ: elem}))
			return st
		}
		r := ex.alloc(st)
		ex.store(st, ex.derefPlace(r, elem), zeroValue(elem))
		set(in, r)
	case *ssa.Store:
		v := ex.val(fr, st, in.Val)
		addr := ex.val(fr, st, in.Addr).t
		elem := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		ex.nilCheck(st, addr, in.Pos(), "store")
		if st.dead() {
			return st
		}
		p := ex.derefPlace(addr, elem)
		// element store through a slice value
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			if _, isSlice := ia.X.Type().Underlying().(*types.Slice); isSlice {
				ex.elemStore(fr, st, ia, v.t)
				return st
			}
		}
		if ch, ok := ex.elemRoot(in.Addr); ok {
			// field of a slice element
			ex.elemFieldStore(fr, st, ch, in.Addr, v.t)
			return st
		}
		ex.store(st, p, v.t)
		if a, ok := in.Addr.(*ssa.Alloc); ok {
			k := ex.cellKey(fr, a)
			delete(fr.alias, k)
			if v.origin != nil && v.t.sort.IsSeq() {
				fr.alias[k] = v.origin
			} else if o := fr.origins[in.Val]; o != nil {
				fr.alias[k] = o
			}
		}
	case *ssa.UnOp:
		return ex.unop(fr, st, in)
	case *ssa.BinOp:
		set(in, ex.binop(fr, st, in))
	case *ssa.FieldAddr:
		x := ex.val(fr, st, in.X).t
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		ex.nilCheck(st, x, in.Pos(), "field access")
		if st.dead() {
			return st
		}
		set(in, placeTerm(ex.fieldPlace(ex.derefPlace(x, pt), pt, in.Field)))
	case *ssa.Field:
		x := ex.val(fr, st, in.X).t
		set(in, ex.structField(x, in.X.Type(), in.Field))
	case *ssa.IndexAddr:
		i := ex.val(fr, st, in.Index).t
		switch xt := in.X.Type().Underlying().(type) {
		case *types.Pointer: // pointer to array
			at := xt.Elem().Underlying().(*types.Array)
			p := ex.derefPlace(ex.val(fr, st, in.X).t, xt.Elem())
			ex.safe("index in range", st, And(Le(Int(0), i), Lt(i, Int(at.Len()))), in.Pos())
			set(in, placeTerm(ex.indexPlace(p, i, at.Elem())))
		case *types.Slice:
			xv := ex.val(fr, st, in.X)
			ex.safe("index in range", st, And(Le(Int(0), i), Lt(i, Len(xv.t))), in.Pos())
			// a temporary cell that holds the slice value
			k := fmt.Sprintf("c:tmp:%d", xv.t.id)
			if xv.origin != nil {
				k += ":" + xv.origin.name()
				ex.tmpOrigins[k] = tmpOrigin{fr, xv.origin}
			}
			ex.keySort[k] = xv.t.sort
			ex.constPlaces[k] = xv.t
			set(in, placeTerm(ex.indexPlace(&Place{base: k, typ: in.X.Type()}, i, xt.Elem())))
		}
	case *ssa.Index:
		x, i := ex.val(fr, st, in.X).t, ex.val(fr, st, in.Index).t
		ex.safe("index in range", st, And(Le(Int(0), i), Lt(i, Len(x))), in.Pos())
		if x.sort == SString {
			set(in, CodeAt(x, i))
		} else {
			set(in, SeqNth(x, i))
		}
	case *ssa.Lookup:
		x, i := ex.val(fr, st, in.X).t, ex.val(fr, st, in.Index).t
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			d, vv := ex.mapHeaps(m)
			if ex.thread != nil {
				ex.threadReads[d], ex.threadReads[vv] = true, true
				if ex.racy[d] || ex.racy[vv] {
					panic(Unsupported{"a thread that reads a map that the starting function writes meanwhile"})
				}
			}
			has := And(Ne(x, Int(0)), Select(Select(ex.get(st, d), x), i))
			v := Ite(has, Select(Select(ex.get(st, vv), x), i), zeroValue(m.Elem()))
			if in.CommaOk {
				fr.regs[in] = Val{tuple: []*Term{v, has}}
			} else {
				set(in, v)
			}
			ex.typeFactsIf(st, has, v, m.Elem())
			return st
		}
		ex.safe("index in range", st, And(Le(Int(0), i), Lt(i, Len(x))), in.Pos())
		set(in, CodeAt(x, i))
	case *ssa.MapUpdate:
		m := in.Map.Type().Underlying().(*types.Map)
		x, k, v := ex.val(fr, st, in.Map).t, ex.val(fr, st, in.Key).t, ex.val(fr, st, in.Value).t
		ex.safe("map is not nil", st, Ne(x, Int(0)), in.Pos())
		ex.mapSet(st, m, x, k, v)
	case *ssa.MakeMap:
		m := in.Type().Underlying().(*types.Map)
		r := ex.alloc(st)
		d, vv := ex.mapHeaps(m)
		l := ex.mapLenHeap(m)
		_, ds := ex.keySort[d].ArrayParts()
		st.v[d] = Store(ex.get(st, d), r, ConstArr(ds, False))
		_ = vv
		st.v[l] = Store(ex.get(st, l), r, Int(0))
		set(in, r)
	case *ssa.MakeSlice:
		n := ex.val(fr, st, in.Len).t
		s := sortOf(in.Type())
		elem := in.Type().Underlying().(*types.Slice).Elem()
		if n.isInt() && n.i.Sign() == 0 {
			set(in, zeroValue(in.Type()))
			return st
		}
		ex.safe("slice length is not negative", st, Le(Int(0), n), in.Pos())
		v := FreshV("make", s)
		ex.assume(st, Eq(Len(v), n))
		if s.IsSeq() {
			bv := Bound("mk!i", SInt)
			ex.assume(st, Forall(bv, Implies(And(Le(Int(0), bv), Lt(bv, n)), Eq(mk("seq.nth", s.Elem(), "", nil, v, bv), zeroValue(elem)))))
		}
		set(in, v)
	case *ssa.MakeChan:
		set(in, ex.alloc(st))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, ex.val(fr, st, b).t)
		}
		fn := in.Fn.(*ssa.Function)
		key := "clo!" + fnKey(fn)
		for _, b := range bs {
			key += fmt.Sprintf("!%d", b.id)
		}
		t := Var(key, SFn)
		ex.closures[t] = &Closure{fn: fn, bindings: bs}
		set(in, t)
	case *ssa.MakeInterface:
		x := ex.val(fr, st, in.X).t
		if containsAddr(x) && strings.HasPrefix(x.s, "addr!") {
			panic(Unsupported{"address of a local variable in an interface"})
		}
		set(in, Box(boxName(in.X.Type()), x))
	case *ssa.ChangeInterface:
		fr.regs[in] = ex.val(fr, st, in.X)
	case *ssa.ChangeType:
		fr.regs[in] = ex.val(fr, st, in.X)
	case *ssa.Convert:
		set(in, ex.convert(st, ex.val(fr, st, in.X).t, in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(in, ex.convert(st, ex.val(fr, st, in.X).t, in.X.Type(), in.Type()))
	case *ssa.TypeAssert:
		x := ex.val(fr, st, in.X).t
		var ok, v *Term
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = And(Ne(x, NilT), App("implements!"+typeKey(in.AssertedType), SBool, TypeOf(x)))
			if n, isN := types.Unalias(in.AssertedType).(*types.Named); isN && types.Implements(in.X.Type(), n.Underlying().(*types.Interface)) {
				ok = Ne(x, NilT)
			}
			v = x
		} else {
			ok = Eq(TypeOf(x), tagOf(boxName(in.AssertedType)))
			v = Unbox(boxName(in.AssertedType), sortOf(in.AssertedType), x)
		}
		if in.CommaOk {
			fr.regs[in] = Val{tuple: []*Term{Ite(ok, v, zeroValue(in.AssertedType)), ok}}
			if v.sort == SInt {
				ex.typeFactsIf(st, ok, v, in.AssertedType)
			}
		} else {
			ex.safe("type assertion", st, ok, in.Pos())
			if !st.dead() {
				ex.typeFacts(st, v, in.AssertedType)
			}
			set(in, v)
		}
	case *ssa.Extract:
		tv := ex.val(fr, st, in.Tuple)
		if in.Index >= len(tv.tuple) {
			panic(Unsupported{"tuple of " + in.Tuple.String()})
		}
		set(in, tv.tuple[in.Index])
	case *ssa.Slice:
		return ex.sliceOp(fr, st, in)
	case *ssa.Range:
		ex.rangeInit(fr, st, in)
	case *ssa.Next:
		ex.rangeNext(fr, st, in)
	case *ssa.Call:
		v, s := ex.call(fr, st, &in.Call, in, nil)
		if !s.dead() {
			fr.regs[in] = v
		}
		return s
	case *ssa.Defer:
		d := deferred{block: in.Block(), guard: st.pc, common: &in.Call, instr: in}
		for _, a := range in.Call.Args {
			d.args = append(d.args, ex.val(fr, st, a))
		}
		if in.Call.IsInvoke() {
			d.fnv = ex.val(fr, st, in.Call.Value).t
		} else if in.Call.StaticCallee() == nil || isMakeClosure(in.Call.Value) {
			d.fnv = ex.val(fr, st, in.Call.Value).t
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		return ex.runDefers(fr, st)
	case *ssa.Go:
		ex.goStmt(fr, st, in)
	case *ssa.Send:
		ex.send(fr, st, in)
	case *ssa.Select:
		panic(Unsupported{"select statement"})
	case *ssa.SliceToArrayPointer:
		panic(Unsupported{"slice to array pointer"})
	default:
		panic(Unsupported{fmt.Sprintf("instruction %T", in)})
	}
	return st
}

func isMakeClosure(v ssa.Value) bool {
	_, ok := v.(*ssa.MakeClosure)
	return ok
}

func sortOfSafe(t types.Type) (s Sort) {
	defer func() {
		if recover() != nil {
			s = SInt
		}
	}()
	return sortOf(t)
}

func (ex *Exec) typeFactsIf(st *State, c, v *Term, t types.Type) {
	n := *st
	n.pc = And(st.pc, c)
	if n.pc != False {
		ex.typeFacts(&n, v, t)
	}
}

func (ex *Exec) mapSet(st *State, m *types.Map, x, k, v *Term) {
	d, vv := ex.mapHeaps(m)
	l := ex.mapLenHeap(m)
	dd, vd, ld := ex.get(st, d), ex.get(st, vv), ex.get(st, l)
	has := Select(Select(dd, x), k)
	st.v[l] = Store(ld, x, Ite(has, Select(ld, x), Add(Select(ld, x), Int(1))))
	st.v[d] = Store(dd, x, Store(Select(dd, x), k, True))
	st.v[vv] = Store(vd, x, Store(Select(vd, x), k, v))
	ex.wrote(st, d, x, nil, nil)
	ex.wrote(st, vv, x, nil, nil)
}

func (ex *Exec) nilCheck(st *State, x *Term, pos token.Pos, what string) {
	if isAddr(x) || containsAddr(x) {
		return
	}
	ex.safe("no nil dereference ("+what+")", st, Ne(x, Int(0)), pos)
}

// elemRoot: is the address a field (of a field...) of a slice element?
func (ex *Exec) elemRoot(v ssa.Value) (*ssa.IndexAddr, bool) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				return x, true
			}
			v = x.X
		default:
			return nil, false
		}
	}
}

// elemStore writes an element through a slice value: the variable the slice was loaded from gets the new content.
func (ex *Exec) elemStore(fr *Frame, st *State, ia *ssa.IndexAddr, v *Term) {
	i := ex.val(fr, st, ia.Index).t
	ex.sliceWrite(fr, st, ia.X, func(s *Term) *Term { return SeqUpd(s, i, v) })
}

// tmpOrigin is the variable a slice value was loaded from, for pointers to its elements.
type tmpOrigin struct {
	fr    *Frame
	place *Place
}

func (p *Place) name() string {
	n := p.base
	if p.ref != nil {
		n += fmt.Sprintf("@%d", p.ref.id)
	}
	for _, a := range p.path {
		if a.index != nil {
			n += fmt.Sprintf("[%d]", a.index.id)
		} else {
			n += fmt.Sprintf(".%d", a.idx)
		}
	}
	return n
}

// isTmp: the place is (in) an element of a slice value.
func isTmp(p *Place) bool { return strings.HasPrefix(p.base, "c:tmp:") }

// tmpStale: the variable has got another value since the pointer to the element was made.
func (ex *Exec) tmpStale(st *State, p *Place) bool {
	o, ok := ex.tmpOrigins[p.base]
	return ok && ex.load(st, o.place) != ex.constPlaces[p.base]
}

// tmpStore stores through a pointer to an element of a slice value.
func (ex *Exec) tmpStore(st *State, p *Place, nv *Term) {
	o, ok := ex.tmpOrigins[p.base]
	if !ok {
		panic(Unsupported{"store through a pointer to an element of a slice of unknown origin"})
	}
	if ex.tmpStale(st, p) {
		panic(Unsupported{"store through a pointer to an element of an outdated slice value"})
	}
	old := ex.constPlaces[p.base]
	ex.storeAliased(o.fr, st, o.place, old, ex.update(old, p.path, nv))
}

func (ex *Exec) elemFieldStore(fr *Frame, st *State, ia *ssa.IndexAddr, addr ssa.Value, v *Term) {
	p, ok := placeTable[ex.val(fr, st, addr).t]
	if !ok {
		panic(Unsupported{"store through slice element pointer"})
	}
	path := p.path
	ex.sliceWrite(fr, st, ia.X, func(s *Term) *Term { return ex.update(s, path, v) })
}

func (ex *Exec) sliceWrite(fr *Frame, st *State, x ssa.Value, f func(*Term) *Term) {
	xv := ex.val(fr, st, x)
	if xv.t.sort == SString {
		panic(Unsupported{"store into a byte slice"})
	}
	nv := f(xv.t)
	origin := xv.origin
	if origin == nil {
		if ms, ok := x.(*ssa.MakeSlice); ok {
			fr.regs[ms] = Val{t: nv}
			return
		}
		if sl, ok := x.(*ssa.Slice); ok {
			// slice of a local array or of another slice
			_ = sl
		}
		panic(Unsupported{"element store into a slice of unknown origin in " + fnKey(fr.fn)})
	}
	if cur := ex.load(st, origin); cur != xv.t && (ex.thread != nil || ex.running(st)) && ex.shared[origin.base] {
		xv.t, nv = cur, f(cur)
	}
	if ex.load(st, origin) != xv.t {
		panic(Unsupported{"element store into an outdated slice value in " + fnKey(fr.fn)})
	}
	ex.storeAliased(fr, st, origin, xv.t, nv)
}

// storeAliased also updates the caller's variable a slice parameter came from.
func (ex *Exec) storeAliased(fr *Frame, st *State, p *Place, old, nv *Term) {
	ex.store(st, p, nv)
	if p.ref == nil && len(p.path) == 0 {
		if up := fr.alias[p.base]; up != nil {
			if ex.load(st, up) == old {
				f := fr.parent
				if f == nil {
					f = fr
				}
				ex.storeAliased(f, st, up, old, nv)
			} else {
				panic(Unsupported{"element store through a slice whose other variable has been changed in " + fnKey(fr.fn)})
			}
		}
	}
}

func (ex *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) *State {
	switch in.Op {
	case token.MUL:
		elem := in.X.Type().Underlying().(*types.Pointer).Elem()
		x := ex.val(fr, st, in.X).t
		ex.nilCheck(st, x, in.Pos(), "load")
		if st.dead() {
			return st
		}
		p := ex.derefPlace(x, elem)
		if _, direct := ex.elemRoot(in.X); isTmp(p) && !direct && ex.tmpStale(st, p) {
			panic(Unsupported{"load through a pointer to an element of an outdated slice value in " + fnKey(fr.fn)})
		}
		ex.interfere(st, p)
		v := ex.load(st, p)
		fr.regs[in] = Val{t: v, origin: p}
		if p.ref != nil || strings.HasPrefix(p.base, "g:") {
			ex.typeFacts(st, v, elem)
			if v.op == "select" && v.args[0].op == "var" && strings.HasPrefix(v.args[0].s, "init!") {
				switch elem.Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Chan:
					ex.assume(st, Lt(v, Var("init!$alloc", SInt)))
				}
			}
		}
	case token.NOT:
		fr.regs[in] = Val{t: Not(ex.val(fr, st, in.X).t)}
	case token.SUB:
		x := ex.val(fr, st, in.X).t
		if x.sort == SReal {
			fr.regs[in] = Val{t: mk("-", SReal, "", nil, x)}
		} else {
			fr.regs[in] = Val{t: Sub(Int(0), x)}
		}
	case token.XOR:
		fr.regs[in] = Val{t: App("bitnot", SInt, ex.val(fr, st, in.X).t)}
	case token.ARROW:
		return ex.recv(fr, st, in)
	default:
		panic(Unsupported{"unary operator " + in.Op.String()})
	}
	return st
}

func (ex *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) *Term {
	a, b := ex.val(fr, st, in.X).t, ex.val(fr, st, in.Y).t
	switch in.Op {
	case token.EQL, token.NEQ:
		r := ex.equal(st, a, b, in.X, in.Y)
		if in.Op == token.NEQ {
			return Not(r)
		}
		return r
	case token.ADD:
		if a.sort == SString {
			return Concat(a, b)
		}
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO:
		if a.sort == SReal {
			return mk("/", SReal, "", nil, a, b)
		}
		ex.safe("no division by zero", st, Ne(b, Int(0)), in.Pos())
		return truncDiv(a, b)
	case token.REM:
		ex.safe("no division by zero", st, Ne(b, Int(0)), in.Pos())
		return Sub(a, Mul(b, truncDiv(a, b)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.sort == SString {
			switch in.Op {
			case token.LSS:
				return mk("str.<", SBool, "", nil, a, b)
			case token.LEQ:
				return mk("str.<=", SBool, "", nil, a, b)
			case token.GTR:
				return mk("str.<", SBool, "", nil, b, a)
			}
			return mk("str.<=", SBool, "", nil, b, a)
		}
		switch in.Op {
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		}
		return Le(b, a)
	case token.SHL:
		if a.isInt() && b.isInt() && b.i.IsInt64() && b.i.Int64() < 63 {
			return Mul(a, Int(1<<uint(b.i.Int64())))
		}
	}
	return App("bitop!"+in.Op.String(), a.sort, a, b)
}

// truncReal rounds towards zero.
func truncReal(x *Term) *Term {
	f := func(t *Term) *Term { return mk("to_int", SInt, "", nil, t) }
	zero := mk("int", SReal, "", big.NewInt(0))
	return Ite(mk("<=", SBool, "", nil, zero, x), f(x), Sub(Int(0), f(mk("-", SReal, "", nil, x))))
}

func toReal(x *Term) *Term {
	if x.isInt() {
		return mk("int", SReal, "", x.i)
	}
	return mk("to_real", SReal, "", nil, x)
}

func truncDiv(a, b *Term) *Term {
	if a.isInt() && b.isInt() && a.i.IsInt64() && b.i.IsInt64() && b.i.Sign() != 0 {
		return Int(a.i.Int64() / b.i.Int64())
	}
	d := func(x, y *Term) *Term { return mk("div", SInt, "", nil, x, y) }
	if b.isInt() && b.i.Sign() > 0 {
		return Ite(Le(Int(0), a), d(a, b), Sub(Int(0), d(Sub(Int(0), a), b)))
	}
	return App("go!div", SInt, a, b)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && isNilable(c.Type())
}

func (ex *Exec) equal(st *State, a, b *Term, x, y ssa.Value) *Term {
	if isNilConst(x) {
		a, b, x, y = b, a, y, x
	}
	if isNilConst(y) {
		switch x.Type().Underlying().(type) {
		case *types.Slice:
			// a nil slice is empty; an empty one may or may not be nil
			if a.op == "seq.empty" || a.isStr() && a.s == "" {
				return App("nilslice", SBool, a)
			}
			if ex.nilWhenEmpty(x, map[ssa.Value]bool{}) {
				return Eq(Len(a), Int(0))
			}
			r := Fresh("isnil", SBool)
			ex.assume(st, Implies(r, Eq(Len(a), Int(0))))
			return r
		case *types.Pointer, *types.Map, *types.Chan:
			if containsAddr(a) {
				if isAddr(a) {
					return False
				}
			}
			return Eq(a, Int(0))
		case *types.Interface:
			return Eq(a, NilT)
		case *types.Signature:
			if _, ok := ex.closures[a]; ok {
				return False
			}
			return Eq(a, Var("nilFn", SFn))
		}
	}
	// interface against concrete value
	if a.sort != b.sort {
		if a.sort == SAny {
			b = Box(boxName(y.Type()), b)
		} else if b.sort == SAny {
			a = Box(boxName(x.Type()), a)
		}
	}
	return Eq(a, b)
}

func (ex *Exec) convert(st *State, x *Term, from, to types.Type) *Term {
	fs, ts := sortOf(from), sortOf(to)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fs == SInt && ts == SString:
		if x.isInt() {
			return Str(string(rune(x.i.Int64())))
		}
		r := App("runestr", SString, x)
		ascii := Eq(r, mk("str.from_code", SString, "", nil, x))
		if x.op == "str.to_code" {
			ascii = And(ascii, Implies(Eq(StrLen(x.args[0]), Int(1)), Eq(r, x.args[0])))
		}
		// UTF-8: other runes have several bytes, the first of them is at least 0xC2
		first := mk("str.to_code", SInt, "", nil, Substr(r, Int(0), Int(1)))
		ex.assume(st, And(Implies(And(Le(Int(0), x), Lt(x, Int(128))), ascii),
			Implies(Not(And(Le(Int(0), x), Lt(x, Int(128)))), And(Le(Int(2), StrLen(r)), Le(Int(0xC2), first))),
			Le(Int(1), StrLen(r)), Le(StrLen(r), Int(4))))
		return r
	case fs == SString && ts == SString:
		return x
	case fs == SInt && ts == SReal:
		if x.isInt() {
			return mk("int", SReal, "", x.i)
		}
		return mk("to_real", SReal, "", nil, x)
	case fs == SReal && ts == SInt:
		return truncReal(x)
	case fs == SInt && ts == SInt:
		if tb != nil && fb != nil && tb.Kind() == types.Uint8 && fb.Kind() != types.Uint8 {
			if x.isInt() {
				return Int(x.i.Int64() & 255)
			}
			return Ite(And(Le(Int(0), x), Lt(x, Int(256))), x, App("tobyte", SInt, x))
		}
		if tb != nil && fb != nil && tb.Info()&types.IsUnsigned != 0 && fb.Info()&types.IsUnsigned == 0 {
			return Ite(Le(Int(0), x), x, App("wrap!"+tb.Name(), SInt, x))
		}
		return x
	case fs == ts:
		return x
	}
	r := App("conv!"+typeKey(from)+"!"+typeKey(to), ts, x)
	if fs == SString && ts.IsSeq() && ts.Elem() == SInt {
		r = runesOf(x)
	}
	if str, seq := x, r; fs == SString && ts.IsSeq() || ts == SString && fs.IsSeq() {
		// a text and its runes: every rune has at least one byte
		if fs.IsSeq() {
			str, seq = r, x
		}
		ex.assume(st, And(Le(Len(seq), StrLen(str)), Eq(Eq(Len(seq), Int(0)), Eq(StrLen(str), Int(0)))))
	}
	return r
}

// runesOf is the sequence of the runes of a text.
func runesOf(x *Term) *Term { return App("runes", SeqOf(SInt), x) }

func (ex *Exec) sliceOp(fr *Frame, st *State, in *ssa.Slice) *State {
	xv := ex.val(fr, st, in.X)
	var x *Term
	var origin *Place
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		p := ex.derefPlace(xv.t, pt.Elem())
		x = ex.load(st, p)
		origin = p
		if at, ok := pt.Elem().Underlying().(*types.Array); ok && isByteSlice(types.NewSlice(at.Elem())) && x.sort != SString {
			if n := at.Len(); n <= 16 && x.sort.IsSeq() && x.sort.Elem() == SInt {
				arr := x
				x = Str("")
				for i := int64(0); i < n; i++ {
					x = Concat(x, FromCode(SeqNth(arr, Int(i))))
				}
			} else {
				x = FreshV("bytes", SString)
				ex.assume(st, Eq(StrLen(x), Int(at.Len())))
			}
		}
	} else {
		x = xv.t
		origin = xv.origin
	}
	lo, hi := Int(0), Len(x)
	if in.Low != nil {
		lo = ex.val(fr, st, in.Low).t
	}
	if in.High != nil {
		hi = ex.val(fr, st, in.High).t
	}
	if in.Max != nil {
		panic(Unsupported{"three-index slice"})
	}
	if in.Low != nil || in.High != nil {
		// for slices the upper bound is the capacity, which is at least the length: requiring the length is stricter
		ex.safe("slice bounds in range", st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, Len(x))), in.Pos())
		origin = nil
	}
	if st.dead() {
		return st
	}
	var r *Term
	if x.sort == SString {
		r = Substr(x, lo, Sub(hi, lo))
	} else {
		r = SeqExtract(x, lo, Sub(hi, lo))
	}
	fr.regs[in] = Val{t: r, origin: origin}
	return st
}

// ---- range over maps and strings

func (ex *Exec) rangeInit(fr *Frame, st *State, in *ssa.Range) {
	x := ex.val(fr, st, in.X).t
	k := ex.iterKey(fr, in)
	if m, ok := in.X.Type().Underlying().(*types.Map); ok {
		s := ArrayOf(sortOf(m.Key()), SBool)
		ex.keySort[k] = s
		st.v[k] = ConstArr(s, False)
	} else {
		ex.keySort[k] = SInt
		st.v[k] = Int(0)
		ks := "c:" + fr.key + ":its:" + in.Name()
		ex.keySort[ks] = SString
		st.v[ks] = x
		kn := "c:" + fr.key + ":itn:" + in.Name()
		ex.keySort[kn] = SInt
		st.v[kn] = Int(0)
	}
	fr.regs[in] = Val{t: x}
}

func (ex *Exec) rangeNext(fr *Frame, st *State, in *ssa.Next) {
	rg := in.Iter.(*ssa.Range)
	x := ex.val(fr, st, rg).t
	k := ex.iterKey(fr, rg)
	if m, ok := rg.X.Type().Underlying().(*types.Map); ok {
		d, vv := ex.mapHeaps(m)
		vis := st.v[k]
		okv := FreshV("ok", SBool)
		key := FreshV("key", sortOf(m.Key()))
		dm := Select(ex.get(st, d), x)
		ex.assume(st, Implies(okv, And(Ne(x, Int(0)), Select(dm, key), Not(Select(vis, key)))))
		bv := Bound("rk", sortOf(m.Key()))
		ex.assume(st, Implies(Not(okv), Forall(bv, Implies(And(Ne(x, Int(0)), Select(dm, bv)), mk("select", SBool, "", nil, vis, bv)))))
		v := Select(Select(ex.get(st, vv), x), key)
		st.v[k] = Ite(okv, Store(vis, key, True), vis)
		fr.regs[in] = Val{tuple: []*Term{okv, key, v}}
		ex.typeFactsIf(st, okv, v, m.Elem())
		return
	}
	pos := st.v[k]
	kn := "c:" + fr.key + ":itn:" + rg.Name()
	num := st.v[kn]
	if pos.isInt() && x.isStr() {
		n := int(pos.i.Int64())
		st.v[kn] = Add(num, Int(1))
		if n >= len(x.s) {
			st.v[kn] = num
			fr.regs[in] = Val{tuple: []*Term{False, pos, Int(0)}}
			return
		}
		r, w := utf8.DecodeRuneInString(x.s[n:])
		st.v[k] = Int(int64(n + w))
		fr.regs[in] = Val{tuple: []*Term{True, pos, Int(int64(r))}}
		return
	}
	okv := Lt(pos, StrLen(x))
	r := FreshV("rune", SInt)
	w := FreshV("width", SInt)
	c := CodeAt(x, pos)
	ex.assume(st, Implies(okv, And(Le(Int(1), w), Le(w, Int(4)), Le(Add(pos, w), StrLen(x)), Le(Int(0), r),
		Implies(Lt(c, Int(128)), And(Eq(r, c), Eq(w, Int(1)))), Implies(Lt(r, Int(128)), Eq(c, r)),
		Implies(Lt(Int(1), w), Le(Int(128), r)))))
	if rs := runesOf(x); ex.spec.usesRunes {
		ex.assume(st, And(Eq(okv, Lt(num, Len(rs))), Implies(okv, Eq(r, SeqNth(rs, num)))))
	}
	st.v[k] = Ite(okv, Add(pos, w), pos)
	st.v[kn] = Ite(okv, Add(num, Int(1)), num)
	fr.regs[in] = Val{tuple: []*Term{okv, pos, r}}
}

// ---- calls

func (ex *Exec) runDefers(fr *Frame, st *State) *State {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		if !reaches(d.block, fr.cur) {
			continue
		}
		if d.block.Dominates(fr.cur) {
			_, st = ex.call(fr, st, d.common, d.instr, &d)
			if st.dead() {
				return st
			}
			continue
		}
		yes := ex.branch(st, d.guard)
		no := ex.branch(st, Not(d.guard))
		if yes.dead() {
			continue
		}
		_, yes = ex.call(fr, yes, d.common, d.instr, &d)
		st = ex.merge([]*State{yes, no})
	}
	return st
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(a)
}

func instrID(in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%d.%d", b.Index, i)
		}
	}
	return "x"
}

func (ex *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, in ssa.Instruction, d *deferred) (Val, *State) {
	var args []Val
	if d != nil {
		args = d.args
	} else {
		for _, a := range c.Args {
			args = append(args, ex.val(fr, st, a))
		}
	}
	if c.IsInvoke() {
		var recv *Term
		if d != nil {
			recv = d.fnv
		} else {
			recv = ex.val(fr, st, c.Value).t
		}
		return ex.invoke(fr, st, c, recv, args, in)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, st, b, c, args, in)
	}
	if fn := c.StaticCallee(); fn != nil && !isMakeClosure(c.Value) {
		return ex.callFn(fr, st, fn, nil, args, c.Args, in)
	}
	var fv *Term
	if d != nil {
		fv = d.fnv
	} else {
		fv = ex.val(fr, st, c.Value).t
	}
	return ex.callValue(fr, st, fv, c, args, in)
}

func (ex *Exec) callValue(fr *Frame, st *State, fv *Term, c *ssa.CallCommon, args []Val, in ssa.Instruction) (Val, *State) {
	if clo, ok := ex.closures[fv]; ok {
		return ex.callFn(fr, st, clo.fn, clo.bindings, args, c.Args, in)
	}
	if fv.op == "ite" && ex.knownFn(fv) {
		s1, s2 := ex.branch(st, fv.args[0]), ex.branch(st, Not(fv.args[0]))
		var v1, v2 Val
		if !s1.dead() {
			v1, s1 = ex.callValue(fr, s1, fv.args[1], c, args, in)
		}
		if !s2.dead() {
			v2, s2 = ex.callValue(fr, s2, fv.args[2], c, args, in)
		}
		m := ex.merge([]*State{s1, s2})
		if s1.dead() {
			return v2, m
		}
		if s2.dead() {
			return v1, m
		}
		cond := relConds([]*Term{s1.pc, s2.pc})[0]
		return mergeVals(cond, v1, v2), m
	}
	// function stored in a field, a package variable or a parameter: contract by that name
	key := ex.fnValueKey(fr, c.Value)
	sig := c.Value.Type().Underlying().(*types.Signature)
	if fs := ex.spec.funcs[key]; fs != nil && key != "" {
		return ex.applyContract(fr, st, fs, sig, nil, args, in)
	}
	ex.note("call of an unknown function value %s in %s: result arbitrary, no effects assumed", key, fnKey(fr.fn))
	return ex.havocResult(st, sig, "dyn"), st
}

func (ex *Exec) knownFn(t *Term) bool {
	if _, ok := ex.closures[t]; ok {
		return true
	}
	return t.op == "ite" && ex.knownFn(t.args[1]) && ex.knownFn(t.args[2])
}

func mergeVals(c *Term, a, b Val) Val {
	if a.t != nil && b.t != nil {
		return Val{t: Ite(c, a.t, b.t)}
	}
	var out Val
	for i := range a.tuple {
		out.tuple = append(out.tuple, Ite(c, a.tuple[i], b.tuple[i]))
	}
	return out
}

// fnValueKey names the variable a called function value was read from.
func (ex *Exec) fnValueKey(fr *Frame, v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			pt := a.X.Type().Underlying().(*types.Pointer).Elem()
			return typeKey(pt) + "." + pt.Underlying().(*types.Struct).Field(a.Field).Name()
		case *ssa.Global:
			return shortPkg(a.Pkg.Pkg) + "." + a.Name()
		case *ssa.Alloc:
			for _, s := range storesTo(a) {
				if p, ok := s.Val.(*ssa.Parameter); ok {
					return fnKey(fr.fn) + "$" + p.Name()
				}
			}
			return fnKey(fr.fn) + "$" + a.Comment
		case *ssa.FreeVar:
			return fnKey(fr.fn) + "$" + a.Name()
		}
	case *ssa.Field:
		return typeKey(x.X.Type()) + "." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.Parameter:
		return fnKey(fr.fn) + "$" + x.Name()
	}
	return ""
}

func (ex *Exec) invoke(fr *Frame, st *State, c *ssa.CallCommon, recv *Term, args []Val, in ssa.Instruction) (Val, *State) {
	it := types.Unalias(c.Value.Type())
	key := typeKey(it) + "." + c.Method.Name()
	sig := c.Method.Type().(*types.Signature)
	ex.safe("no method call on nil interface", st, Ne(recv, NilT), in.Pos())
	if st.dead() {
		return Val{}, st
	}
	if fs := ex.spec.funcs[key]; fs != nil {
		return ex.applyContract(fr, st, fs, sig, &SVal{recv, it}, args, in)
	}
	// a method of the interface that declares it (embedded interfaces)
	if r := c.Method.Type().(*types.Signature).Recv(); r != nil {
		k2 := typeKey(r.Type()) + "." + c.Method.Name()
		if fs := ex.spec.funcs[k2]; fs != nil {
			return ex.applyContract(fr, st, fs, sig, &SVal{recv, r.Type()}, args, in)
		}
	}
	if isBoxCtor(recv) {
		if t := ex.lookupType(recv.s[len("box!"):]); t != nil {
			if m := ex.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil && isModuleFn(m) {
				a := append([]Val{{t: recv.args[0]}}, args...)
				return ex.callFn(fr, st, m, nil, a, nil, in)
			}
		}
	}
	if key == "error.Error" {
		return Val{t: App("errtext", SString, recv)}, st
	}
	if ex.spec.strict && effectful(key) {
		ex.check("effect", "no call of "+key+" without a contract", st, False, in.Pos())
		if st.dead() {
			return Val{}, st
		}
	}
	ex.trusted[key+" (result arbitrary, no effects)"] = true
	return ex.havocResult(st, sig, c.Method.Name()), st
}

// effectful: functions that may change files, processes, the network or other state outside of the program's memory.
func effectful(key string) bool {
	switch key {
	case "os.IsNotExist", "os.IsExist", "os.Getwd", "os.UserCacheDir", "os.Getenv", "os.UserHomeDir", "os.TempDir", "os.IsPermission",
		"io/fs.FileInfo.Size", "io/fs.FileInfo.IsDir", "io/fs.FileInfo.ModTime", "io/fs.FileInfo.Name", "io/fs.FileInfo.Mode", "util.FileLike.Name":
		return false
	}
	for _, p := range []string{"os.", "os/exec.", "io.", "io/fs.", "io/ioutil.", "net/http.", "net.", "syscall.", "path/filepath.Walk", "util.Filesystem.", "util.FileLike.",
		"http.HttpService.", "http.", "image.ImageProcessingService.", "wikipedia.WikipediaService.", "sync.", "bufio.", "time.Sleep", "time.Now"} {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

func (ex *Exec) havocResult(st *State, sig *types.Signature, name string) Val {
	n := sig.Results().Len()
	var ts []*Term
	for i := 0; i < n; i++ {
		gt := sig.Results().At(i).Type()
		t := FreshV("r!"+name, sortOf(gt))
		switch gt.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			na := FreshV("alloc", SInt)
			ex.assume(st, Le(ex.get(st, "$alloc"), na))
			st.v["$alloc"] = na
		}
		ex.typeFacts(st, t, gt)
		ts = append(ts, t)
	}
	if n == 1 {
		return Val{t: ts[0]}
	}
	return Val{tuple: ts}
}

func (ex *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, bindings []*Term, args []Val, argVals []ssa.Value, in ssa.Instruction) (Val, *State) {
	key := fnKey(fn)
	if fs := ex.spec.funcs[key]; fs != nil && !fs.inline {
		if strings.HasPrefix(key, "sync.WaitGroup.") {
			if ex.theWG != nil && ex.theWG != args[0].t {
				panic(Unsupported{"more than one wait group"})
			}
			ex.theWG = args[0].t
		}
		r, s := ex.applyContract(fr, st, fs, fn.Signature, nil, args, in)
		if key == "sync.WaitGroup.Wait" && !s.dead() {
			ex.join(fr, s)
		}
		return r, s
	}
	if ex.running(st) || ex.thread != nil {
		switch key {
		case "sync.WaitGroup.Wait", "sync.WaitGroup.Add", "sync.WaitGroup.Done", "sync.WaitGroup.Go":
			panic(Unsupported{key + " without a contract"})
		}
	}
	if v, s, ok := ex.libModel(fr, st, fn, key, args, in); ok {
		return v, s
	}
	if !isModuleFn(fn) || len(fn.Blocks) == 0 {
		return ex.unknownExternal(fr, st, fn, key, args, in)
	}
	for _, f := range ex.stack {
		if f == fn {
			panic(Unsupported{"recursive call of " + key + " without a contract"})
		}
	}
	if len(ex.stack) > 30 {
		panic(Unsupported{"call depth"})
	}
	if ex.dry == 0 {
		ex.inlined[key] = true
	}
	return ex.inlineCall(fr, st, fn, bindings, args, fr.key+"/"+fn.Name()+"@"+instrID(in))
}

func (ex *Exec) inlineCall(fr *Frame, st *State, fn *ssa.Function, bindings []*Term, args []Val, key string) (Val, *State) {
	nf := ex.newFrame(fn, key, fr)
	if fs := ex.spec.funcs[fnKey(fn)]; fs != nil {
		nf.spec = fs
	}
	for i, p := range fn.Params {
		nf.regs[p] = args[i]
		if args[i].origin != nil {
			nf.origins[p] = args[i].origin
			nf.regs[p] = Val{t: args[i].t}
		}
	}
	for i, fv := range fn.FreeVars {
		nf.regs[fv] = Val{t: bindings[i]}
	}
	ex.stack = append(ex.stack, fn)
	if nf.spec != nil && len(nf.spec.ghostInit) > 0 {
		ev := ex.frameEnv(nf, st, nil, nil)
		for _, g := range nf.spec.ghostInit {
			ex.ghostSet(ev, g, st)
		}
	}
	entry := st.clone()
	ex.run(nf, nil, fn.Blocks[0], entry, nil)
	ex.stack = ex.stack[:len(ex.stack)-1]
	return ex.joinReturns(nf, fn)
}

func (ex *Exec) joinReturns(nf *Frame, fn *ssa.Function) (Val, *State) {
	var sts []*State
	var rets []retState
	for _, r := range nf.returns {
		if !r.st.dead() {
			sts = append(sts, r.st)
			rets = append(rets, r)
		}
	}
	m := ex.merge(sts)
	if m.dead() {
		return Val{}, m
	}
	pcs := make([]*Term, len(sts))
	for i, s := range sts {
		pcs[i] = s.pc
	}
	conds := relConds(pcs)
	n := fn.Signature.Results().Len()
	var out []*Term
	for j := 0; j < n; j++ {
		var acc *Term
		for i := len(rets) - 1; i >= 0; i-- {
			if acc == nil {
				acc = rets[i].vals[j]
			} else {
				acc = Ite(conds[i], rets[i].vals[j], acc)
			}
		}
		out = append(out, acc)
	}
	// cells of the finished call are dropped
	for k := range m.v {
		if strings.HasPrefix(k, "c:"+nf.key+":") || strings.HasPrefix(k, "c:"+nf.key+"/") {
			if !ex.escapedCell(out, k) {
				delete(m.v, k)
			}
		}
	}
	if n == 1 {
		return Val{t: out[0]}, m
	}
	return Val{tuple: out}, m
}

func (ex *Exec) escapedCell(out []*Term, k string) bool {
	for _, t := range out {
		if t != nil && t.sort == SFn {
			return true // closures may refer to cells of the finished call
		}
	}
	return false
}

func (ex *Exec) unknownExternal(fr *Frame, st *State, fn *ssa.Function, key string, args []Val, in ssa.Instruction) (Val, *State) {
	if ex.spec.strict && effectful(key) {
		ex.check("effect", "no call of "+key+" without a contract", st, False, in.Pos())
		if st.dead() {
			return Val{}, st
		}
	}
	if ts, ok := valueArgs(fn, key, args); ok {
		ex.trusted[key+" (a function of its arguments)"] = true
		var out []*Term
		n := fn.Signature.Results().Len()
		for i := 0; i < n; i++ {
			nm := "pf!" + key
			if n > 1 {
				nm = fmt.Sprintf("%s!%d", nm, i)
			}
			t := liftIte(nm, sortOf(fn.Signature.Results().At(i).Type()), ts, 4)
			ex.typeFacts(st, t, fn.Signature.Results().At(i).Type())
			out = append(out, t)
		}
		if n == 1 {
			return Val{t: out[0]}, st
		}
		return Val{tuple: out}, st
	}
	ex.trusted[key+" (result arbitrary, no effects)"] = true
	for i, a := range args {
		if a.t == nil {
			continue
		}
		if clo, ok := ex.closures[a.t]; ok {
			// the callback may run any number of times
			for _, b := range clo.bindings {
				if p, ok := placeTable[b]; ok {
					ex.store(st, p, FreshV("cb", sortOf(p.typ)))
				}
			}
			continue
		}
		x := a.t
		if isBoxCtor(x) {
			x = x.args[0]
		}
		_ = i
		if p, ok := placeTable[x]; ok && !p.strukt {
			ex.store(st, p, FreshV("out", sortOf(p.typ)))
		}
	}
	return ex.havocResult(st, fn.Signature, fn.Name()), st
}

func (ex *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, in ssa.Instruction) (Val, *State) {
	switch b.Name() {
	case "len":
		x := args[0].t
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Map:
			l := ex.mapLenHeap(u)
			v := Select(ex.get(st, l), x)
			ex.assume(st, Le(Int(0), v))
			return Val{t: Ite(Eq(x, Int(0)), Int(0), v)}, st
		case *types.Pointer:
			return Val{t: Int(u.Elem().Underlying().(*types.Array).Len())}, st
		case *types.Chan:
			v := FreshV("chlen", SInt)
			ex.assume(st, Le(Int(0), v))
			return Val{t: v}, st
		}
		return Val{t: Len(x)}, st
	case "cap":
		v := FreshV("cap", SInt)
		if args[0].t.sort.IsSeq() || args[0].t.sort == SString {
			ex.assume(st, Le(Len(args[0].t), v))
		}
		return Val{t: v}, st
	case "append":
		a, x := args[0].t, args[1].t
		if a.sort == SString {
			return Val{t: Concat(a, x)}, st
		}
		if x.sort != a.sort {
			panic(Unsupported{"append"})
		}
		return Val{t: SeqConcat(a, x)}, st
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		d, _ := ex.mapHeaps(m)
		l := ex.mapLenHeap(m)
		x, k := args[0].t, args[1].t
		dd, ld := ex.get(st, d), ex.get(st, l)
		has := Select(Select(dd, x), k)
		st.v[l] = Store(ld, x, Ite(has, Sub(Select(ld, x), Int(1)), Select(ld, x)))
		st.v[d] = Store(dd, x, Store(Select(dd, x), k, False))
		return Val{}, st
	case "panic":
		if ex.safety {
			ex.oblige(&Obl{kind: "safety", label: "panic not reached", pos: ex.pos(in.Pos())}, st, False)
		}
		return Val{}, &State{pc: False}
	case "close":
		if ex.spec.funcs["chan.close"] != nil {
			return Val{}, ex.closeChan(fr, st, args[0].t, c.Args[0].Type(), in)
		}
		return Val{}, st
	case "ssa:deferstack":
		return Val{t: Int(0)}, st
	case "ssa:wrapnilchk":
		return args[0], st
	case "recover":
		return Val{t: NilT}, st
	case "print", "println":
		return Val{}, st
	case "min", "max":
		r := args[0].t
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = Ite(Le(r, a.t), r, a.t)
			} else {
				r = Ite(Le(r, a.t), a.t, r)
			}
		}
		return Val{t: r}, st
	case "copy":
		// copy(dst, src): dst gets min(len) elements
		n := FreshV("ncopy", SInt)
		return Val{t: n}, ex.copyBuiltin(fr, st, c, args, n)
	}
	panic(Unsupported{"builtin " + b.Name()})
}

func (ex *Exec) copyBuiltin(fr *Frame, st *State, c *ssa.CallCommon, args []Val, n *Term) *State {
	d, s := args[0], args[1]
	if d.origin == nil || !d.t.sort.IsSeq() || ex.load(st, d.origin) != d.t {
		panic(Unsupported{"copy"})
	}
	ex.assume(st, Eq(n, Ite(Le(Len(d.t), Len(s.t)), Len(d.t), Len(s.t))))
	ex.storeAliased(fr, st, d.origin, d.t, SeqConcat(SeqExtract(s.t, Int(0), n), SeqExtract(d.t, n, Sub(Len(d.t), n))))
	return st
}

// libModel: library functions with built-in meaning.
func (ex *Exec) libModel(fr *Frame, st *State, fn *ssa.Function, key string, args []Val, in ssa.Instruction) (Val, *State, bool) {
	dead := &State{pc: False}
	if kind, ok := isSort(key); ok {
		return ex.sortModel(fr, st, key, kind, args, in)
	}
	if isBuilderMethod(fn) {
		return ex.builderMethod(st, fn, args, in)
	}
	if v, ok := ex.search(st, key, args); ok {
		return v, st, true
	}
	switch {
	case key == "fmt.Fprintf" || key == "io.WriteString":
		if v, s, ok := ex.fprintf(st, key, args); ok {
			return v, s, true
		}
	case strings.HasPrefix(key, "github.com/hauke96/sigolo/v2."):
		n := fn.Name()
		ex.trusted["sigolo logging (no effects; Fatal* and FatalCheck end the program)"] = true
		switch {
		case n == "FatalCheck" || n == "FatalCheckf":
			ex.assume(st, Eq(args[0].t, NilT))
			return Val{}, st, true
		case strings.HasPrefix(n, "Fatal"):
			return Val{}, dead, true
		}
		return ex.havocResult(st, fn.Signature, n), st, true
	case key == "regexp.MustCompile":
		v := ex.havocResult(st, fn.Signature, fn.Name())
		ex.assume(st, Lt(Int(0), v.t))
		if c, ok := in.(ssa.CallInstruction); ok {
			for _, f := range ex.regexFacts(c.Common(), v.t) {
				ex.assume(st, f)
			}
		}
		return v, st, true
	case key == "os.Exit":
		return Val{}, dead, true
	case key == "github.com/pkg/errors.Wrap" || key == "github.com/pkg/errors.Wrapf" || key == "github.com/pkg/errors.WithMessage" || key == "github.com/pkg/errors.WithStack":
		ex.trusted["github.com/pkg/errors (Wrap* is nil exactly for nil, New/Errorf never nil)"] = true
		return Val{t: Ite(Eq(args[0].t, NilT), NilT, App("wrapped", SAny, args[0].t))}, st.also(ex, Implies(Ne(args[0].t, NilT), Ne(App("wrapped", SAny, args[0].t), NilT))), true
	case key == "github.com/pkg/errors.New" || key == "github.com/pkg/errors.Errorf" || key == "errors.New" || key == "fmt.Errorf":
		ex.trusted["errors.New, errors.Errorf, fmt.Errorf (never nil)"] = true
		e := FreshV("err", SAny)
		ex.assume(st, Ne(e, NilT))
		return Val{t: e}, st, true
	case key == "fmt.Sprintf":
		return Val{t: ex.sprintf(st, args[0].t, args[1].t)}, st, true
	case key == "fmt.Print" || key == "fmt.Println" || key == "fmt.Printf":
		return ex.havocResult(st, fn.Signature, fn.Name()), st, true
	case key == "cmp.Compare" || key == "strings.Compare":
		if a, b := args[0].t, args[1].t; a.sort == SInt {
			return Val{t: Ite(Lt(a, b), Int(-1), Ite(Eq(a, b), Int(0), Int(1)))}, st, true
		} else if a.sort == SString {
			return Val{t: Ite(Eq(a, b), Int(0), Ite(mk("str.<", SBool, "", nil, a, b), Int(-1), Int(1)))}, st, true
		}
	case key == "strings.NewReplacer":
		v := ex.havocResult(st, fn.Signature, fn.Name())
		ex.assume(st, Lt(Int(0), v.t))
		if parts, ok := seqParts(args[0].t); ok {
			ex.replacers[v.t] = parts
		}
		return v, st, true
	case key == "strings.Replacer.Replace":
		if t := ex.replace(args[0].t, args[1].t); t != nil {
			ex.trusted["strings.NewReplacer with single (ASCII) characters (replaces each of them; the same as one strings.ReplaceAll after the other)"] = true
			return Val{t: t}, st, true
		}
	case key == "strings.Replace" && args[3].t.isInt() && args[3].t.i.Sign() < 0:
		ex.trusted["strings.ReplaceAll, strings.Replace with -1 (the same function)"] = true
		return Val{t: replaceAllTerm(args[0].t, args[1].t, args[2].t)}, st, true
	case key == "path/filepath.Walk":
		v, s := ex.walk(fr, st, args, in)
		return v, s, true
	}
	// functions that coincide with solver operations
	if fn.Signature.Results().Len() == 1 {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.t)
		}
		if t := nativePure(key, ts); t != nil {
			ex.trusted["strings.HasPrefix/HasSuffix/Contains/Index/TrimPrefix/TrimSuffix, strings.ReplaceAll, strconv.Itoa, filepath.IsAbs (operations of the solver; ReplaceAll: a function of its arguments)"] = true
			return Val{t: t}, st, true
		}
	}
	return Val{}, nil, false
}

func (s *State) also(ex *Exec, f *Term) *State {
	ex.assume(s, f)
	return s
}

// sprintf interprets constant formats.
func (ex *Exec) sprintf(st *State, format, args *Term) *Term {
	if format.op == "ite" {
		return Ite(format.args[0], ex.sprintf(st, format.args[1], args), ex.sprintf(st, format.args[2], args))
	}
	parts, ok := seqParts(args)
	if !format.isStr() || !ok {
		return App("sprintf", SString, format, args)
	}
	f := format.s
	var out []*Term
	lit := ""
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string([]byte{f[i]})
			continue
		}
		i++
		if i >= len(f) {
			return App("sprintf", SString, format, args)
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		j := i
		for j < len(f) && !(f[j] >= 'a' && f[j] <= 'z' || f[j] >= 'A' && f[j] <= 'Z') {
			j++
		}
		if j >= len(f) || ai >= len(parts) {
			return App("sprintf", SString, format, args)
		}
		verb := f[i : j+1]
		i = j
		a := parts[ai]
		ai++
		out = append(out, Str(lit))
		lit = ""
		done := false
		if isBoxCtor(a) {
			x := a.args[0]
			name := a.s[len("box!"):]
			basicStr := x.sort == SString && name == "string"
			basicInt := x.sort == SInt && (name == "int" || name == "int64" || name == "int32" || name == "uint64")
			if basicStr && (verb == "s" || verb == "v") {
				out = append(out, x)
				done = true
			}
			if basicInt && (verb == "d" || verb == "v") {
				out = append(out, Itoa(x))
				done = true
			}
		}
		if !done {
			if a.op == "ite" {
				// same text function on both sides
			}
			out = append(out, App("fmt!"+verb, SString, a))
		}
	}
	out = append(out, Str(lit))
	if ai != len(parts) {
		return App("sprintf", SString, format, args)
	}
	return Concat(out...)
}

// evalConst helps contracts that need small constants.
func constInt64(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Value))
}
