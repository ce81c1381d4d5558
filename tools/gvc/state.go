package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is a symbolic program state: a path condition and the values of cells ("c:"), heap arrays ("h:"),
// package variables ("g:") and ghosts ("$").
type State struct {
	pc *Term
	v  map[string]*Term
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, v: make(map[string]*Term, len(s.v)+4)}
	for k, t := range s.v {
		n.v[k] = t
	}
	return n
}

func (s *State) dead() bool { return s == nil || s.pc == False }

func (ex *Exec) declare(key string, s Sort) {
	if o, ok := ex.keySort[key]; ok && o != s {
		panic(Unsupported{fmt.Sprintf("state key %s used with sorts %s and %s", key, o, s)})
	}
	ex.keySort[key] = s
}

// get reads a state entry; an absent entry is its initial value.
func (ex *Exec) get(st *State, key string) *Term {
	if t, ok := st.v[key]; ok {
		return t
	}
	if t, ok := ex.constPlaces[key]; ok {
		return t
	}
	s, ok := ex.keySort[key]
	if !ok {
		panic(Unsupported{"unknown state entry " + key})
	}
	return heapVar(key, Var("init!"+sanitizeName(strings.TrimPrefix(strings.TrimPrefix(key, "h:"), "g:")), s))
}

// Place is a memory location.
type Place struct {
	base   string // state key
	ref    *Term  // index into a heap array, nil for cells and globals
	path   []Acc
	typ    types.Type // type of the location
	strukt bool       // a struct object referred to by ref (its fields live in one heap array each)
}

type Acc struct {
	typ   types.Type // struct type (field access) or nil (element access)
	idx   int
	index *Term
}

func (p *Place) key() string {
	var b strings.Builder
	b.WriteString(p.base)
	if p.ref != nil {
		fmt.Fprintf(&b, "[%d]", p.ref.id)
	}
	for _, a := range p.path {
		if a.typ != nil {
			fmt.Fprintf(&b, ".%d", a.idx)
		} else {
			fmt.Fprintf(&b, "#%d", a.index.id)
		}
	}
	return b.String()
}

var placeTable = map[*Term]*Place{}

// placeTerm is the pointer value that denotes a place.
func placeTerm(p *Place) *Term {
	if p.strukt {
		return p.ref
	}
	if p.ref != nil && len(p.path) == 0 && strings.HasPrefix(p.base, "h:*") {
		return p.ref
	}
	if p.ref != nil && len(p.path) == 0 {
		// field of a heap object: an interior pointer, kept as an address
		t := App("addrof!"+p.base, SInt, p.ref)
		placeTable[t] = p
		return t
	}
	t := Var("addr!"+p.key(), SInt)
	placeTable[t] = p
	return t
}

func isAddr(t *Term) bool {
	_, ok := placeTable[t]
	return ok
}

func containsAddr(t *Term) bool {
	if isAddr(t) {
		return true
	}
	if t.op == "ite" {
		return containsAddr(t.args[1]) || containsAddr(t.args[2])
	}
	return false
}

func isStructType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (ex *Exec) derefPlace(ptr *Term, elem types.Type) *Place {
	if p, ok := placeTable[ptr]; ok {
		return p
	}
	if containsAddr(ptr) {
		panic(Unsupported{"pointer to one of several local variables"})
	}
	if isStructType(elem) {
		return &Place{ref: ptr, typ: elem, strukt: true}
	}
	key := "h:*" + typeKey(elem)
	ex.declare(key, ArrayOf(SInt, sortOf(elem)))
	return &Place{base: key, ref: ptr, typ: elem}
}

func (ex *Exec) fieldPlace(p *Place, structType types.Type, i int) *Place {
	st := structType.Underlying().(*types.Struct)
	ft := st.Field(i).Type()
	if p.strukt {
		key := "h:" + typeKey(structType) + "." + st.Field(i).Name()
		ex.declare(key, ArrayOf(SInt, sortOf(ft)))
		ex.heapType[key] = ft
		return &Place{base: key, ref: p.ref, typ: ft}
	}
	n := *p
	n.path = append(append([]Acc{}, p.path...), Acc{typ: structType, idx: i})
	n.typ = ft
	return &n
}

func (ex *Exec) indexPlace(p *Place, i *Term, elem types.Type) *Place {
	n := *p
	if p.strukt {
		panic(Unsupported{"index of struct"})
	}
	n.path = append(append([]Acc{}, p.path...), Acc{index: i})
	n.typ = elem
	return &n
}

func (ex *Exec) structField(v *Term, t types.Type, i int) *Term {
	if si := structInfo(t); si != nil {
		return getField(si, v, i)
	}
	st := t.Underlying().(*types.Struct)
	return App("fld!"+typeKey(t)+"."+st.Field(i).Name(), sortOf(st.Field(i).Type()), v)
}

func (ex *Exec) structSet(v *Term, t types.Type, i int, nv *Term) *Term {
	if si := structInfo(t); si != nil {
		return setField(si, v, i, nv)
	}
	st := t.Underlying().(*types.Struct)
	f := Fresh("ext", v.sort)
	ex.facts = append(ex.facts, Eq(App("fld!"+typeKey(t)+"."+st.Field(i).Name(), nv.sort, f), nv))
	return f
}

func (ex *Exec) load(st *State, p *Place) *Term {
	if p.strukt {
		if si := structInfo(p.typ); si != nil {
			var args []*Term
			for i, f := range si.fields {
				args = append(args, wrapField(f, ex.load(st, ex.fieldPlace(p, p.typ, i))))
			}
			return Ctor(si.sort, args...)
		}
		key := "h:*" + typeKey(p.typ)
		ex.declare(key, ArrayOf(SInt, sortOf(p.typ)))
		return Select(ex.get(st, key), p.ref)
	}
	v := ex.get(st, p.base)
	if p.ref != nil {
		v = Select(v, p.ref)
	}
	for _, a := range p.path {
		v = ex.access(v, a)
	}
	return v
}

func (ex *Exec) access(v *Term, a Acc) *Term {
	if a.typ != nil {
		return ex.structField(v, a.typ, a.idx)
	}
	if v.sort == SString {
		return CodeAt(v, a.index)
	}
	return SeqNth(v, a.index)
}

func (ex *Exec) update(v *Term, path []Acc, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	a := path[0]
	inner := ex.update(ex.access(v, a), path[1:], nv)
	if a.typ != nil {
		return ex.structSet(v, a.typ, a.idx, inner)
	}
	if v.sort == SString {
		panic(Unsupported{"store into a byte slice"})
	}
	return SeqUpd(v, a.index, inner)
}

func (ex *Exec) store(st *State, p *Place, nv *Term) {
	if p.strukt {
		if si := structInfo(p.typ); si != nil {
			for i := range si.fields {
				ex.store(st, ex.fieldPlace(p, p.typ, i), getField(si, nv, i))
			}
			return
		}
		key := "h:*" + typeKey(p.typ)
		ex.declare(key, ArrayOf(SInt, sortOf(p.typ)))
		st.v[key] = Store(ex.get(st, key), p.ref, nv)
		return
	}
	if p.ref != nil {
		arr := ex.get(st, p.base)
		st.v[p.base] = Store(arr, p.ref, ex.update(Select(arr, p.ref), p.path, nv))
		ex.wrote(st, p.base, p.ref, arr, st.v[p.base])
		return
	}
	if isTmp(p) {
		ex.tmpStore(st, p, nv)
		return
	}
	var old *Term
	if len(p.path) > 0 {
		old = ex.get(st, p.base)
	}
	was := ex.get0(st, p.base)
	st.v[p.base] = ex.update(old, p.path, nv)
	ex.wrote(st, p.base, nil, was, st.v[p.base])
}

// ---- heaps of maps

func (ex *Exec) mapHeaps(m *types.Map) (string, string) {
	k, v := sortOf(m.Key()), sortOf(m.Elem())
	n := typeKey(m)
	d, vv := "h:mapdom:"+n, "h:mapval:"+n
	ex.declare(d, ArrayOf(SInt, ArrayOf(k, SBool)))
	ex.declare(vv, ArrayOf(SInt, ArrayOf(k, v)))
	return d, vv
}
func (ex *Exec) mapLenHeap(m *types.Map) string {
	l := "h:maplen:" + typeKey(m)
	ex.declare(l, ArrayOf(SInt, SInt))
	return l
}
func (ex *Exec) heapGet(st *State, key string) *Term { return ex.get(st, key) }

func (ex *Exec) heapByName(st *State, name string) *Term {
	// "pkg.Type.field"
	k := strings.LastIndex(name, ".")
	t := ex.lookupType(name[:k])
	if t == nil {
		panic(SpecError{"unknown heap " + name})
	}
	s, ok := t.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name[k+1:] {
				p := ex.fieldPlace(&Place{ref: Int(0), typ: t, strukt: true}, t, i)
				return ex.get(st, p.base)
			}
		}
	}
	panic(SpecError{"unknown heap " + name})
}

// ---- globals

func globalKey(g *ssa.Global) string {
	return "g:" + shortPkg(g.Pkg.Pkg) + "." + g.Name()
}

func (ex *Exec) loadGlobal(st *State, g *ssa.Global) *Term {
	t := g.Type().(*types.Pointer).Elem()
	if c, ok := ex.constGlobal(g); ok {
		return c
	}
	k := globalKey(g)
	ex.declare(k, sortOf(t))
	return ex.get(st, k)
}

// constGlobal: a package variable that no function of the module assigns after package initialisation.
func (ex *Exec) constGlobal(g *ssa.Global) (*Term, bool) {
	if t, ok := ex.globConst[g]; ok {
		return t, t != nil
	}
	ex.globConst[g] = nil
	if !isModulePkg(g.Pkg.Pkg) {
		// variables of libraries (io.EOF and the like) are never assigned by the module
		s := sortOf(g.Type().(*types.Pointer).Elem())
		t := Var("glob!"+g.Pkg.Pkg.Path()+"."+g.Name(), s)
		ex.globConst[g] = t
		return t, true
	}
	if len(ex.globStores[g]) > 1 || ex.globAddr[g] {
		return nil, false
	}
	elem := g.Type().(*types.Pointer).Elem()
	if len(ex.globStores[g]) == 0 {
		t := zeroValue(elem)
		if _, isStruct := elem.Underlying().(*types.Struct); isStruct {
			return nil, false
		}
		ex.globConst[g] = t
		return t, true
	}
	s := ex.globStores[g][0]
	if s.Parent() == nil || s.Parent().Name() != "init" && !strings.HasPrefix(s.Parent().Name(), "init#") {
		return nil, false
	}
	switch v := s.Val.(type) {
	case *ssa.Const:
		t := ex.constTerm(v)
		ex.globConst[g] = t
		return t, true
	case *ssa.Function:
		t := ex.fnTerm(v)
		ex.globConst[g] = t
		return t, true
	}
	if c := ex.constInit(s.Val); c != nil {
		ex.globConst[g] = c
		return c, true
	}
	if t, ok := ex.constSlice(s); ok {
		ex.globConst[g] = t
		return t, true
	}
	switch elem.Underlying().(type) {
	case *types.Map:
		// content may change; the reference does not
	}
	t := Var("glob!"+shortPkg(g.Pkg.Pkg)+"."+g.Name(), sortOf(elem))
	if t.sort == SInt {
		if _, ok := elem.Underlying().(*types.Basic); !ok {
			ex.globalFacts = append(ex.globalFacts, Lt(Int(0), t), Lt(t, Var("init!$alloc", SInt)))
			if call, ok := s.Val.(*ssa.Call); ok {
				ex.globalFacts = append(ex.globalFacts, ex.regexFacts(&call.Call, t)...)
				if fn := call.Call.StaticCallee(); fn != nil && fn.String() == "strings.NewReplacer" {
					if e, ok := ex.constElems(call.Call.Args[0]); ok {
						if parts, ok := seqParts(e); ok {
							ex.replacers[t] = parts
						}
					}
				}
			}
		}
	}
	if t.sort == SAny {
		if mi, ok := s.Val.(*ssa.MakeInterface); ok {
			b := Box(boxName(mi.X.Type()), Var(t.s+"!v", sortOf(mi.X.Type())))
			if _, isPtr := mi.X.Type().Underlying().(*types.Pointer); isPtr {
				ex.globalFacts = append(ex.globalFacts, Lt(Int(0), b.args[0]), Lt(b.args[0], Var("init!$alloc", SInt)))
			}
			t = b
		}
	}
	ex.globConst[g] = t
	return t, true
}

// constSlice evaluates a package level slice literal of constants.
func (ex *Exec) constSlice(s *ssa.Store) (*Term, bool) {
	return ex.constElems(s.Val)
}

func (ex *Exec) constElems(v ssa.Value) (*Term, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 256 {
		return nil, false
	}
	vals := make([]*Term, at.Len())
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			ic, ok := x.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, r2 := range *x.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok {
					return nil, false
				}
				c := ex.constInit(st.Val)
				if c == nil {
					return nil, false
				}
				n, _ := constant.Int64Val(ic.Value)
				vals[n] = c
			}
		case *ssa.Slice, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	for i := range vals {
		if vals[i] == nil {
			vals[i] = zeroValue(at.Elem())
		}
	}
	if isByteSlice(types.NewSlice(at.Elem())) {
		return nil, false
	}
	return SeqFromParts(SeqOf(sortOf(at.Elem())), vals), true
}

// constInit: constants, also through loads of constant globals.
func (ex *Exec) constInit(v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return ex.constTerm(v)
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok {
			if t, ok := ex.constGlobal(g); ok {
				return t
			}
		}
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if t := ex.constInit(v.Call.Args[0]); t != nil && t.isStr() {
				return Int(int64(len(t.s)))
			}
		}
	}
	return nil
}

// regexFacts: groups and shortest match of a regular expression that is known at compile time.
func (ex *Exec) regexFacts(c *ssa.CallCommon, re *Term) []*Term {
	fn := c.StaticCallee()
	if fn == nil || fn.String() != "regexp.MustCompile" && fn.String() != "regexp.Compile" {
		return nil
	}
	t := ex.constInit(c.Args[0])
	if t == nil || !t.isStr() {
		return nil
	}
	x, err := syntax.Parse(t.s, syntax.Perl)
	if err != nil {
		return nil
	}
	ex.trusted["regexp: number of groups and length of the shortest match as regexp/syntax parses the expression"] = true
	return []*Term{Eq(App("re.groups", SInt, re), Int(int64(x.MaxCap()))), Eq(App("re.min", SInt, re), Int(int64(minMatch(x))))}
}

func minMatch(x *syntax.Regexp) int {
	switch x.Op {
	case syntax.OpLiteral:
		return len(x.Rune)
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return minMatch(x.Sub[0])
	case syntax.OpRepeat:
		return x.Min * minMatch(x.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, s := range x.Sub {
			n += minMatch(s)
		}
		return n
	case syntax.OpAlternate:
		n := minMatch(x.Sub[0])
		for _, s := range x.Sub[1:] {
			n = min(n, minMatch(s))
		}
		return n
	}
	return 0
}

func (ex *Exec) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	switch sortOf(c.Type()) {
	case SInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Int(i)
		}
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return BigInt(n)
	case SBool:
		return Bool(constant.BoolVal(c.Value))
	case SString:
		return Str(constant.StringVal(c.Value))
	case SReal:
		v := constant.ToFloat(c.Value)
		num, den := constant.Num(v), constant.Denom(v)
		n, ok1 := new(big.Int).SetString(num.ExactString(), 10)
		d, ok2 := new(big.Int).SetString(den.ExactString(), 10)
		if !ok1 || !ok2 {
			return Fresh("float", SReal)
		}
		nt := mk("int", SReal, "", n)
		if d.IsInt64() && d.Int64() == 1 {
			return nt
		}
		return mk("/", SReal, "", nil, nt, mk("int", SReal, "", d))
	}
	panic(Unsupported{"constant " + c.String()})
}

// ---- functions as values

type Closure struct {
	fn       *ssa.Function
	bindings []*Term
}

func (ex *Exec) fnTerm(fn *ssa.Function) *Term {
	t := Var("fn!"+fnKey(fn), SFn)
	ex.closures[t] = &Closure{fn: fn}
	return t
}

func (ex *Exec) fnConst(key string) *Term { return Var("fn!"+key, SFn) }

// fnKey names a function in contracts.
func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		n := fn.Name()
		// closure names are parent$1
		if k := strings.LastIndex(n, "$"); k >= 0 {
			return fnKey(fn.Parent()) + n[k:]
		}
		return fnKey(fn.Parent()) + "$" + n
	}
	var pkg string
	if fn.Pkg != nil {
		pkg = shortPkg(fn.Pkg.Pkg)
	} else if fn.Object() != nil {
		pkg = shortPkg(fn.Object().Pkg())
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		name := typeKey(t)
		if n, ok := types.Unalias(t).(*types.Named); ok {
			name = n.Obj().Name()
			if n.Obj().Pkg() != nil {
				pkg = shortPkg(n.Obj().Pkg())
			}
		}
		return pkg + "." + name + "." + fn.Name()
	}
	return pkg + "." + fn.Name()
}
