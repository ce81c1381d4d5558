package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SVal is a value in a contract expression: a term and, if known, its Go type.
type SVal struct {
	t  *Term
	gt types.Type
}

type SpecError struct{ msg string }

func specErr(e *Expr, f string, a ...interface{}) {
	loc := ""
	if e != nil {
		loc = fmt.Sprintf("%s:%d: ", e.file, e.line)
	}
	panic(SpecError{loc + fmt.Sprintf(f, a...)})
}

// Env is the context in which a contract expression is evaluated.
type Env struct {
	ex    *Exec
	st    *State
	old   *State
	vars  map[string]SVal
	ovars map[string]SVal // values of vars inside old()
	frame *Frame
	block *ssa.BasicBlock
	pkg   *types.Package
	loop  *Loop
	sub   map[string]string // local variables to use for names
}

func (e *Env) clone() *Env {
	n := *e
	n.vars = map[string]SVal{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

func (ev *Env) bool(e *Expr) *Term {
	v := ev.eval(e)
	if v.t.sort != SBool {
		specErr(e, "expected a bool, got %s", v.t.sort)
	}
	return v.t
}

// resolveType turns a contract type into a sort and a Go type.
func (ex *Exec) resolveType(te *TypeExpr) (Sort, types.Type) {
	if te == nil {
		return SInt, types.Typ[types.Int]
	}
	if te.ptr {
		t2 := *te
		t2.ptr = false
		_, gt := ex.resolveType(&t2)
		if gt == nil {
			panic(SpecError{"unknown pointer type " + te.name})
		}
		p := types.NewPointer(gt)
		return SInt, p
	}
	switch te.name {
	case "int":
		return SInt, types.Typ[types.Int]
	case "bool":
		return SBool, types.Typ[types.Bool]
	case "string":
		return SString, types.Typ[types.String]
	case "real":
		return SReal, types.Typ[types.Float64]
	case "any":
		return SAny, types.Universe.Lookup("any").Type()
	case "error":
		return SAny, types.Universe.Lookup("error").Type()
	case "fn":
		return SFn, nil
	case "ref":
		return SInt, types.Typ[types.Int]
	case "seq":
		s, gt := ex.resolveType(te.args[0])
		if gt != nil {
			return SeqOf(s), types.NewSlice(gt)
		}
		return SeqOf(s), nil
	case "map":
		_, k := ex.resolveType(te.args[0])
		_, v := ex.resolveType(te.args[1])
		if k == nil || v == nil {
			panic(SpecError{"unknown map type"})
		}
		return SInt, types.NewMap(k, v)
	case "arr":
		k, _ := ex.resolveType(te.args[0])
		v, _ := ex.resolveType(te.args[1])
		return ArrayOf(k, v), nil
	}
	gt := ex.lookupType(te.name)
	if gt == nil {
		panic(SpecError{"unknown type " + te.name})
	}
	return sortOf(gt), gt
}

// arrElem keeps the Go element types of arr[...] types that cannot be represented as Go types.
type arrType struct{}

func (ex *Exec) lookupType(name string) types.Type {
	if strings.HasPrefix(name, "*") {
		if t := ex.lookupType(name[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(name, "[]") {
		if t := ex.lookupType(name[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if strings.HasPrefix(name, "map[") {
		if k := strings.Index(name, "]"); k > 0 {
			kt, vt := ex.lookupType(name[4:k]), ex.lookupType(name[k+1:])
			if kt != nil && vt != nil {
				return types.NewMap(kt, vt)
			}
		}
		return nil
	}
	if o := types.Universe.Lookup(name); o != nil {
		return o.Type()
	}
	k := strings.LastIndex(name, ".")
	if k < 0 {
		return nil
	}
	pk, tn := name[:k], name[k+1:]
	for _, p := range ex.prog.AllPackages() {
		if p.Pkg == nil {
			continue
		}
		if shortPkg(p.Pkg) == pk || p.Pkg.Path() == pk {
			if o, ok := p.Pkg.Scope().Lookup(tn).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

func (ev *Env) eval(e *Expr) SVal {
	ex := ev.ex
	switch e.op {
	case "int":
		n, _ := strconv.ParseInt(e.s, 10, 64)
		return SVal{Int(n), types.Typ[types.Int]}
	case "str":
		return SVal{Str(e.s), types.Typ[types.String]}
	case "id":
		return ev.ident(e, e.s)
	case "un":
		v := ev.eval(e.args[0])
		if e.s == "!" {
			return SVal{Not(v.t), v.gt}
		}
		return SVal{Sub(Int(0), v.t), v.gt}
	case "bin":
		return ev.binary(e)
	case "sel":
		// dotted names: package-level variables and constants
		if name, ok := dotted(e); ok {
			if v, ok := ev.global(name); ok {
				return v
			}
		}
		base := ev.eval(e.args[0])
		return ev.field(e, base, e.s)
	case "index":
		a := ev.eval(e.args[0])
		i := ev.eval(e.args[1])
		switch {
		case a.t.sort == SString:
			return SVal{CodeAt(a.t, i.t), types.Typ[types.Int]}
		case a.t.sort.IsSeq():
			return SVal{SeqNth(a.t, i.t), elemType(a.gt)}
		case a.t.sort.IsArray():
			return SVal{Select(a.t, i.t), nil}
		}
		if m, ok := under(a.gt).(*types.Map); ok {
			_, vals := ex.mapHeaps(m)
			mv := ex.heapGet(ev.st, vals)
			return SVal{Select(Select(mv, a.t), i.t), m.Elem()}
		}
		specErr(e, "cannot index %s of sort %s", e.args[0], a.t.sort)
	case "slice":
		a := ev.eval(e.args[0])
		lo := Int(0)
		if e.args[1] != nil {
			lo = ev.eval(e.args[1]).t
		}
		hi := Len(a.t)
		if e.args[2] != nil {
			hi = ev.eval(e.args[2]).t
		}
		if a.t.sort == SString {
			return SVal{Substr(a.t, lo, Sub(hi, lo)), a.gt}
		}
		return SVal{SeqExtract(a.t, lo, Sub(hi, lo)), a.gt}
	case "forall", "exists":
		var v *Term
		var gt types.Type
		freshCtr["bv"]++
		nm := fmt.Sprintf("%s!b%d", e.s, freshCtr["bv"])
		ne := ev.clone()
		var body *Term
		if len(e.args) == 3 {
			v = Bound(nm, SInt)
			lo, hi := ev.eval(e.args[0]).t, ev.eval(e.args[1]).t
			ne.vars[e.s] = SVal{v, types.Typ[types.Int]}
			if ne.ovars != nil {
				ne.ovars = cloneVars(ne.ovars)
				ne.ovars[e.s] = ne.vars[e.s]
			}
			b := ne.bool(e.args[2])
			rng := And(Le(lo, v), Lt(v, hi))
			if e.op == "forall" {
				body = Implies(rng, b)
			} else {
				body = And(rng, b)
			}
		} else {
			var s Sort
			s, gt = ex.resolveType(e.ty)
			v = Bound(nm, s)
			ne.vars[e.s] = SVal{v, gt}
			if ne.ovars != nil {
				ne.ovars = cloneVars(ne.ovars)
				ne.ovars[e.s] = ne.vars[e.s]
			}
			body = ne.bool(e.args[0])
		}
		if e.op == "forall" {
			return SVal{Forall(v, body), types.Typ[types.Bool]}
		}
		return SVal{Exists(v, body), types.Typ[types.Bool]}
	case "call":
		return ev.call(e)
	}
	specErr(e, "cannot evaluate %s", e)
	return SVal{}
}

func cloneVars(m map[string]SVal) map[string]SVal {
	n := map[string]SVal{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func dotted(e *Expr) (string, bool) {
	switch e.op {
	case "id":
		return e.s, true
	case "sel":
		if b, ok := dotted(e.args[0]); ok {
			return b + "." + e.s, true
		}
	}
	return "", false
}

func (ev *Env) ident(e *Expr, n string) SVal {
	if to, ok := ev.sub[n]; ok && to != n && ev.frame != nil {
		_, bound := ev.vars[n]
		_, param := ev.ovars[n]
		if !bound || param {
			if v, ok := ev.ex.local(ev, n); ok {
				return v
			}
		}
	}
	if v, ok := ev.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return SVal{True, types.Typ[types.Bool]}
	case "false":
		return SVal{False, types.Typ[types.Bool]}
	case "nil":
		return SVal{nil, nil}
	}
	if _, ok := ev.ex.ghostSort[n]; ok {
		return SVal{ev.ex.get(ev.st, "$"+n), ev.ex.ghostType[n]}
	}
	if n == "$alloc" {
		return SVal{ev.ex.get(ev.st, "$alloc"), nil}
	}
	if ev.frame != nil {
		if v, ok := ev.ex.local(ev, n); ok {
			return v
		}
	}
	if v, ok := ev.ovars[n]; ok && ev.frame != nil {
		return v
	}
	if v, ok := ev.global(n); ok {
		return v
	}
	specErr(e, "unknown name %q", n)
	return SVal{}
}

// global resolves pkg.Name to a package-level variable or constant.
func (ev *Env) global(name string) (SVal, bool) {
	k := strings.LastIndex(name, ".")
	var pk, n string
	if k < 0 {
		if ev.pkg == nil {
			return SVal{}, false
		}
		pk, n = shortPkg(ev.pkg), name
	} else {
		pk, n = name[:k], name[k+1:]
	}
	for _, p := range ev.ex.prog.AllPackages() {
		if p.Pkg == nil || shortPkg(p.Pkg) != pk {
			continue
		}
		switch m := p.Members[n].(type) {
		case *ssa.Global:
			t := m.Type().(*types.Pointer).Elem()
			return SVal{ev.ex.loadGlobal(ev.st, m), t}, true
		case *ssa.NamedConst:
			return SVal{ev.ex.constTerm(m.Value), m.Value.Type()}, true
		}
	}
	return SVal{}, false
}

func (ev *Env) field(e *Expr, base SVal, name string) SVal {
	if base.gt == nil {
		specErr(e, "field %s of a value without Go type: %s", name, e.args[0])
	}
	t := base.gt
	if p, ok := t.Underlying().(*types.Pointer); ok {
		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			specErr(e, "no struct: %s", t)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				pl := ev.ex.fieldPlace(ev.ex.derefPlace(base.t, p.Elem()), p.Elem(), i)
				return SVal{ev.ex.load(ev.st, pl), st.Field(i).Type()}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				pl := ev.ex.fieldPlace(ev.ex.derefPlace(base.t, p.Elem()), p.Elem(), i)
				if hasField(st.Field(i).Type(), name) {
					return ev.field(e, SVal{ev.ex.load(ev.st, pl), st.Field(i).Type()}, name)
				}
			}
		}
		specErr(e, "no field %s in %s", name, t)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		specErr(e, "no struct: %s", t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return SVal{ev.ex.structField(base.t, t, i), st.Field(i).Type()}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() && hasField(st.Field(i).Type(), name) {
			return ev.field(e, SVal{ev.ex.structField(base.t, t, i), st.Field(i).Type()}, name)
		}
	}
	specErr(e, "no field %s in %s", name, t)
	return SVal{}
}

func hasField(t types.Type, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// unify makes nil literals match the other operand.
func unifyNil(e *Expr, a, b SVal) (SVal, SVal) {
	mkNil := func(o SVal) SVal {
		switch {
		case o.t.sort == SAny:
			return SVal{NilT, o.gt}
		case o.t.sort == SInt:
			return SVal{Int(0), o.gt}
		case o.t.sort.IsSeq():
			return SVal{SeqEmpty(o.t.sort), o.gt}
		case o.t.sort == SFn:
			return SVal{Var("nilFn", SFn), o.gt}
		case o.t.sort == SString:
			return SVal{Str(""), o.gt}
		}
		specErr(e, "nil compared with %s", o.t.sort)
		return o
	}
	if a.t == nil && b.t == nil {
		return SVal{NilT, nil}, SVal{NilT, nil}
	}
	if a.t == nil {
		a = mkNil(b)
	}
	if b.t == nil {
		b = mkNil(a)
	}
	return a, b
}

func (ev *Env) binary(e *Expr) SVal {
	B := types.Typ[types.Bool]
	switch e.s {
	case "&&":
		a := ev.bool(e.args[0])
		if a == False {
			return SVal{False, B}
		}
		return SVal{And(a, ev.bool(e.args[1])), B}
	case "||":
		a := ev.bool(e.args[0])
		if a == True {
			return SVal{True, B}
		}
		return SVal{Or(a, ev.bool(e.args[1])), B}
	case "==>":
		a := ev.bool(e.args[0])
		if a == False {
			return SVal{True, B}
		}
		return SVal{Implies(a, ev.bool(e.args[1])), B}
	case "<==>":
		return SVal{Eq(ev.bool(e.args[0]), ev.bool(e.args[1])), B}
	}
	a, b := ev.eval(e.args[0]), ev.eval(e.args[1])
	if e.s == "==" || e.s == "!=" {
		a, b = unifyNil(e, a, b)
		// string/char comparison
		if a.t.sort != b.t.sort {
			specErr(e, "comparison of %s and %s in %s", a.t.sort, b.t.sort, e)
		}
		if e.s == "==" {
			return SVal{Eq(a.t, b.t), B}
		}
		return SVal{Ne(a.t, b.t), B}
	}
	if a.t == nil || b.t == nil {
		specErr(e, "nil operand")
	}
	if a.t.sort != b.t.sort {
		specErr(e, "operands of %s: %s and %s", e.s, a.t.sort, b.t.sort)
	}
	switch e.s {
	case "+":
		if a.t.sort == SString {
			return SVal{Concat(a.t, b.t), a.gt}
		}
		if a.t.sort.IsSeq() {
			return SVal{SeqConcat(a.t, b.t), a.gt}
		}
		return SVal{Add(a.t, b.t), a.gt}
	case "++":
		if a.t.sort == SString {
			return SVal{Concat(a.t, b.t), a.gt}
		}
		gt := a.gt
		if gt == nil {
			gt = b.gt
		}
		return SVal{SeqConcat(a.t, b.t), gt}
	case "-":
		return SVal{Sub(a.t, b.t), a.gt}
	case "*":
		return SVal{Mul(a.t, b.t), a.gt}
	case "<":
		return SVal{Lt(a.t, b.t), B}
	case "<=":
		return SVal{Le(a.t, b.t), B}
	case ">":
		return SVal{Lt(b.t, a.t), B}
	case ">=":
		return SVal{Le(b.t, a.t), B}
	}
	specErr(e, "operator %s", e.s)
	return SVal{}
}

func (ev *Env) coerce(e *Expr, v SVal, s Sort) SVal {
	if v.t == nil {
		dummy := SVal{Var("dummy", s), nil}
		_, v = unifyNil(e, dummy, v)
	}
	if v.t.sort != s {
		specErr(e, "argument %s has sort %s, expected %s", e, v.t.sort, s)
	}
	return v
}

func (ev *Env) call(e *Expr) SVal {
	ex := ev.ex
	name, ok := dotted(e.args[0])
	args := e.args[1:]
	if !ok {
		specErr(e, "bad call")
	}
	I, B, S := types.Typ[types.Int], types.Typ[types.Bool], types.Typ[types.String]
	a := func(i int) SVal { return ev.eval(args[i]) }
	lit := func(i int) string {
		if args[i].op == "str" {
			return args[i].s
		}
		if n, ok := dotted(args[i]); ok {
			return n
		}
		specErr(args[i], "expected a name")
		return ""
	}
	switch name {
	case "old":
		if ev.old == nil {
			specErr(e, "old() not available here")
		}
		n := ev.clone()
		n.st = ev.old
		if ev.ovars != nil {
			n.vars = ev.ovars
		}
		return n.eval(args[0])
	case "entry": // the value when the loop was entered
		if ev.loop == nil || ev.loop.pre == nil {
			specErr(e, "entry() outside of a loop")
		}
		n := ev.clone()
		n.st = ev.loop.pre
		return n.eval(args[0])
	case "len":
		v := a(0)
		if m, ok := under(v.gt).(*types.Map); ok {
			return SVal{Select(ex.heapGet(ev.st, ex.mapLenHeap(m)), v.t), I}
		}
		if v.t.sort != SString && !v.t.sort.IsSeq() {
			specErr(e, "len of %s", v.t.sort)
		}
		return SVal{Len(v.t), I}
	case "contains":
		x := a(0)
		if x.t.sort.IsSeq() {
			return SVal{mk("seq.contains", SBool, "", nil, x.t, SeqUnit(ev.coerce(args[1], a(1), x.t.sort.Elem()).t)), B}
		}
		return SVal{StrContains(x.t, a(1).t), B}
	case "prefix": // prefix(s, p): s starts with p
		x := a(0)
		if x.t.sort.IsSeq() {
			return SVal{mk("seq.prefixof", SBool, "", nil, a(1).t, x.t), B}
		}
		return SVal{StrPrefix(a(1).t, x.t), B}
	case "suffix":
		return SVal{StrSuffix(a(1).t, a(0).t), B}
	case "indexOf":
		from := Int(0)
		if len(args) > 2 {
			from = a(2).t
		}
		return SVal{IndexOf(a(0).t, a(1).t, from), I}
	case "replace1":
		return SVal{mk("str.replace", SString, "", nil, a(0).t, a(1).t, a(2).t), S}
	case "itoa":
		return SVal{Itoa(a(0).t), S}
	case "runes": // the runes of a text
		return SVal{runesOf(a(0).t), types.NewSlice(types.Typ[types.Rune])}
	case "chr":
		return SVal{FromCode(a(0).t), S}
	case "ite":
		c := ev.bool(args[0])
		x, y := unifyNil(e, a(1), a(2))
		return SVal{Ite(c, x.t, y.t), x.gt}
	case "real":
		return SVal{toReal(a(0).t), types.Typ[types.Float64]}
	case "string":
		// conversion of a byte or rune slice
		v := a(0)
		if v.gt == nil {
			specErr(e, "string of a value without Go type")
		}
		return SVal{ex.convert(ev.st, v.t, v.gt, types.Typ[types.String]), types.Typ[types.String]}
	case "trunc":
		return SVal{truncReal(a(0).t), types.Typ[types.Int]}
	case "truncdiv":
		return SVal{truncDiv(a(0).t, a(1).t), types.Typ[types.Int]}
	case "min":
		x, y := a(0), a(1)
		return SVal{Ite(Le(x.t, y.t), x.t, y.t), x.gt}
	case "max":
		x, y := a(0), a(1)
		return SVal{Ite(Le(x.t, y.t), y.t, x.t), x.gt}
	case "isType":
		gt := ex.lookupType(lit(1))
		if gt == nil {
			specErr(e, "unknown type %s", lit(1))
		}
		return SVal{Eq(TypeOf(a(0).t), tagOf(boxName(gt))), B}
	case "as":
		gt := ex.lookupType(lit(1))
		if gt == nil {
			specErr(e, "unknown type %s", lit(1))
		}
		return SVal{Unbox(boxName(gt), sortOf(gt), a(0).t), gt}
	case "box":
		if len(args) == 1 {
			v := a(0)
			if v.gt == nil {
				specErr(e, "box of a value without Go type")
			}
			return SVal{Box(boxName(v.gt), v.t), types.Universe.Lookup("any").Type()}
		}
		gt := ex.lookupType(lit(1))
		if gt == nil {
			specErr(e, "unknown type %s", lit(1))
		}
		return SVal{Box(boxName(gt), ev.coerce(args[0], a(0), sortOf(gt)).t), types.Universe.Lookup("any").Type()}
	case "dom":
		v := a(0)
		m, ok := under(v.gt).(*types.Map)
		if !ok {
			specErr(e, "dom of a non-map")
		}
		d, _ := ex.mapHeaps(m)
		return SVal{Select(Select(ex.heapGet(ev.st, d), v.t), a(1).t), B}
	case "mapdom", "mapval":
		v := a(0)
		m, ok := under(v.gt).(*types.Map)
		if !ok {
			specErr(e, "%s of a non-map", name)
		}
		d, vv := ex.mapHeaps(m)
		if name == "mapdom" {
			return SVal{Select(ex.heapGet(ev.st, d), v.t), nil}
		}
		return SVal{Select(ex.heapGet(ev.st, vv), v.t), nil}
	case "upd":
		x := a(0)
		if x.t.sort.IsSeq() {
			return SVal{SeqUpd(x.t, a(1).t, a(2).t), x.gt}
		}
		return SVal{Store(x.t, a(1).t, a(2).t), x.gt}
	case "constArr":
		s, _ := ex.resolveType(&TypeExpr{name: "arr", args: []*TypeExpr{{name: lit(0)}, {name: lit(1)}}})
		return SVal{ConstArr(s, a(2).t), nil}
	case "seqOf":
		var parts []*Term
		var gt types.Type
		for i := range args {
			v := a(i)
			parts = append(parts, v.t)
			if v.gt != nil {
				gt = types.NewSlice(v.gt)
			}
		}
		return SVal{SeqFromParts(SeqOf(parts[0].sort), parts), gt}
	case "emptySeq":
		gt := ex.lookupType(lit(0))
		if gt == nil {
			specErr(e, "unknown type %s", lit(0))
		}
		return SVal{SeqEmpty(SeqOf(sortOf(gt))), types.NewSlice(gt)}
	case "mapsKept": // maps of this type that existed before the call are unchanged
		mt, ok := ex.lookupType(lit(0)).(*types.Map)
		if !ok {
			specErr(e, "mapsKept needs a map type")
		}
		d, vv := ex.mapHeaps(mt)
		var cs []*Term
		for _, k := range []string{d, vv, ex.mapLenHeap(mt)} {
			now, was := ex.get(ev.st, k), ex.get(ev.old, k)
			if now == was {
				continue
			}
			r := Bound(fmt.Sprintf("kept!b%d", freshCtr["bv"]), SInt)
			freshCtr["bv"]++
			cs = append(cs, Forall(r, Implies(Lt(r, ex.get(ev.old, "$alloc")), Eq(Select(now, r), Select(was, r)))))
		}
		return SVal{And(cs...), B}
	case "fresh":
		return SVal{And(Le(ex.get(ev.old, "$alloc"), a(0).t), Lt(a(0).t, ex.get(ev.st, "$alloc"))), B}
	case "zero":
		gt := ex.lookupType(lit(0))
		if gt == nil {
			specErr(e, "unknown type %s", lit(0))
		}
		return SVal{zeroValue(gt), gt}
	case "with": // with(structValue, field, v)
		v := a(0)
		si := structInfo(v.gt)
		if si == nil {
			specErr(e, "with: no struct")
		}
		i := si.index(lit(1))
		return SVal{setField(si, v.t, i, ev.coerce(args[2], a(2), sortOf(si.fields[i].gt)).t), v.gt}
	case "mkstruct": // mkstruct(T, f0, f1, ...)
		gt := ex.lookupType(lit(0))
		si := structInfo(gt)
		if si == nil || len(args)-1 != len(si.fields) {
			specErr(e, "mkstruct: bad arguments")
		}
		var ts []*Term
		for i, f := range si.fields {
			ts = append(ts, wrapField(f, ev.coerce(args[i+1], a(i+1), sortOf(f.gt)).t))
		}
		return SVal{Ctor(si.sort, ts...), gt}
	case "deref": // value behind a pointer
		v := a(0)
		p, ok := under(v.gt).(*types.Pointer)
		if !ok {
			specErr(e, "deref of non-pointer")
		}
		return SVal{ex.load(ev.st, ex.derefPlace(v.t, p.Elem())), p.Elem()}
	case "heap": // heap("T.f") whole array
		return SVal{ex.heapByName(ev.st, lit(0)), nil}
	case "reMatch": // reMatch(s, "re") with a simple SMT regular expression of characters: not supported by all solvers
		specErr(e, "reMatch unsupported")
	case "isFn": // isFn(f, "pkg.Func")
		v := a(0)
		return SVal{Eq(v.t, ex.fnConst(lit(1))), B}
	case "regexGroups": // number of groups of a regular expression
		return SVal{App("re.groups", SInt, a(0).t), types.Typ[types.Int]}
	case "regexMin": // length of its shortest match
		return SVal{App("re.min", SInt, a(0).t), types.Typ[types.Int]}
	case "lt": // string order
		return SVal{mk("str.<", SBool, "", nil, a(0).t, a(1).t), B}
	}
	if sp, ok := ex.spec.specs[name]; ok {
		return ev.specCall(e, sp, args)
	}
	if fs, fn := ex.pureByName(name); fs != nil {
		r := ev.pureCall(e, fs, fn, args)
		if fs.alias2 != "" && fs.alias2 == name {
			return ev.pureCallN(e, fs, fn, args, 1)
		}
		return r
	}
	specErr(e, "unknown function %s", name)
	return SVal{}
}

func (ev *Env) specCall(e *Expr, sp *SpecFn, args []*Expr) SVal {
	ex := ev.ex
	if len(args) != len(sp.params) {
		specErr(e, "%s: %d arguments expected", sp.name, len(sp.params))
	}
	var ts []SVal
	for i, p := range sp.params {
		s, gt := ex.resolveType(p.ty)
		v := ev.coerce(args[i], ev.eval(args[i]), s)
		if gt != nil {
			if _, isMap := under(gt).(*types.Map); isMap && v.gt != nil && !types.Identical(under(gt), under(v.gt)) {
				specErr(e, "%s: argument %s is no %s", sp.name, p.name, gt)
			}
			v.gt = gt
		}
		ts = append(ts, v)
	}
	rs, rgt := ex.resolveType(sp.ret)
	if sp.body != nil && !sp.rec && !sp.opaque {
		// ghosts are visible inside non-recursive spec functions
		n := &Env{ex: ex, st: ev.st, old: ev.old, vars: map[string]SVal{}, pkg: ev.pkg}
		for i, p := range sp.params {
			n.vars[p.name] = ts[i]
		}
		v := n.eval(sp.body)
		v = ev.coerce(e, v, rs)
		if rgt != nil {
			v.gt = rgt
		}
		return v
	}
	var at []*Term
	for _, t := range ts {
		at = append(at, t.t)
	}
	return SVal{App("spec!"+sp.name, rs, at...), rgt}
}

func (ev *Env) pureCall(e *Expr, fs *FuncSpec, sig *types.Signature, args []*Expr) SVal {
	return ev.pureCallN(e, fs, sig, args, 0)
}

func (ev *Env) pureCallN(e *Expr, fs *FuncSpec, sig *types.Signature, args []*Expr, k int) SVal {
	ex := ev.ex
	pts := sigParams(sig)
	var at []*Term
	n := len(pts)
	variadic := sig.Variadic()
	for i := 0; i < n; i++ {
		if variadic && i == n-1 {
			es := sortOf(pts[i]).Elem()
			if len(args) == n {
				v := ev.eval(args[i])
				if v.t != nil && v.t.sort == sortOf(pts[i]) {
					at = append(at, v.t)
					break
				}
			}
			r := SeqEmpty(sortOf(pts[i]))
			for _, x := range args[i:] {
				r = SeqConcat(r, SeqUnit(ev.coerce(x, ev.eval(x), es).t))
			}
			at = append(at, r)
			break
		}
		if i >= len(args) {
			specErr(e, "too few arguments")
		}
		at = append(at, ev.coerce(args[i], ev.eval(args[i]), sortOf(pts[i])).t)
	}
	rs := ex.pureApp(fs, sig, at)
	return SVal{rs[k], sig.Results().At(k).Type()}
}

// sigParams lists receiver and parameter types.
func sigParams(sig *types.Signature) []types.Type {
	var out []types.Type
	if r := sig.Recv(); r != nil {
		out = append(out, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}

// pureApp is the uninterpreted application that stands for the results of a pure function.
func (ex *Exec) pureApp(fs *FuncSpec, sig *types.Signature, args []*Term) []*Term {
	var out []*Term
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		nm := "pf!" + fs.key
		if n > 1 {
			nm = fmt.Sprintf("%s!%d", nm, i)
		}
		if n == 1 {
			if t := nativePure(fs.key, args); t != nil {
				out = append(out, t)
				continue
			}
		}
		out = append(out, liftIte(nm, sortOf(sig.Results().At(i).Type()), args, 4))
	}
	return out
}

// liftIte applies a function below the conditionals of its string arguments, so that facts about it can be found.
func liftIte(nm string, s Sort, args []*Term, budget int) *Term {
	for i, a := range args {
		if a.op == "ite" && a.sort == SString && budget > 1 {
			x := append([]*Term{}, args...)
			y := append([]*Term{}, args...)
			x[i], y[i] = a.args[1], a.args[2]
			return Ite(a.args[0], liftIte(nm, s, x, budget/2), liftIte(nm, s, y, budget/2))
		}
	}
	return App(nm, s, args...)
}

func fnSelect(key string, i, n int) string {
	if n == 1 {
		return "pf!" + key
	}
	return fmt.Sprintf("pf!%s!%d", key, i)
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// nativePure maps library functions that coincide with solver operations.
func nativePure(key string, a []*Term) *Term {
	switch key {
	case "strings.HasPrefix":
		return StrPrefix(a[1], a[0])
	case "strings.HasSuffix":
		return StrSuffix(a[1], a[0])
	case "strings.Contains":
		return StrContains(a[0], a[1])
	case "strings.Index":
		return IndexOf(a[0], a[1], Int(0))
	case "strconv.Itoa":
		return Itoa(a[0])
	case "strings.TrimPrefix":
		return Ite(StrPrefix(a[1], a[0]), Substr(a[0], StrLen(a[1]), Sub(StrLen(a[0]), StrLen(a[1]))), a[0])
	case "strings.TrimSuffix":
		return Ite(StrSuffix(a[1], a[0]), Substr(a[0], Int(0), Sub(StrLen(a[0]), StrLen(a[1]))), a[0])
	case "path/filepath.IsAbs":
		return StrPrefix(Str("/"), a[0])
	case "strings.ReplaceAll":
		return replaceAllTerm(a[0], a[1], a[2])
	case "strings.ToLower":
		if a[0].isStr() && isASCII(a[0].s) {
			return Str(strings.ToLower(a[0].s))
		}
	case "strings.ToUpper":
		if a[0].isStr() && isASCII(a[0].s) {
			return Str(strings.ToUpper(a[0].s))
		}
	case "math.Min":
		return Ite(Le(a[0], a[1]), a[0], a[1])
	case "math.Max":
		return Ite(Le(a[0], a[1]), a[1], a[0])
	}
	return nil
}
