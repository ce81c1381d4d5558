package main

// Library functions with built-in meaning: string builders and simple searches.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isBuilder: the type is represented by its text.
func isBuilder(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return k == "strings.Builder" || k == "bytes.Buffer"
}

func isBuilderMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	p, ok := r.Type().(*types.Pointer)
	if !ok || !isBuilder(p.Elem()) {
		return false
	}
	switch fn.Name() {
	case "WriteString", "WriteByte", "WriteRune", "Write", "String", "Bytes", "Len", "Reset", "Grow":
		return true
	}
	return false
}

func (ex *Exec) builderMethod(st *State, fn *ssa.Function, args []Val, in ssa.Instruction) (Val, *State, bool) {
	ex.trusted["strings.Builder, bytes.Buffer (the text written so far; never an error)"] = true
	ex.nilCheck(st, args[0].t, in.Pos(), "method call")
	if st.dead() {
		return Val{}, st, true
	}
	elem := fn.Signature.Recv().Type().(*types.Pointer).Elem()
	p := ex.derefPlace(args[0].t, elem)
	cur := ex.load(st, p)
	add := func(s *Term, n *Term) (Val, *State, bool) {
		ex.store(st, p, Concat(cur, s))
		if n == nil {
			return Val{t: NilT}, st, true
		}
		return Val{tuple: []*Term{n, NilT}}, st, true
	}
	switch fn.Name() {
	case "WriteString", "Write":
		return add(args[1].t, StrLen(args[1].t))
	case "WriteByte":
		return add(FromCode(args[1].t), nil)
	case "WriteRune":
		s := ex.convert(st, args[1].t, types.Typ[types.Rune], types.Typ[types.String])
		return add(s, StrLen(s))
	case "String", "Bytes":
		return Val{t: cur}, st, true
	case "Len":
		return Val{t: StrLen(cur)}, st, true
	case "Reset":
		ex.store(st, p, Str(""))
	}
	return Val{}, st, true
}

// fprintf: writing to a builder.
func (ex *Exec) fprintf(st *State, key string, args []Val) (Val, *State, bool) {
	w := args[0].t
	if !isBoxCtor(w) {
		return Val{}, nil, false
	}
	t := ex.lookupType(w.s[len("box!"):])
	if t == nil {
		return Val{}, nil, false
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok || !isBuilder(pt.Elem()) {
		return Val{}, nil, false
	}
	var s *Term
	if key == "fmt.Fprintf" {
		s = ex.sprintf(st, args[1].t, args[2].t)
	} else {
		s = args[1].t
	}
	p := ex.derefPlace(w.args[0], pt.Elem())
	ex.store(st, p, Concat(ex.load(st, p), s))
	return Val{tuple: []*Term{StrLen(s), NilT}}, st, true
}

func (ex *Exec) search(st *State, key string, a []Val) (Val, bool) {
	tuple := func(ts ...*Term) (Val, bool) {
		ex.trusted["strings.Cut, CutPrefix, CutSuffix, IndexByte, ContainsRune, slices.Contains (solver operations)"] = true
		if len(ts) == 1 {
			return Val{t: ts[0]}, true
		}
		return Val{tuple: ts}, true
	}
	switch key {
	case "strings.Cut":
		s, sep := a[0].t, a[1].t
		i := IndexOf(s, sep, Int(0))
		found := StrContains(s, sep)
		after := Add(i, StrLen(sep))
		return tuple(Ite(found, Substr(s, Int(0), i), s), Ite(found, Substr(s, after, Sub(StrLen(s), after)), Str("")), found)
	case "strings.CutPrefix":
		s, p := a[0].t, a[1].t
		found := StrPrefix(p, s)
		return tuple(Ite(found, Substr(s, StrLen(p), Sub(StrLen(s), StrLen(p))), s), found)
	case "strings.CutSuffix":
		s, p := a[0].t, a[1].t
		found := StrSuffix(p, s)
		return tuple(Ite(found, Substr(s, Int(0), Sub(StrLen(s), StrLen(p))), s), found)
	case "strings.IndexByte":
		return tuple(IndexOf(a[0].t, FromCode(a[1].t), Int(0)))
	case "strings.ContainsRune":
		if c := a[1].t; c.isInt() {
			return tuple(StrContains(a[0].t, Str(string(rune(c.i.Int64())))))
		}
	case "strings.IndexRune":
		if c := a[1].t; c.isInt() {
			return tuple(IndexOf(a[0].t, Str(string(rune(c.i.Int64()))), Int(0)))
		}
	case "slices.Contains":
		s, v := a[0].t, a[1].t
		if !s.sort.IsSeq() {
			return Val{}, false
		}
		if parts, ok := seqParts(s); ok && len(parts) <= 16 {
			r := False
			for _, p := range parts {
				r = Or(r, Eq(p, v))
			}
			return tuple(r)
		}
		r, w := FreshV("contains", SBool), FreshV("at", SInt)
		nth := func(i *Term) *Term { return mk("seq.nth", s.sort.Elem(), "", nil, s, i) }
		ex.assume(st, Implies(r, And(Le(Int(0), w), Lt(w, Len(s)), Eq(nth(w), v))))
		i := Bound("in!i", SInt)
		ex.assume(st, Implies(Not(r), Forall(i, Implies(And(Le(Int(0), i), Lt(i, Len(s))), Ne(nth(i), v)))))
		return tuple(r)
	}
	return Val{}, false
}

// replace is what a Replacer for single characters makes of a text: the replacements one after the other, in an order
// in which none of them touches what another one has inserted.
func (ex *Exec) replace(r, text *Term) *Term {
	parts, ok := ex.replacers[r]
	if !ok || len(parts)%2 != 0 {
		return nil
	}
	left := map[int]bool{}
	for i := 0; i < len(parts); i += 2 {
		if !parts[i].isStr() || !parts[i+1].isStr() || len(parts[i].s) != 1 || parts[i].s[0] >= 0x80 {
			return nil
		}
		for j := range left {
			if parts[j].s == parts[i].s {
				return nil
			}
		}
		left[i] = true
	}
	var order []int
	for len(order) < len(parts)/2 {
		found := false
		for i := 0; i < len(parts) && !found; i += 2 {
			if !left[i] {
				continue
			}
			// first: a character such that its inserted text has none of the characters that are replaced later
			good := true
			for j := range left {
				if j != i && strings.Contains(parts[i+1].s, parts[j].s) {
					good = false
				}
			}
			if good {
				order = append(order, i)
				delete(left, i)
				found = true
			}
		}
		if !found {
			return nil
		}
	}
	for _, i := range order {
		text = replaceAllTerm(text, parts[i], parts[i+1])
	}
	return text
}

// replaceAllTerm: strings.ReplaceAll. Replacements of different single characters that do not touch what the other one
// inserts commute (lemma replacementsCommute of contracts/sanitize.gvc): they are sorted by character.
func replaceAllTerm(s, old, new *Term) *Term {
	const f = "pf!strings.ReplaceAll"
	if s.isStr() && old.isStr() && new.isStr() {
		return Str(strings.ReplaceAll(s.s, old.s, new.s))
	}
	single := func(t *Term) bool { return t.isStr() && len(t.s) == 1 && t.s[0] < 0x80 }
	if s.op == "app" && s.s == f && single(old) && new.isStr() && single(s.args[1]) && s.args[2].isStr() {
		c, x := s.args[1].s, s.args[2].s
		if old.s < c && !strings.Contains(x, old.s) && !strings.Contains(new.s, c) {
			return replaceAllTerm(replaceAllTerm(s.args[0], old, new), s.args[1], s.args[2])
		}
	}
	return liftIte(f, SString, []*Term{s, old, new}, 4)
}

// valueArgs: a function of a library that depends on the values of its arguments only.
func valueArgs(fn *ssa.Function, key string, args []Val) ([]*Term, bool) {
	p := fnPkg(fn)
	if p == nil {
		return nil, false
	}
	sig := fn.Signature
	switch p.Path() {
	case "strings", "strconv", "unicode", "unicode/utf8", "path", "html", "math", "slices":
		if sig.Recv() != nil {
			return nil, false
		}
	case "net/url":
		if sig.Recv() != nil || !strings.HasSuffix(fn.Name(), "Escape") {
			return nil, false
		}
	case "path/filepath":
		switch fn.Name() {
		case "Base", "Clean", "Dir", "Ext", "FromSlash", "ToSlash", "IsAbs", "Join", "Rel", "VolumeName", "Match":
		default:
			return nil, false
		}
	case "time":
		if sig.Recv() == nil {
			return nil, false
		}
	default:
		return nil, false
	}
	plain := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Kind() != types.UnsafePointer
		case *types.Slice:
			_, ok := u.Elem().Underlying().(*types.Basic)
			return ok
		case *types.Struct:
			return p.Path() == "time"
		}
		return types.Identical(t, types.Universe.Lookup("error").Type())
	}
	ok := true
	if r := sig.Recv(); r != nil && !plain(r.Type()) {
		ok = false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ok = ok && plain(sig.Params().At(i).Type()) && !types.Identical(sig.Params().At(i).Type(), types.Universe.Lookup("error").Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		ok = ok && plain(sig.Results().At(i).Type())
	}
	if !ok || sig.Results().Len() == 0 {
		return nil, false
	}
	var ts []*Term
	for _, a := range args {
		if a.t == nil {
			return nil, false
		}
		ts = append(ts, a.t)
	}
	return ts, true
}
