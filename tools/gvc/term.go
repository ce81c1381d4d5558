package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is the SMT-LIB text of a sort.
type Sort string

const (
	SInt    Sort = "Int"
	SBool   Sort = "Bool"
	SString Sort = "String"
	SReal   Sort = "Real"
	SAny    Sort = "Any"
	SFn     Sort = "Fn"
)

func SeqOf(s Sort) Sort      { return Sort("(Seq " + string(s) + ")") }
func ArrayOf(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }
func (s Sort) IsSeq() bool   { return strings.HasPrefix(string(s), "(Seq ") }
func (s Sort) Elem() Sort    { return s[5 : len(s)-1] }
func (s Sort) IsArray() bool { return strings.HasPrefix(string(s), "(Array ") }

// ArrayParts splits "(Array K V)".
func (s Sort) ArrayParts() (Sort, Sort) {
	body := string(s[7 : len(s)-1])
	depth := 0
	for i, c := range body {
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
		} else if c == ' ' && depth == 0 {
			return Sort(body[:i]), Sort(body[i+1:])
		}
	}
	panic("bad array sort " + string(s))
}

// Term is a hash-consed SMT term.
type Term struct {
	id   int
	op   string // "var", "int", "str", "true", "false", "app", "bound", "forall", "exists" or an SMT-LIB operator
	args []*Term
	sort Sort
	s    string // variable name, function name or string constant (bytes)
	i    *big.Int
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func mk(op string, sort Sort, s string, iv *big.Int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(sort))
	b.WriteByte('|')
	b.WriteString(s)
	b.WriteByte('|')
	if iv != nil {
		b.WriteString(iv.String())
	}
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: op, args: args, sort: sort, s: s, i: iv}
	termTab[k] = t
	return t
}

var (
	True  = mk("true", SBool, "", nil)
	False = mk("false", SBool, "", nil)
	NilT  = mk("var", SAny, "nilAny", nil)
)

func Int(n int64) *Term             { return mk("int", SInt, "", big.NewInt(n)) }
func BigInt(n *big.Int) *Term       { return mk("int", SInt, "", n) }
func Str(s string) *Term            { return mk("str", SString, s, nil) }
func Var(name string, s Sort) *Term { return mk("var", s, name, nil) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

var freshCtr = map[string]int{}

func Fresh(name string, s Sort) *Term {
	name = sanitizeName(name)
	freshCtr[name]++
	return Var(fmt.Sprintf("%s!%d", name, freshCtr[name]), s)
}

func sanitizeName(n string) string {
	var b strings.Builder
	for _, c := range n {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func App(name string, s Sort, args ...*Term) *Term { return mk("app", s, name, nil, args...) }

func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) isStr() bool { return t.op == "str" }
func (t *Term) isConst() bool {
	return t.op == "int" || t.op == "str" || t == True || t == False
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	case "<":
		return Le(a.args[1], a.args[0])
	case "<=":
		return Lt(a.args[1], a.args[0])
	}
	return mk("not", SBool, "", nil, a)
}

func conjuncts(t *Term) []*Term {
	if t == True {
		return nil
	}
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func And(ts ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		for _, c := range conjuncts(t) {
			if c == False || seen[Not(c)] {
				return False
			}
			if !seen[c] {
				seen[c] = true
				out = append(out, c)
			}
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, "", nil, out...)
}

func Or(ts ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True {
			return true
		}
		if t == False || seen[t] {
			return false
		}
		if t.op == "or" {
			for _, a := range t.args {
				if add(a) {
					return true
				}
			}
			return false
		}
		if seen[Not(t)] {
			return true
		}
		seen[t] = true
		out = append(out, t)
		return false
	}
	for _, t := range ts {
		if add(t) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, "", nil, out...)
}

// OrPC joins path conditions with factoring.
func OrPC(ts []*Term) *Term {
	var l []*Term
	for _, t := range ts {
		if t == True {
			return True
		}
		if t != False {
			l = append(l, t)
		}
	}
	for len(l) > 1 {
		merged := false
	outer:
		for i := 0; i < len(l); i++ {
			for j := i + 1; j < len(l); j++ {
				if m, ok := tryJoin(l[i], l[j]); ok {
					l[i] = m
					l = append(l[:j], l[j+1:]...)
					merged = true
					break outer
				}
			}
		}
		if !merged {
			break
		}
	}
	if len(l) == 0 {
		return False
	}
	r := l[0]
	for _, t := range l[1:] {
		r = orFactor(r, t)
	}
	return r
}

func split2(a, b *Term) (common, ra, rb []*Term) {
	inB := map[*Term]bool{}
	for _, c := range conjuncts(b) {
		inB[c] = true
	}
	inC := map[*Term]bool{}
	for _, c := range conjuncts(a) {
		if inB[c] {
			common = append(common, c)
			inC[c] = true
		} else {
			ra = append(ra, c)
		}
	}
	for _, c := range conjuncts(b) {
		if !inC[c] {
			rb = append(rb, c)
		}
	}
	return
}

func tryJoin(a, b *Term) (*Term, bool) {
	c, ra, rb := split2(a, b)
	if len(ra) == 0 || len(rb) == 0 {
		return And(c...), true
	}
	if len(ra) == 1 && len(rb) == 1 && Not(ra[0]) == rb[0] {
		return And(c...), true
	}
	// (c and x) or (c and not x and r)  ->  c and (x or r)
	if len(ra) == 1 {
		for i, r := range rb {
			if r == Not(ra[0]) {
				rest := append(append([]*Term{}, rb[:i]...), rb[i+1:]...)
				if len(rest) == 1 {
					return And(append(c, Or(ra[0], rest[0]))...), true
				}
			}
		}
	}
	return nil, false
}

func orFactor(a, b *Term) *Term {
	c, ra, rb := split2(a, b)
	return And(append(c, Or(And(ra...), And(rb...)))...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", SBool, "", nil, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if a == b {
		return a
	}
	return mk("ite", a.sort, "", nil, c, a, b)
}

func isBoxCtor(t *Term) bool { return t.op == "app" && strings.HasPrefix(t.s, "box!") }
func isCtor(t *Term) bool    { return t.op == "ctor" }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s vs %s: %s = %s", a.sort, b.sort, a.str(), b.str()))
	}
	if a.isConst() && b.isConst() {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if isBoxCtor(a) && b == NilT || isBoxCtor(b) && a == NilT {
		return False
	}
	if isBoxCtor(a) && isBoxCtor(b) {
		if a.s != b.s {
			return False
		}
		return Eq(a.args[0], b.args[0])
	}
	if a.op == "ctor" && b.op == "ctor" && a.s == b.s {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	// ite with constants
	if a.op == "ite" && (b.isConst() || b == NilT) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && (a.isConst() || a == NilT) {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	if a.op == "str.++" && b.isStr() {
		// compare literal prefix
		if a.args[0].isStr() {
			p := a.args[0].s
			if len(p) > len(b.s) || b.s[:len(p)] != p {
				return False
			}
		}
	}
	if b.op == "str.++" && a.isStr() {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, "", nil, a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// linear normalisation for + and -: sum of coeff*atom + const
func linear(t *Term, k *big.Int, m map[*Term]*big.Int, c *big.Int) {
	switch {
	case t.isInt():
		c.Add(c, new(big.Int).Mul(k, t.i))
	case t.op == "+":
		for _, a := range t.args {
			linear(a, k, m, c)
		}
	case t.op == "-" && len(t.args) == 1:
		linear(t.args[0], new(big.Int).Neg(k), m, c)
	case t.op == "-":
		linear(t.args[0], k, m, c)
		for _, a := range t.args[1:] {
			linear(a, new(big.Int).Neg(k), m, c)
		}
	case t.op == "*" && t.args[0].isInt():
		linear(t.args[1], new(big.Int).Mul(k, t.args[0].i), m, c)
	default:
		if m[t] == nil {
			m[t] = new(big.Int)
		}
		m[t].Add(m[t], k)
	}
}

func fromLinear(m map[*Term]*big.Int, c *big.Int) *Term {
	var atoms []*Term
	for t, k := range m {
		if k.Sign() != 0 {
			atoms = append(atoms, t)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	var args []*Term
	one := big.NewInt(1)
	for _, t := range atoms {
		if m[t].Cmp(one) == 0 {
			args = append(args, t)
		} else {
			args = append(args, mk("*", SInt, "", nil, BigInt(m[t]), t))
		}
	}
	if c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigInt(new(big.Int).Set(c)))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", SInt, "", nil, args...)
}

func arith(sgn int64, a, b *Term) *Term {
	if a.sort == SReal {
		op := "+"
		if sgn < 0 {
			op = "-"
		}
		return mk(op, SReal, "", nil, a, b)
	}
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	linear(a, big.NewInt(1), m, c)
	linear(b, big.NewInt(sgn), m, c)
	return fromLinear(m, c)
}
func Add(a, b *Term) *Term { return arith(1, a, b) }
func Sub(a, b *Term) *Term { return arith(-1, a, b) }
func Mul(a, b *Term) *Term {
	if a.sort == SReal {
		return mk("*", SReal, "", nil, a, b)
	}
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		m := map[*Term]*big.Int{}
		c := new(big.Int)
		linear(b, a.i, m, c)
		return fromLinear(m, c)
	}
	return mk("*", SInt, "", nil, a, b)
}

func cmp(op string, a, b *Term) *Term {
	if a.sort == SReal {
		return mk(op, SBool, "", nil, a, b)
	}
	// normalise a op b  as  (a-b) op 0 when constant
	d := Sub(a, b)
	if d.isInt() {
		if op == "<" {
			return Bool(d.i.Sign() < 0)
		}
		return Bool(d.i.Sign() <= 0)
	}
	return mk(op, SBool, "", nil, a, b)
}
func Lt(a, b *Term) *Term { return cmp("<", a, b) }
func Le(a, b *Term) *Term { return cmp("<=", a, b) }

// ---- strings

func StrLen(a *Term) *Term {
	switch a.op {
	case "str":
		return Int(int64(len(a.s)))
	case "str.++":
		r := Int(0)
		for _, x := range a.args {
			r = Add(r, StrLen(x))
		}
		return r
	}
	return mk("str.len", SInt, "", nil, a)
}

func Concat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.sort != SString {
			panic("concat of " + string(t.sort))
		}
		parts := []*Term{t}
		if t.op == "str.++" {
			parts = t.args
		}
		for _, p := range parts {
			if p.isStr() && p.s == "" {
				continue
			}
			if p.isStr() && len(out) > 0 && out[len(out)-1].isStr() {
				out[len(out)-1] = Str(out[len(out)-1].s + p.s)
				continue
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("str.++", SString, "", nil, out...)
}

func Substr(s, off, n *Term) *Term {
	if s.isStr() && off.isInt() && n.isInt() {
		o, l := off.i.Int64(), n.i.Int64()
		if o < 0 || o >= int64(len(s.s)) || l <= 0 {
			return Str("")
		}
		if o+l > int64(len(s.s)) {
			l = int64(len(s.s)) - o
		}
		return Str(s.s[o : o+l])
	}
	if off.isInt() && off.i.Sign() == 0 && n == StrLen(s) {
		return s
	}
	if n.isInt() && n.i.Sign() <= 0 {
		return Str("")
	}
	return mk("str.substr", SString, "", nil, s, off, n)
}

func StrContains(s, t *Term) *Term {
	if s.isStr() && t.isStr() {
		return Bool(strings.Contains(s.s, t.s))
	}
	if t.isStr() && t.s == "" {
		return True
	}
	if s.op == "str.++" && t.isStr() {
		for _, a := range s.args {
			if a.isStr() && strings.Contains(a.s, t.s) {
				return True
			}
		}
	}
	if s.op == "ite" && t.isConst() {
		return Ite(s.args[0], StrContains(s.args[1], t), StrContains(s.args[2], t))
	}
	return mk("str.contains", SBool, "", nil, s, t)
}
func StrPrefix(p, s *Term) *Term { // p is prefix of s
	if s.isStr() && p.isStr() {
		return Bool(strings.HasPrefix(s.s, p.s))
	}
	if p.isStr() && p.s == "" {
		return True
	}
	if s.op == "str.++" && s.args[0].isStr() && p.isStr() {
		h := s.args[0].s
		if len(h) >= len(p.s) {
			return Bool(strings.HasPrefix(h, p.s))
		}
		if !strings.HasPrefix(p.s, h) {
			return False
		}
	}
	return mk("str.prefixof", SBool, "", nil, p, s)
}
func StrSuffix(p, s *Term) *Term {
	if s.isStr() && p.isStr() {
		return Bool(strings.HasSuffix(s.s, p.s))
	}
	if p.isStr() && p.s == "" {
		return True
	}
	if s.op == "str.++" && s.args[len(s.args)-1].isStr() && p.isStr() {
		h := s.args[len(s.args)-1].s
		if len(h) >= len(p.s) {
			return Bool(strings.HasSuffix(h, p.s))
		}
		if !strings.HasSuffix(p.s, h) {
			return False
		}
	}
	return mk("str.suffixof", SBool, "", nil, p, s)
}
func StrAt(s, i *Term) *Term { return Substr(s, i, Int(1)) }

// CodeAt is the byte value of s[i].
func CodeAt(s, i *Term) *Term {
	x := StrAt(s, i)
	if x.isStr() && len(x.s) == 1 {
		return Int(int64(x.s[0]))
	}
	return mk("str.to_code", SInt, "", nil, x)
}
func FromCode(c *Term) *Term {
	if c.isInt() && c.i.IsInt64() && c.i.Int64() >= 0 && c.i.Int64() < 256 {
		return Str(string([]byte{byte(c.i.Int64())}))
	}
	if c.op == "str.to_code" {
		// only used for codes of existing characters
		return c.args[0]
	}
	return mk("str.from_code", SString, "", nil, c)
}
func IndexOf(s, t, from *Term) *Term {
	return mk("str.indexof", SInt, "", nil, s, t, from)
}
func Itoa(n *Term) *Term {
	if n.isInt() {
		return Str(n.i.String())
	}
	nonneg := mk("str.from_int", SString, "", nil, n)
	if n.op == "str.len" || n.op == "seq.len" {
		return nonneg
	}
	return Ite(Le(Int(0), n), nonneg, Concat(Str("-"), mk("str.from_int", SString, "", nil, Sub(Int(0), n))))
}

// ---- sequences

func SeqEmpty(s Sort) *Term { return mk("seq.empty", s, "", nil) }
func SeqUnit(e *Term) *Term { return mk("seq.unit", SeqOf(e.sort), "", nil, e) }
func SeqConcat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.op == "seq.empty" {
			continue
		}
		if t.op == "seq.++" {
			out = append(out, t.args...)
		} else {
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return ts[0]
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("seq.++", out[0].sort, "", nil, out...)
}
func SeqLen(a *Term) *Term {
	switch a.op {
	case "seq.empty":
		return Int(0)
	case "seq.unit":
		return Int(1)
	case "seq.++":
		r := Int(0)
		for _, x := range a.args {
			r = Add(r, SeqLen(x))
		}
		return r
	case "app":
		if a.s == "seq!upd" || strings.HasPrefix(a.s, "seq!upd!") {
			return SeqLen(a.args[0])
		}
	}
	return mk("seq.len", SInt, "", nil, a)
}

// SeqUpd is s with element i replaced by v (s itself if i is out of range).
func SeqUpd(s, i, v *Term) *Term {
	// literal sequences
	if i.isInt() && i.i.IsInt64() {
		if parts, ok := seqParts(s); ok {
			n := i.i.Int64()
			if n >= 0 && n < int64(len(parts)) {
				np := append([]*Term{}, parts...)
				np[n] = v
				return SeqFromParts(s.sort, np)
			}
		}
	}
	// native: s[0:i] ++ [v] ++ s[i+1:]
	return App("seq!upd!"+string(s.sort), s.sort, s, i, v)
}

func seqParts(s *Term) ([]*Term, bool) {
	switch s.op {
	case "seq.empty":
		return nil, true
	case "seq.unit":
		return []*Term{s.args[0]}, true
	case "seq.++":
		var out []*Term
		for _, a := range s.args {
			if a.op != "seq.unit" {
				return nil, false
			}
			out = append(out, a.args[0])
		}
		return out, true
	}
	return nil, false
}
func SeqFromParts(sort Sort, parts []*Term) *Term {
	r := SeqEmpty(sort)
	for _, p := range parts {
		r = SeqConcat(r, SeqUnit(p))
	}
	return r
}

func SeqNth(s, i *Term) *Term {
	if i.isInt() && i.i.IsInt64() {
		if parts, ok := seqParts(s); ok {
			n := i.i.Int64()
			if n >= 0 && n < int64(len(parts)) {
				return parts[n]
			}
		}
	}
	if s.op == "app" && strings.HasPrefix(s.s, "seq!upd!") {
		if s.args[1] == i {
			// only valid in range; keep general
		} else if d := Sub(s.args[1], i); d.isInt() && d.i.Sign() != 0 {
			return SeqNth(s.args[0], i)
		}
	}
	return mk("seq.nth", s.sort.Elem(), "", nil, s, i)
}
func SeqExtract(s, off, n *Term) *Term {
	if off.isInt() && off.i.Sign() == 0 && n == SeqLen(s) {
		return s
	}
	if n.isInt() && n.i.Sign() <= 0 {
		return SeqEmpty(s.sort)
	}
	if parts, ok := seqParts(s); ok && off.isInt() && n.isInt() {
		o, l := off.i.Int64(), n.i.Int64()
		if o >= 0 && l >= 0 && o+l <= int64(len(parts)) {
			return SeqFromParts(s.sort, parts[o:o+l])
		}
	}
	return mk("seq.extract", s.sort, "", nil, s, off, n)
}

// generic over String and Seq
func Len(a *Term) *Term {
	if a.sort == SString {
		return StrLen(a)
	}
	return SeqLen(a)
}

// ---- arrays

func Select(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if definitelyDistinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" {
		// push select into ite if that simplifies
		x, y := Select(a.args[1], i), Select(a.args[2], i)
		if x == y {
			return x
		}
		return Ite(a.args[0], x, y)
	}
	_, v := a.sort.ArrayParts()
	return mk("select", v, "", nil, a, i)
}

func definitelyDistinct(a, b *Term) bool {
	if a.isConst() && b.isConst() {
		return a != b
	}
	if a.sort == SInt {
		d := Sub(a, b)
		return d.isInt() && d.i.Sign() != 0
	}
	return false
}

func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if Select(a, i) == v {
		return a
	}
	return mk("store", a.sort, "", nil, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return mk("constarr", s, "", nil, v) }

// ---- datatypes

// Ctor builds a struct value; s is the datatype name.
func Ctor(sort Sort, args ...*Term) *Term { return mk("ctor", sort, string(sort), nil, args...) }
func FieldOf(t *Term, idx int, fieldSort Sort) *Term {
	if t.op == "ctor" {
		return t.args[idx]
	}
	if t.op == "ite" {
		return Ite(t.args[0], FieldOf(t.args[1], idx, fieldSort), FieldOf(t.args[2], idx, fieldSort))
	}
	return mk("field", fieldSort, fmt.Sprintf("%s!f%d", t.sort, idx), nil, t)
}

// ---- quantifiers

func Bound(name string, s Sort) *Term { return mk("bound", s, name, nil) }

// Quantified variables get canonical names (by nesting depth) so that equal formulas are the same term.
var depthMemo = map[*Term]int{}

func quantDepth(t *Term) int {
	if len(t.args) == 0 {
		return 0
	}
	if d, ok := depthMemo[t]; ok {
		return d
	}
	d := 0
	for _, a := range t.args {
		if x := quantDepth(a); x > d {
			d = x
		}
	}
	if t.op == "forall" || t.op == "exists" {
		d++
	}
	depthMemo[t] = d
	return d
}

func canonical(v, body *Term) (*Term, *Term) {
	n := Bound(fmt.Sprintf("q!%d!%s", quantDepth(body)+1, v.sort), v.sort)
	if n == v {
		return v, body
	}
	return n, Subst(body, map[*Term]*Term{v: n})
}

func Forall(v *Term, body *Term) *Term {
	if body == True {
		return True
	}
	v, body = canonical(v, body)
	return mk("forall", SBool, "", nil, v, body)
}
func Exists(v *Term, body *Term) *Term {
	if body == False {
		return False
	}
	v, body = canonical(v, body)
	return mk("exists", SBool, "", nil, v, body)
}

// Subst replaces terms according to m.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		changed := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = Rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func Rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case "not":
		return Not(na[0])
	case "and":
		return And(na...)
	case "or":
		return Or(na...)
	case "=>":
		return Implies(na[0], na[1])
	case "ite":
		return Ite(na[0], na[1], na[2])
	case "=":
		return Eq(na[0], na[1])
	case "+":
		r := na[0]
		for _, a := range na[1:] {
			r = Add(r, a)
		}
		return r
	case "*":
		return Mul(na[0], na[1])
	case "<":
		return Lt(na[0], na[1])
	case "<=":
		return Le(na[0], na[1])
	case "str.len":
		return StrLen(na[0])
	case "str.++":
		return Concat(na...)
	case "str.substr":
		return Substr(na[0], na[1], na[2])
	case "str.contains":
		return StrContains(na[0], na[1])
	case "str.prefixof":
		return StrPrefix(na[0], na[1])
	case "str.suffixof":
		return StrSuffix(na[0], na[1])
	case "seq.++":
		return SeqConcat(na...)
	case "seq.len":
		return SeqLen(na[0])
	case "seq.nth":
		return SeqNth(na[0], na[1])
	case "seq.extract":
		return SeqExtract(na[0], na[1], na[2])
	case "select":
		return Select(na[0], na[1])
	case "store":
		return Store(na[0], na[1], na[2])
	case "forall":
		return Forall(na[0], na[1])
	case "exists":
		return Exists(na[0], na[1])
	case "ctor":
		return Ctor(t.sort, na...)
	case "field":
		return mkFieldRebuild(t, na[0])
	}
	return mk(t.op, t.sort, t.s, t.i, na...)
}

func mkFieldRebuild(t *Term, a *Term) *Term {
	var idx int
	k := strings.LastIndex(t.s, "!f")
	fmt.Sscanf(t.s[k+2:], "%d", &idx)
	return FieldOf(a, idx, t.sort)
}

func (t *Term) str() string {
	var b strings.Builder
	writeTerm(&b, t, nil, 0)
	return b.String()
}
