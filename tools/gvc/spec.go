package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type Tok struct {
	kind string // id, int, str, op, eof, key
	s    string
	line int
}

var keywords = map[string]bool{"property": true, "use": true, "ghost": true, "spec": true, "rec": true, "axiom": true, "lemma": true,
	"extern": true, "pure": true, "func": true, "requires": true, "ensures": true, "modifies": true, "loop": true, "invariant": true,
	"verify": true, "trigger": true, "induct": true, "inline": true, "channel": true, "walk": true, "exit": true, "assume": true, "set": true,
	"exits": true, "fuel": true, "noframe": true, "by": true, "trusted": true, "note": true, "assert": true, "candidates": true, "bounded": true, "hide": true}

func lex(file, src string) []Tok {
	var out []Tok
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$':
			j := i
			for j < len(src) && (src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9' || src[j] == '_' || src[j] == '$') {
				j++
			}
			w := src[i:j]
			k := "id"
			if keywords[w] {
				k = "key"
			}
			out = append(out, Tok{k, w, line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, Tok{"int", src[i:j], line})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string %s", file, line, src[i:j+1]))
			}
			out = append(out, Tok{"str", s, line})
			i = j + 1
		case c == '`':
			j := strings.IndexByte(src[i+1:], '`') + i + 1
			s := src[i+1 : j]
			out = append(out, Tok{"str", s, line})
			line += strings.Count(s, "\n")
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad char %s", file, line, src[i:j+1]))
			}
			out = append(out, Tok{"int", strconv.Itoa(int([]rune(s)[0])), line})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", ":=", "++", ".."}
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, Tok{"op", o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, Tok{"op", string(c), line})
				i++
			}
		}
	}
	return append(out, Tok{"eof", "", line})
}

type Expr struct {
	op   string
	s    string
	args []*Expr
	ty   *TypeExpr
	line int
	file string
}

func (e *Expr) String() string {
	switch e.op {
	case "id", "int":
		return e.s
	case "str":
		return strconv.Quote(e.s)
	case "sel":
		return e.args[0].String() + "." + e.s
	case "bin":
		return "(" + e.args[0].String() + " " + e.s + " " + e.args[1].String() + ")"
	case "un":
		return e.s + e.args[0].String()
	case "index":
		return e.args[0].String() + "[" + e.args[1].String() + "]"
	case "call":
		var a []string
		for _, x := range e.args[1:] {
			a = append(a, x.String())
		}
		return e.args[0].String() + "(" + strings.Join(a, ", ") + ")"
	case "slice":
		return e.args[0].String() + "[..:..]"
	}
	return e.op
}

type TypeExpr struct {
	name string // int,string,bool,any,seq,arr, or Go type text
	ptr  bool
	args []*TypeExpr
}

type Param struct {
	name string
	ty   *TypeExpr
}

type Clause struct {
	label string
	e     *Expr
	trust bool
	any   []Param // stand for each local variable of their type
}

type GhostSet struct {
	target *Expr
	e      *Expr
}

type WalkSpec struct {
	assumes []*Expr
	exits   []*Expr
	invs    []Clause
	sets    []GhostSet
}

type FuncSpec struct {
	key       string
	alias     string
	reveal    []string
	alias2    string // name of the second result of a pure function
	params    []Param
	results   []Param
	pure      bool
	extern    bool
	inline    bool
	exits     bool
	noframe   bool
	trusted   bool
	cands     bool
	requires  []Clause
	ensures   []Clause
	modifies  []*Expr
	loops     map[int][]Clause
	loopAll   []Clause
	loopSets  map[int][]GhostSet
	loopAsm   map[int][]*Expr
	walk      *WalkSpec
	ghostInit []GhostSet
	asserts   []Clause
	induct    string
	note      string
	file      string
	line      int
}

type SpecFn struct {
	opaque bool
	name   string
	params []Param
	ret    *TypeExpr
	body   *Expr
	rec    bool
	fuel   int
}

type Lemma struct {
	name     string
	params   []Param
	requires []*Expr
	ensures  []*Expr
	triggers []*Expr
	induct   string
	uses     []*Expr
	hide     []string
	axiom    bool
	note     string
}

type GhostVar struct {
	name string
	ty   *TypeExpr
}

type VerifyItem struct {
	key    string
	safety bool
}

type SpecFile struct {
	macros    map[string]string
	strict    bool
	usesRunes bool // the contracts talk about runes of texts
	timeout   int
	property  string
	uses      []string
	ghosts    []GhostVar
	funcs     map[string]*FuncSpec
	order     []interface{} // *SpecFn, *Lemma in file order
	specs     map[string]*SpecFn
	verify    []VerifyItem
	channels  map[string]*Expr
	notes     []string
	bounded   []string
}

type specParser struct {
	file string
	toks []Tok
	p    int
	sf   *SpecFile
}

func (p *specParser) cur() Tok { return p.toks[p.p] }
func (p *specParser) next() Tok {
	t := p.toks[p.p]
	p.p++
	return t
}
func (p *specParser) fail(msg string) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.cur().line, msg, p.cur().s))
}
func (p *specParser) is(s string) bool {
	return (p.cur().kind == "op" || p.cur().kind == "key" || p.cur().kind == "id") && p.cur().s == s
}
func (p *specParser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *specParser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s)
	}
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "++": 6, "*": 7}

func (p *specParser) expr(min int) *Expr {
	left := p.unary()
	for {
		t := p.cur()
		if t.kind != "op" {
			return left
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return left
		}
		p.next()
		nm := pr + 1
		if t.s == "==>" {
			nm = pr
		}
		right := p.expr(nm)
		left = &Expr{op: "bin", s: t.s, args: []*Expr{left, right}, line: t.line, file: p.file}
	}
}

func (p *specParser) unary() *Expr {
	t := p.cur()
	if t.kind == "op" && (t.s == "!" || t.s == "-") {
		p.next()
		return &Expr{op: "un", s: t.s, args: []*Expr{p.unary()}, line: t.line, file: p.file}
	}
	return p.postfix(p.primary())
}

func (p *specParser) primary() *Expr {
	t := p.next()
	e := &Expr{line: t.line, file: p.file}
	switch t.kind {
	case "int":
		e.op, e.s = "int", t.s
		return e
	case "str":
		e.op, e.s = "str", t.s
		return e
	case "id":
		if (t.s == "forall" || t.s == "exists") && p.cur().kind == "id" {
			v := p.next().s
			e.op, e.s = t.s, v
			if p.accept("in") {
				lo := p.expr(6)
				p.expect("..")
				hi := p.expr(6)
				p.expect(":")
				e.args = []*Expr{lo, hi, p.expr(1)}
				return e
			}
			e.ty = p.typ()
			p.expect(":")
			e.args = []*Expr{p.expr(1)}
			return e
		}
		e.op, e.s = "id", t.s
		return e
	case "op":
		if t.s == "(" {
			x := p.expr(1)
			p.expect(")")
			return x
		}
	}
	p.p--
	p.fail("unexpected token in expression")
	return nil
}

func (p *specParser) postfix(e *Expr) *Expr {
	for {
		t := p.cur()
		if t.kind != "op" {
			return e
		}
		switch t.s {
		case ".":
			p.next()
			n := p.next()
			e = &Expr{op: "sel", s: n.s, args: []*Expr{e}, line: t.line, file: p.file}
		case "(":
			p.next()
			c := &Expr{op: "call", args: []*Expr{e}, line: t.line, file: p.file}
			for !p.is(")") {
				if len(c.args) > 1 {
					p.expect(",")
				}
				// allow types as arguments of isType/as via backquoted strings
				c.args = append(c.args, p.expr(1))
			}
			p.expect(")")
			e = c
		case "[":
			p.next()
			if p.accept(":") {
				hi := p.expr(1)
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, nil, hi}, line: t.line, file: p.file}
				continue
			}
			i := p.expr(1)
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr(1)
				}
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, i, hi}, line: t.line, file: p.file}
				continue
			}
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, i}, line: t.line, file: p.file}
		default:
			return e
		}
	}
}

func (p *specParser) typ() *TypeExpr {
	te := &TypeExpr{}
	if p.accept("*") {
		te.ptr = true
	}
	if p.accept("[") {
		p.expect("]")
		te.name = "seq"
		te.args = []*TypeExpr{p.typ()}
		return te
	}
	n := p.next()
	te.name = n.s
	if n.s == "seq" {
		p.expect("[")
		te.args = []*TypeExpr{p.typ()}
		p.expect("]")
		return te
	}
	if n.s == "map" {
		p.expect("[")
		te.args = []*TypeExpr{p.typ()}
		p.expect("]")
		te.args = append(te.args, p.typ())
		return te
	}
	if n.s == "arr" {
		p.expect("[")
		te.args = []*TypeExpr{p.typ()}
		p.expect("]")
		te.args = append(te.args, p.typ())
		return te
	}
	for p.is(".") || p.is("/") {
		te.name += p.next().s
		te.name += p.next().s
	}
	return te
}

// key parses a function key such as util.OsFilesystem.Remove, net/http.NewRequest or github.com/pkg/errors.Wrap.
func (p *specParser) key() string {
	s := p.next().s
	for p.is(".") || p.is("/") || p.is("-") || p.is("$") {
		s += p.next().s
		s += p.next().s
	}
	return s
}

func (p *specParser) params() []Param {
	var out []Param
	p.expect("(")
	for !p.is(")") {
		if len(out) > 0 {
			p.expect(",")
		}
		pa := Param{name: p.next().s}
		if !p.is(",") && !p.is(")") {
			pa.ty = p.typ()
		}
		out = append(out, pa)
	}
	p.expect(")")
	return out
}

func (p *specParser) clause() Clause {
	c := Clause{}
	// optional label:  [label]
	if p.accept("[") {
		for !p.is("]") {
			if c.label != "" {
				c.label += " "
			}
			c.label += p.next().s
		}
		p.expect("]")
	}
	if p.cur().s == "any" && p.toks[p.p+1].s == "(" {
		p.next()
		c.any = p.params()
	}
	c.e = p.expr(1)
	return c
}

func (p *specParser) sets() GhostSet {
	t := p.expr(6)
	p.expect(":=")
	return GhostSet{t, p.expr(1)}
}

func parseSpec(dir, name string, sf *SpecFile, seen map[string]bool) {
	if seen[name] {
		return
	}
	seen[name] = true
	file := filepath.Join(dir, name+".gvc")
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	p := &specParser{file: name + ".gvc", toks: lex(file, macros(string(src), sf)), sf: sf}
	for p.cur().kind != "eof" {
		t := p.next()
		switch t.s {
		case "property":
			sf.property = p.next().s
		case "use":
			parseSpec(dir, p.next().s, sf, seen)
		case "timeout":
			// seconds per obligation
			sf.timeout, _ = strconv.Atoi(p.next().s)
		case "strict":
			// calls with side effects need a contract
			sf.strict = true
		case "note":
			sf.notes = append(sf.notes, p.next().s)
		case "bounded":
			sf.bounded = append(sf.bounded, p.next().s)
		case "ghost":
			n := p.next().s
			sf.ghosts = append(sf.ghosts, GhostVar{n, p.typ()})
		case "channel":
			n := p.next().s
			sf.channels[n] = p.expr(1)
		case "verify":
			for {
				it := VerifyItem{key: p.key()}
				if p.accept("safety") {
					it.safety = true
				}
				sf.verify = append(sf.verify, it)
				if !p.accept(",") {
					break
				}
			}
		case "rec", "spec", "opaque":
			s := &SpecFn{}
			if t.s == "opaque" {
				s.opaque = true
				p.expect("spec")
				s.fuel = 3
			}
			if t.s == "rec" {
				s.rec = true
				s.fuel = 2
				if p.accept("fuel") {
					s.fuel, _ = strconv.Atoi(p.next().s)
				}
				p.expect("spec")
			}
			s.name = p.next().s
			s.params = p.params()
			s.ret = p.typ()
			if p.accept("=") {
				s.body = p.expr(1)
			}
			sf.specs[s.name] = s
			sf.order = append(sf.order, s)
		case "lemma", "axiom":
			l := &Lemma{axiom: t.s == "axiom", name: p.next().s}
			l.params = p.params()
			for {
				if p.accept("requires") {
					l.requires = append(l.requires, p.expr(1))
				} else if p.accept("ensures") {
					l.ensures = append(l.ensures, p.expr(1))
				} else if p.accept("trigger") {
					l.triggers = append(l.triggers, p.expr(1))
					for p.accept(",") {
						l.triggers = append(l.triggers, p.expr(1))
					}
				} else if p.accept("induct") {
					l.induct = p.next().s
				} else if p.accept("by") {
					l.uses = append(l.uses, p.expr(1))
				} else if p.accept("hide") {
					l.hide = append(l.hide, p.next().s)
					for p.accept(",") {
						l.hide = append(l.hide, p.next().s)
					}
				} else if p.accept("note") {
					l.note = p.next().s
				} else {
					break
				}
			}
			sf.order = append(sf.order, l)
		case "func", "extern", "pure":
			f := &FuncSpec{loops: map[int][]Clause{}, loopSets: map[int][]GhostSet{}, loopAsm: map[int][]*Expr{}, file: p.file, line: t.line}
			if t.s == "pure" {
				f.pure = true
				t = p.next()
			}
			f.extern = t.s == "extern"
			f.key = p.key()
			f.params = p.params()
			if p.is("(") {
				f.results = p.params()
			}
			if p.accept("as") {
				f.alias = p.next().s
				if p.accept(",") {
					f.alias2 = p.next().s
				}
			}
			cur := 0
		loop:
			for {
				switch {
				case p.accept("reveal"):
					f.reveal = append(f.reveal, p.next().s)
					for p.accept(",") {
						f.reveal = append(f.reveal, p.next().s)
					}
				case p.accept("inline"):
					f.inline = true
				case p.accept("exits"):
					f.exits = true
				case p.accept("noframe"):
					f.noframe = true
				case p.accept("trusted"):
					f.trusted = true
				case p.accept("candidates"):
					f.cands = true
				case p.accept("note"):
					f.note = p.next().s
				case p.accept("requires"):
					f.requires = append(f.requires, p.clause())
				case p.accept("ensures"):
					f.ensures = append(f.ensures, p.clause())
				case p.accept("assert"):
					f.asserts = append(f.asserts, p.clause())
				case p.accept("induct"):
					f.induct = p.next().s
				case p.accept("modifies"):
					f.modifies = append(f.modifies, p.expr(6))
					for p.accept(",") {
						f.modifies = append(f.modifies, p.expr(6))
					}
				case p.accept("loop"):
					if p.accept("all") {
						cur = -1
					} else {
						cur, _ = strconv.Atoi(p.next().s)
					}
				case p.accept("walk"):
					f.walk = &WalkSpec{}
				case p.accept("exit"):
					f.walk.exits = append(f.walk.exits, p.expr(1))
				case f.walk != nil && p.accept("invariant"):
					f.walk.invs = append(f.walk.invs, p.clause())
				case cur < 0 && p.accept("invariant"):
					f.loopAll = append(f.loopAll, p.clause())
				case p.accept("invariant"):
					f.loops[cur] = append(f.loops[cur], p.clause())
				case p.accept("assume"):
					if f.walk != nil {
						f.walk.assumes = append(f.walk.assumes, p.expr(1))
					} else {
						f.loopAsm[cur] = append(f.loopAsm[cur], p.expr(1))
					}
				case p.accept("set"):
					if f.walk != nil {
						f.walk.sets = append(f.walk.sets, p.sets())
					} else if cur > 0 {
						f.loopSets[cur] = append(f.loopSets[cur], p.sets())
					} else {
						f.ghostInit = append(f.ghostInit, p.sets())
					}
				default:
					break loop
				}
			}
			sf.funcs[f.key] = f
		default:
			p.p--
			p.fail("unexpected top-level token")
		}
	}
}

// macros expands "@NAME" lines by the lines between "define NAME" and "enddefine".
func macros(src string, sf *SpecFile) string {
	sf.usesRunes = sf.usesRunes || strings.Contains(src, "runes(")
	var out []string
	name := ""
	for _, l := range strings.Split(src, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case name == "" && strings.HasPrefix(t, "define "):
			name = strings.TrimSpace(t[7:])
			out = append(out, "")
		case t == "enddefine":
			name = ""
			out = append(out, "")
		case name != "":
			if !strings.HasPrefix(t, "#") {
				sf.macros[name] += " " + expandMacro(t, sf)
			}
			out = append(out, "")
		default:
			out = append(out, expandMacro(l, sf))
		}
	}
	return strings.Join(out, "\n")
}

func expandMacro(l string, sf *SpecFile) string {
	t := strings.TrimSpace(l)
	if strings.HasPrefix(t, "@") {
		m, ok := sf.macros[t[1:]]
		if !ok {
			panic(SpecError{"unknown macro " + t})
		}
		return m
	}
	return l
}

func LoadSpec(dir, prop string) *SpecFile {
	sf := &SpecFile{macros: map[string]string{}, funcs: map[string]*FuncSpec{}, specs: map[string]*SpecFn{}, channels: map[string]*Expr{}}
	parseSpec(dir, prop, sf, map[string]bool{})
	return sf
}
