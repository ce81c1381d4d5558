package parser

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"testing"
)

// c18Model numbers references the way the property demands it.
type c18Model struct {
	names map[string]map[string]int
	defs  map[string]map[int]string
	next  map[string]int
	want  []string
}

func (m *c18Model) group(g string) {
	if m.names[g] == nil {
		m.names[g] = map[string]int{}
		m.defs[g] = map[int]string{}
	}
}

func (m *c18Model) number(g string, name string) int {
	m.group(g)
	if n, ok := m.names[g][name]; ok && name != "" {
		return n
	}
	n := m.next[g]
	m.next[g]++
	if name != "" {
		m.names[g][name] = n
	}
	return n
}

func (m *c18Model) list(g string) {
	m.group(g)
	var ns []int
	for n := range m.defs[g] {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	for _, n := range ns {
		m.want = append(m.want, fmt.Sprintf("definition %d %s", n, m.defs[g][n]))
	}
	m.defs[g] = map[int]string{}
}

func c18Attr(v *verifT, key string, value string) string {
	if value == "" {
		return ""
	}
	return " " + key + "=" + v.pick(value, `"`+value+`"`)
}

func c18Tag(v *verifT, name string, group string) string {
	if v.rnd.Intn(2) == 0 {
		return v.pick("<ref", "<ref", "<Ref") + c18Attr(v, "name", name) + c18Attr(v, "group", group)
	}
	return "<ref" + c18Attr(v, "group", group) + c18Attr(v, "name", name)
}

func TestVerifC18(t *testing.T) {
	v := verifStart(t)
	key := regexp.MustCompile(TOKEN_REGEX)
	for v.more(8000) {
		m := &c18Model{map[string]map[string]int{}, map[string]map[int]string{}, map[string]int{}, nil}
		defNo := 0
		def := func(g string, name string, shown bool) string {
			n := m.number(g, name)
			text := "text of " + name + g
			if name == "" {
				defNo++
				text = fmt.Sprintf("text %d%s", defNo, g)
			}
			m.defs[g][n] = text
			if shown {
				m.want = append(m.want, fmt.Sprintf("usage %d", n))
			}
			return c18Tag(v, name, g) + ">" + text + v.pick("</ref>", "</ref>", "</REF>")
		}
		usage := func(g string, name string, shown bool) string {
			n := m.number(g, name)
			if shown {
				m.want = append(m.want, fmt.Sprintf("usage %d", n))
			}
			return c18Tag(v, name, g) + v.pick(" />", "/>", "/>")
		}
		group := func() string { return v.pick("", "", "", "g", "note") }
		inline := func(shown bool) string {
			g := group()
			switch v.rnd.Intn(4) {
			case 0:
				return usage(g, v.pick("a", "b", "c1"), shown)
			case 1:
				return def(g, "", shown)
			}
			return def(g, v.pick("a", "b", "c1"), shown)
		}
		text := ""
		for i := v.rnd.Intn(8); i >= 0; i-- {
			switch v.rnd.Intn(7) {
			case 0:
				text += "== head " + inline(true) + " ==\nsection text.\n"
			case 1:
				g := group()
				m.list(g)
				text += "<references" + c18Attr(v, "group", g) + v.pick(" />", "/>") + "\n"
			case 2:
				g := group()
				text += "<references" + c18Attr(v, "group", g) + ">\n"
				for j := v.rnd.Intn(3); j > 0; j-- {
					text += def(g, v.pick("a", "b", "c1"), false) + "\n"
				}
				text += "</references>\n"
				m.list(g)
			case 3:
				text += "* item " + inline(true) + "\n"
			default:
				text += "foo " + inline(true) + v.pick("", " ", ", ")
				if v.rnd.Intn(2) == 0 {
					text += inline(true)
				}
				text += " bar.\n"
			}
		}
		desc := "wikitext " + text
		v.try(desc, func() {
			tok := NewTokenizer(&verifService{})
			article, err := tok.Tokenize(text, "title")
			if err != nil {
				v.fail("%s: %v", desc, err)
				return
			}
			var got []string
			var walk func(s string)
			var walkItems func(items []ListItemToken)
			walkItems = func(items []ListItemToken) {
				for _, i := range items {
					walk(i.Content)
				}
			}
			walk = func(s string) {
				for _, k := range key.FindAllString(s, -1) {
					switch x := article.TokenMap[k].(type) {
					case HeadingToken:
						walk(x.Content)
					case UnorderedListToken:
						walkItems(x.Items)
					case RefUsageToken:
						got = append(got, fmt.Sprintf("usage %d", x.Index))
					case RefDefinitionToken:
						got = append(got, fmt.Sprintf("definition %d %s", x.Index, x.Content))
					}
				}
			}
			walk(article.Content)
			if a, b := strings.Join(got, "; "), strings.Join(m.want, "; "); a != b {
				v.fail("%s: %s instead of %s", desc, a, b)
			}
		})
	}
}
