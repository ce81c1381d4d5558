package generator

import (
	"fmt"
	"strconv"
	"strings"
	"wiki2book/parser"
)

// verifText is content of which the tokens are known: parts that are no string are tokens of the token map.
type verifText []interface{}

type verifKey struct{ key string }

// verifBook builds random content together with its token map.
type verifBook struct {
	v    *verifT
	m    map[string]parser.Token
	text map[string]verifText // by string content
	n    int
	bad  bool
}

func (b *verifBook) content(depth int) string {
	v := b.v
	var t verifText
	s := ""
	for i := v.rnd.Intn(5); i > 0; i-- {
		switch k := v.rnd.Intn(8); {
		case k < 5 || depth <= 0:
			p := v.word(3, "$", "$$", "a", "b c", "\n", "TOKEN-", "$$TOKEN", "10$", "ä", "<br>", "é$$x", " ", "  ", "&amp;", "%s", "%d")
			s += p
			t = append(t, p)
		case k == 5 && v.rnd.Intn(30) == 0 && b.bad:
			key := "$$TOKEN_UNKNOWN_" + strconv.Itoa(v.rnd.Intn(1000)+5000) + "$$"
			s += key
			t = append(t, verifKey{key})
		default:
			key := b.token(depth - 1)
			s += key
			t = append(t, verifKey{key})
			if v.rnd.Intn(6) == 0 {
				s += key
				t = append(t, verifKey{key})
			}
		}
	}
	if v.rnd.Intn(12) == 0 {
		p := "<li value=4>x"
		s = p + s
		t = append(verifText{p}, t...)
		if v.rnd.Intn(2) == 0 {
			s += "</li>"
			t = append(t, "</li>")
		}
	}
	if old, ok := b.text[s]; ok && fmt.Sprint(old) != fmt.Sprint(t) {
		return b.content(depth) // the same string out of other parts
	}
	b.text[s] = t
	return s
}

func (b *verifBook) items(depth int) []parser.ListItemToken {
	var l []parser.ListItemToken
	for i := b.v.rnd.Intn(4); i > 0; i-- {
		l = append(l, b.item(depth))
	}
	return l
}

func (b *verifBook) item(depth int) parser.ListItemToken {
	v := b.v
	it := parser.ListItemToken{Type: parser.ListItemTokenType(v.rnd.Intn(3)), Content: b.content(depth - 1)}
	if b.bad && v.rnd.Intn(25) == 0 {
		it.Type = 7
	}
	for i := v.rnd.Intn(3); i > 0 && depth > 0; i-- {
		it.SubLists = append(it.SubLists, b.m[b.list(depth-1)])
	}
	return it
}

func (b *verifBook) put(kind string, t parser.Token) string {
	key := fmt.Sprintf("$$TOKEN_%s_%d$$", kind, b.n)
	b.n++
	b.m[key] = t
	return key
}

func (b *verifBook) list(depth int) string {
	switch b.v.rnd.Intn(3) {
	case 0:
		return b.put("UNORDERED_LIST", parser.UnorderedListToken{Items: b.items(depth)})
	case 1:
		return b.put("ORDERED_LIST", parser.OrderedListToken{Items: b.items(depth)})
	}
	return b.put("DESCRIPTION_LIST", parser.DescriptionListToken{Items: b.items(depth)})
}

func (b *verifBook) token(depth int) string {
	v := b.v
	switch v.rnd.Intn(10) {
	case 0:
		return b.put("HEADING", parser.HeadingToken{Depth: 1 + v.rnd.Intn(7), Content: b.content(depth)})
	case 1:
		return b.put("EXTERNAL_LINK", parser.ExternalLinkToken{URL: v.pick("http://a.b/c?d=e", "x", ""), LinkText: b.content(depth)})
	case 2:
		return b.put("INTERNAL_LINK", parser.InternalLinkToken{ArticleName: "Foo", LinkText: b.content(depth)})
	case 3, 4:
		return b.list(depth)
	case 5:
		return b.put("REF_DEF", parser.RefDefinitionToken{Index: v.rnd.Intn(15), Content: b.content(depth)})
	case 6:
		return b.put("REF_USAGE", parser.RefUsageToken{Index: v.rnd.Intn(15)})
	case 7:
		return b.put("HEADINNOWIKI", parser.NowikiToken{Content: v.pick("", "a$$b", "''x''", "$$TOKEN_HEADING_0$$")})
	}
	t := parser.TableToken{Caption: parser.TableCaptionToken{Content: b.content(depth)}}
	for i := v.rnd.Intn(4); i > 0; i-- {
		row := parser.TableRowToken{}
		for j := v.rnd.Intn(4); j > 0; j-- {
			col := parser.TableColToken{Content: b.content(depth), IsHeading: v.rnd.Intn(2) == 0}
			for k := v.rnd.Intn(3); k > 0; k-- {
				col.Attributes.Attributes = append(col.Attributes.Attributes, v.pick(`colspan="2"`, `rowspan="3"`, `style="%d"`))
			}
			row.Columns = append(row.Columns, col)
		}
		t.Rows = append(t.Rows, row)
	}
	return b.put("TABLE", t)
}

// render is the expected HTML; ok is false if an error is expected.
func (b *verifBook) render(c interface{}) (html string, ok bool) {
	join := func(parts []string) string { return strings.Join(parts, "\n") }
	switch t := c.(type) {
	case string:
		for _, p := range b.text[t] {
			switch x := p.(type) {
			case string:
				html += x
			case verifKey:
				tok, known := b.m[x.key]
				if !known {
					return "", false
				}
				h, ok := b.render(tok)
				if !ok {
					return "", false
				}
				html += h
			}
		}
		return html, true
	case parser.HeadingToken:
		h, ok := b.render(t.Content)
		return fmt.Sprintf("<h%d>%s</h%d>", t.Depth, h, t.Depth), ok
	case parser.ExternalLinkToken:
		h, ok := b.render(t.LinkText)
		return `<a href="` + t.URL + `">` + h + "</a>", ok
	case parser.InternalLinkToken:
		return b.render(t.LinkText)
	case parser.RefDefinitionToken:
		h, ok := b.render(t.Content)
		return fmt.Sprintf("[%d] %s<br>", t.Index+1, h), ok
	case parser.RefUsageToken:
		return fmt.Sprintf("[%d]", t.Index+1), true
	case parser.NowikiToken:
		return t.Content, true
	case parser.UnorderedListToken:
		h, ok := b.renderItems(t.Items)
		return "<ul>\n" + h + "\n</ul>", ok
	case parser.OrderedListToken:
		h, ok := b.renderItems(t.Items)
		return "<ol>\n" + h + "\n</ol>", ok
	case parser.DescriptionListToken:
		h, ok := b.renderItems(t.Items)
		return "<div class=\"description-list\">\n" + h + "\n</div>", ok
	case parser.TableToken:
		var rows []string
		for _, r := range t.Rows {
			var cols []string
			for _, c := range r.Columns {
				h, ok := b.render(c.Content)
				if !ok {
					return "", false
				}
				a := ""
				for _, x := range c.Attributes.Attributes {
					a += " " + x
				}
				if c.IsHeading {
					cols = append(cols, "<th"+a+">\n"+h+"\n</th>\n")
				} else {
					cols = append(cols, "<td"+a+">\n"+h+"\n</td>")
				}
			}
			rows = append(rows, "<tr>\n"+join(cols)+"\n</tr>")
		}
		h, ok := b.render(t.Caption.Content)
		return "<div class=\"figure\">\n<table>\n" + join(rows) + "\n</table>\n<div class=\"caption\">\n" + h + "\n</div>\n</div>", ok
	}
	return "", false
}

func (b *verifBook) renderItems(items []parser.ListItemToken) (string, bool) {
	var l []string
	for _, it := range items {
		h, ok := b.render(it.Content)
		if !ok {
			return "", false
		}
		parts := []string{h}
		for _, s := range it.SubLists {
			h, ok := b.render(s)
			if !ok {
				return "", false
			}
			parts = append(parts, h)
		}
		text := strings.Join(parts, "\n")
		switch it.Type {
		case parser.NORMAL_ITEM:
			if strings.HasPrefix(strings.TrimSpace(text), "<li") {
				if !strings.Contains(text, "</li") {
					text += "</li>"
				}
			} else {
				text = "<li>\n" + text + "\n</li>"
			}
		case parser.DESCRIPTION_HEAD:
			text = "<div class=\"dt\">\n" + text + "\n</div>"
		case parser.DESCRIPTION_ITEM:
			text = "<div class=\"dd\">\n" + text + "\n</div>"
		default:
			return "", false
		}
		l = append(l, text)
	}
	return strings.Join(l, "\n"), true
}

func verifRender(v *verifT, n int, root func(b *verifBook) interface{}) {
	for v.more(n) {
		b := &verifBook{v: v, m: map[string]parser.Token{}, text: map[string]verifText{}, n: v.rnd.Intn(12), bad: v.rnd.Intn(3) == 0}
		c := root(b)
		want, ok := b.render(c)
		desc := fmt.Sprintf("expanding %q with tokens %#v", c, b.m)
		v.try(desc, func() {
			g := &HtmlGenerator{TokenMap: b.m}
			got, err := expand(g, c)
			if (err == nil) != ok {
				v.fail("%s: error is %v, expected an error: %v", desc, err, !ok)
			} else if ok && got != want {
				v.fail("%s: got %q instead of %q", desc, got, want)
			}
		})
	}
}
