package generator

import (
	"encoding/json"
	"fmt"
	"reflect"
	"testing"
	"unicode"
	"wiki2book/parser"
)

// c26Book builds random articles and counts what they contain.
type c26Book struct {
	v      *verifT
	tokens map[string]parser.Token
	want   articleStats
}

func (b *c26Book) plain() string {
	s := b.v.pick("", "a", "foo bar", "ä ö, ü!", "x1 2", "日本 語", "a-b", " ", "\n", "word, word. word", "...")
	b.count(s)
	return s
}

func (b *c26Book) count(s string) {
	before := false
	for _, r := range s {
		b.want.NumberOfCharacters++
		w := unicode.IsLetter(r) || unicode.IsNumber(r)
		if w && !before {
			b.want.NumberOfWords++
		}
		before = w
	}
}

func (b *c26Book) key(t parser.Token) string {
	k := fmt.Sprintf(parser.TOKEN_TEMPLATE, "X", len(b.tokens))
	b.tokens[k] = t
	return k
}

func (b *c26Book) text(depth int) string {
	s := b.plain()
	for depth > 0 && b.v.rnd.Intn(3) > 0 {
		s += b.key(b.token(depth-1)) + b.plain()
	}
	return s
}

func (b *c26Book) items(depth int) []parser.ListItemToken {
	var l []parser.ListItemToken
	for b.v.rnd.Intn(3) > 0 {
		i := parser.ListItemToken{Type: parser.ListItemTokenType(b.v.rnd.Intn(3)), Content: b.text(depth)}
		for depth > 0 && b.v.rnd.Intn(2) > 0 {
			i.SubLists = append(i.SubLists, b.list(depth-1).(parser.ListToken))
		}
		l = append(l, i)
	}
	return l
}

func (b *c26Book) list(depth int) parser.Token {
	switch b.v.rnd.Intn(3) {
	case 0:
		return parser.UnorderedListToken{Items: b.items(depth)}
	case 1:
		return parser.OrderedListToken{Items: b.items(depth)}
	}
	return parser.DescriptionListToken{Items: b.items(depth)}
}

func (b *c26Book) token(depth int) parser.Token {
	switch b.v.rnd.Intn(11) {
	case 0:
		return parser.HeadingToken{Content: b.text(depth), Depth: 2}
	case 1:
		b.want.NumberOfImages++
		return parser.InlineImageToken{Filename: "a.png"}
	case 2:
		b.want.NumberOfImages++
		return parser.ImageToken{Filename: "a.png", Caption: parser.CaptionToken{Content: b.text(depth)}}
	case 3:
		a := b.v.pick("A", "B", "C")
		b.want.NumberOfInternalLinks++
		b.want.InternalLinks[a]++
		return parser.InternalLinkToken{ArticleName: a, LinkText: b.text(depth)}
	case 4:
		b.want.NumberOfExternalLinks++
		return parser.ExternalLinkToken{URL: "u", LinkText: b.text(depth)}
	case 5:
		t := parser.TableToken{}
		for b.v.rnd.Intn(3) > 0 {
			r := parser.TableRowToken{}
			for b.v.rnd.Intn(3) > 0 {
				r.Columns = append(r.Columns, parser.TableColToken{Content: b.text(depth), IsHeading: b.v.rnd.Intn(2) > 0})
			}
			t.Rows = append(t.Rows, r)
		}
		t.Caption.Content = b.text(depth)
		return t
	case 6:
		b.want.NumberOfMath++
		return parser.MathToken{Content: "x y"}
	case 7:
		b.want.NumberOfRefDefinitions++
		return parser.RefDefinitionToken{Content: b.text(depth)}
	case 8:
		b.want.NumberOfRefUsages++
		return parser.RefUsageToken{}
	}
	return b.list(depth)
}

func TestVerifC26(t *testing.T) {
	v := verifStart(t)
	for v.more(20000) {
		b := &c26Book{v: v, tokens: map[string]parser.Token{}}
		b.want.InternalLinks = map[string]int{}
		content := b.text(v.rnd.Intn(4))
		desc := fmt.Sprintf("content %q with tokens %#v", content, b.tokens)
		v.try(desc, func() {
			g := NewStatsGenerator(b.tokens)
			g.stats.InternalLinks = map[string]int{}
			if _, err := expand(g, content); err != nil {
				v.fail("%s: %v", desc, err)
				return
			}
			if !reflect.DeepEqual(*g.stats, b.want) {
				got, _ := json.Marshal(g.stats)
				want, _ := json.Marshal(b.want)
				v.fail("%s: statistics %s instead of %s", desc, got, want)
			}
		})
	}
}
