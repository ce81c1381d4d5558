package parser

import (
	"fmt"
	"strings"
	"testing"
)

func c23IsList(b byte) bool { return b == '*' || b == '#' || b == ';' || b == ':' }

// c23Flat returns the contents of a list's items in document order; dummy items have no content.
func c23Flat(l interface{}) []string {
	var items []ListItemToken
	switch x := l.(type) {
	case UnorderedListToken:
		items = x.Items
	case OrderedListToken:
		items = x.Items
	case DescriptionListToken:
		items = x.Items
	default:
		return []string{fmt.Sprintf("?%T", l)}
	}
	var res []string
	for _, i := range items {
		if i.Content != "" {
			res = append(res, i.Content)
		}
		for _, s := range i.SubLists {
			res = append(res, c23Flat(s)...)
		}
	}
	return res
}

func c23Texts(line string) []string {
	n := 0
	for n < len(line) && c23IsList(line[n]) {
		n++
	}
	text := line[n:]
	if line[n-1] == ';' {
		if a, b, ok := strings.Cut(text, ":"); ok {
			return []string{"<" + a + ">", "<" + b + ">"}
		}
	}
	return []string{"<" + text + ">"}
}

func TestVerifC23(t *testing.T) {
	v := verifStart(t)
	kinds := map[byte]string{'*': TOKEN_UNORDERED_LIST, '#': TOKEN_ORDERED_LIST, ';': TOKEN_DESCRIPTION_LIST, ':': TOKEN_DESCRIPTION_LIST}
	for v.more(60000) {
		n := 1 + v.rnd.Intn(7)
		var lines []string
		for i := 0; i < n; i++ {
			l := ""
			switch v.rnd.Intn(10) {
			case 0:
				l = v.word(2, " ", "\t", "x", "ä")
			case 1:
				l = v.pick(" ", "\t") + v.pick("*", "#", ";", ":") + v.word(3, "a", "*", ":", " ")
			default:
				l = v.word(4, "*", "*", "#", ";", ":") + v.word(3, "a", "b", " ", ":", ";", "*", "ü")
			}
			lines = append(lines, l)
		}
		in := strings.Join(lines, "\n")
		v.try(fmt.Sprintf("%q", in), func() {
			tk := NewTokenizer(nil)
			tk.tokenizeContent = func(t *Tokenizer, c string) string { return "<" + c + ">" }
			got := strings.Split(tk.parseLists(in), "\n")
			k := 0
			for i := 0; i < len(lines); k++ {
				if k >= len(got) {
					v.fail("only %d lines remain of %q: %q", len(got), in, got)
					return
				}
				first := strings.TrimSpace(lines[i])
				if first == "" || !c23IsList(first[0]) {
					if got[k] != lines[i] {
						v.fail("line %q of %q became %q", lines[i], in, got[k])
						return
					}
					i++
					continue
				}
				var want []string
				for i < len(lines) {
					l := strings.TrimSpace(lines[i])
					if l == "" || !(l[0] == first[0] || first[0] == ';' && l[0] == ':') {
						break
					}
					want = append(want, c23Texts(l)...)
					i++
				}
				tok, ok := tk.getTokenMap()[got[k]]
				if !ok || !strings.Contains(got[k], "_"+kinds[first[0]]+"_") {
					v.fail("the list starting with %q in %q became %q", first, in, got[k])
					return
				}
				kind := fmt.Sprintf("%T", tok)
				if kind != map[byte]string{'*': "parser.UnorderedListToken", '#': "parser.OrderedListToken", ';': "parser.DescriptionListToken", ':': "parser.DescriptionListToken"}[first[0]] {
					v.fail("the list starting with %q in %q became a %s", first, in, kind)
					return
				}
				if flat := c23Flat(tok); strings.Join(flat, "") != strings.Join(want, "") {
					v.fail("the list starting with %q in %q contains %q, not %q", first, in, flat, want)
					return
				}
			}
			if k != len(got) {
				v.fail("%q became %q", in, got)
			}
		})
	}
}
