package parser

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

type c25Cell struct {
	text    string
	attrs   []string
	heading bool
}

func c25Entry(s string) (string, []string) {
	k := strings.Index(s, "|")
	if k < 0 {
		return s, nil
	}
	at := strings.TrimSpace(s[:k])
	var tags []string
	for _, m := range tableRowAndColspanRegex.FindAllString(at, -1) {
		tags = append(tags, m)
	}
	if m := tableTextAlignRegex.FindString(at); m != "" {
		tags = append(tags, `style="`+m+`"`)
	}
	return s[k+1:], tags
}

// c25Table reads a table the way it is described: rows, each with its cells, and the caption.
func c25Table(content string) (rows [][]c25Cell, caption string, texts []string) {
	content = strings.ReplaceAll(strings.ReplaceAll(content, "||", "\n|"), "!!", "\n!")
	ls := strings.Split(content, "\n")
	raw := append([]string{}, ls...)
	for i := range ls {
		ls[i] = strings.TrimSpace(ls[i])
	}
	starts := func(i int) bool { return strings.HasPrefix(ls[i], "|") || strings.HasPrefix(ls[i], "!") }
	more := func(i int) (string, int) {
		s, j := "", i+1
		for ; j < len(ls) && !starts(j); j++ {
			s += "\n" + ls[j]
		}
		return s, j
	}
	row := func(i int) int {
		var r []c25Cell
		for i < len(ls) && !strings.HasPrefix(ls[i], "|-") && !strings.HasPrefix(ls[i], "|+") && !strings.HasPrefix(ls[i], "|}") {
			first := strings.TrimSpace(strings.TrimPrefix(ls[i], "|"))
			if strings.HasPrefix(ls[i], "!") {
				first = strings.TrimSpace(ls[i][1:])
			}
			rest, next := more(i)
			text, tags := c25Entry(first + rest)
			texts = append(texts, text)
			r = append(r, c25Cell{strings.TrimSpace(text), tags, strings.HasPrefix(ls[i], "!")})
			i = next
		}
		rows = append(rows, r)
		return i
	}
	for i := 0; i < len(ls); {
		l := ls[i]
		switch {
		case strings.HasPrefix(l, "|+"):
			rest, next := more(i)
			text, _ := c25Entry(l[2:] + rest)
			texts = append(texts, text)
			caption, i = strings.TrimSpace(text), next
		case strings.HasPrefix(l, "|}"):
			return
		case strings.HasPrefix(l, "|-"):
			if i+1 >= len(ls) {
				return
			}
			if strings.HasPrefix(raw[i+1], "!") || strings.HasPrefix(raw[i+1], "|") {
				i = row(i + 1)
			} else {
				i++
			}
		case starts(i):
			i = row(i)
		default:
			i++
		}
	}
	return
}

func TestVerifC25(t *testing.T) {
	v := verifStart(t)
	for v.more(60000) {
		c := v.pick("{|", "{| class=\"x\"", "") + v.word(14, "\n", "\n|", "\n|-", "\n|-\n|", "\n|-\n!", "\n!", "||", "!!", "|", "!", "\n|+", "\n|}", "a", "b c", " ", "\n ", "colspan=\"2\"", "rowspan=\"3\" ", "style=\"text-align:left\"", "text-align: right;", "\n | x", "\n ! y", "$$TOKEN_TABLE_1$$", "-", "}", "+") + v.pick("", "\n|}")
		desc := fmt.Sprintf("table %q", c)
		v.try(desc, func() {
			var given []string
			tk := NewTokenizer(&verifService{})
			tk.tokenizeContent = func(_ *Tokenizer, s string) string {
				given = append(given, s)
				return s
			}
			table := tk.tokenizeTable(c)
			rows, caption, texts := c25Table(c)
			if !reflect.DeepEqual(given, texts) {
				v.fail("entries %q instead of %q: %s", given, texts, desc)
				return
			}
			if table.Caption.Content != caption {
				v.fail("caption %q instead of %q: %s", table.Caption.Content, caption, desc)
			}
			var got [][]c25Cell
			for _, r := range table.Rows {
				var cells []c25Cell
				for _, x := range r.Columns {
					cells = append(cells, c25Cell{x.Content, x.Attributes.Attributes, x.IsHeading})
				}
				got = append(got, cells)
			}
			if !reflect.DeepEqual(got, rows) {
				v.fail("cells %+v instead of %+v: %s", got, rows, desc)
			}
		})
	}
}
