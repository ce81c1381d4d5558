package parser

import (
	"fmt"
	"strings"
	"testing"
)

func c16Ref(c string, start int, op, cl string, ic bool) int {
	if ic {
		op, cl = strings.ToLower(op), strings.ToLower(cl)
	}
	at := func(i int, t string) bool {
		if i+len(t) > len(c) {
			return false
		}
		x := c[i : i+len(t)]
		if ic {
			x = strings.ToLower(x)
		}
		return x == t
	}
	depth := 0
	for i := start; i < len(c); {
		if op != cl && at(i, op) {
			depth++
			i += len(op)
		} else if at(i, cl) {
			if depth == 0 {
				return i
			}
			depth--
			i += len(cl)
		} else {
			i++
		}
	}
	return -1
}

func TestVerifC16(t *testing.T) {
	v := verifStart(t)
	pairs := [][2]string{{"{{", "}}"}, {"[[", "]]"}, {"{|", "|}"}, {"<ref", "</ref>"}, {"<Gallery", "</GALLERY>"}, {"(", ")"}, {"$$", "$$"}, {"((", ")"}, {"(", "))"}, {"ab", "b"}, {"<nowiki>", "</nowiki>"}, {"aa", "a"}, {"a", "A"}, {"x", "x"}, {"{", "}}"}, {"{{", "}"}}
	for v.more(80000) {
		p := pairs[v.rnd.Intn(len(pairs))]
		var parts []string
		for _, x := range []string{p[0], p[1]} {
			parts = append(parts, x, x, strings.ToLower(x), strings.ToUpper(x), x[:1], x[len(x)-1:])
		}
		parts = append(parts, " ", "a", "ä", "\n", "K")
		c := v.word(10, parts...)
		start := 0
		if len(c) > 0 {
			start = v.rnd.Intn(len(c) + 2)
		}
		ic := v.rnd.Intn(2) == 0
		desc := fmt.Sprintf("content %q, start %d, tokens %q %q, ignore case %v", c, start, p[0], p[1], ic)
		v.try(desc, func() {
			var got int
			if ic {
				got = FindCorrespondingCloseTokenIgnoreCase(c, start, p[0], p[1])
			} else {
				got = FindCorrespondingCloseToken(c, start, p[0], p[1])
			}
			if want := c16Ref(c, start, p[0], p[1], ic); got != want {
				v.fail("result %d instead of %d: %s", got, want, desc)
			}
		})
	}
}
