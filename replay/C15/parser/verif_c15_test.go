package parser

import (
	"strings"
	"testing"
)

type c15Marker struct {
	text, apostrophes string
	bold, open        bool
}

var c15Markers = []c15Marker{
	{MARKER_BOLD_OPEN, "'''", true, true},
	{MARKER_BOLD_CLOSE, "'''", true, false},
	{MARKER_ITALIC_OPEN, "''", false, true},
	{MARKER_ITALIC_CLOSE, "''", false, false},
}

// c15Nested: the markers are balanced and properly nested, no kind is opened twice.
func c15Nested(out string) string {
	var open []bool
	for i := 0; i < len(out); i++ {
		for _, m := range c15Markers {
			if !strings.HasPrefix(out[i:], m.text) {
				continue
			}
			if m.open {
				for _, o := range open {
					if o == m.bold {
						return "a marker is opened twice"
					}
				}
				open = append(open, m.bold)
			} else {
				if len(open) == 0 || open[len(open)-1] != m.bold {
					return "a marker is closed that was not opened last"
				}
				open = open[:len(open)-1]
			}
		}
	}
	if len(open) > 0 {
		return "a marker is not closed"
	}
	return ""
}

// c15From: out is the text with markers in place of apostrophes; markers without apostrophes only occur around the closing
// marker of a crossover.
func c15From(in string, out string, seen map[[2]int]bool) bool {
	k := [2]int{len(in), len(out)}
	if seen[k] {
		return false
	}
	seen[k] = true
	if out == "" {
		return in == ""
	}
	for _, m := range c15Markers {
		if strings.HasPrefix(out, m.text) {
			if strings.HasPrefix(in, m.apostrophes) && c15From(in[len(m.apostrophes):], out[len(m.text):], seen) {
				return true
			}
			// crossover: close m, close the other kind, open m
			for _, c := range c15Markers {
				for _, o := range c15Markers {
					all := m.text + c.text + o.text
					if !m.open && !c.open && o.open && c.bold != m.bold && o.bold == m.bold && strings.HasPrefix(out, all) && strings.HasPrefix(in, c.apostrophes) &&
						c15From(in[len(c.apostrophes):], out[len(all):], seen) {
						return true
					}
				}
			}
		}
	}
	return in != "" && in[0] == out[0] && c15From(in[1:], out[1:], seen)
}

// c15Reads: the apostrophes from the beginning of s can be read as a block of markers; open are the open kinds (true: bold).
func c15Reads(s string, open []bool, began bool, seen map[string]bool) bool {
	for {
		if s == "" || !strings.HasPrefix(s, "'") || !strings.HasPrefix(s, "''") {
			if began && len(open) == 0 || s == "" {
				return len(open) == 0
			}
			s = s[1:]
			continue
		}
		k := s
		for _, o := range open {
			if o {
				k += "b"
			} else {
				k += "i"
			}
		}
		if r, ok := seen[k]; ok {
			return r
		}
		seen[k] = false
		for _, bold := range []bool{false, true} {
			n := 2
			if bold {
				n = 3
			}
			if len(s) < n || s[:n] != "'''"[:n] || len(s) == n+1 && s[n] == '\'' || len(s) > n+1 && s[n] == '\'' && s[n+1] != '\'' {
				continue
			}
			var rest []bool
			for _, o := range open {
				if o != bold {
					rest = append(rest, o)
				}
			}
			if len(rest) == len(open) {
				rest = append(rest, bold)
			}
			if c15Reads(s[n:], rest, true, seen) {
				seen[k] = true
				return true
			}
		}
		return false
	}
}

func TestVerifC15(t *testing.T) {
	v := verifStart(t)
	check := func(in string) {
		desc := "text " + in
		v.try(desc, func() {
			tok := NewTokenizer(&verifService{})
			out := tok.parseBoldAndItalic(in)
			if e := c15Nested(out); e != "" {
				v.fail("%s: %s: %s", desc, e, out)
			}
			if !c15From(in, out, map[[2]int]bool{}) {
				v.fail("%s: something else than apostrophes was replaced: %s", desc, out)
			}
			if i := strings.Index(out, "''"); i >= 0 {
				if strings.Contains(out[i:], "MARKER_") {
					v.fail("%s: there are markers behind apostrophes that have none: %s", desc, out)
				}
				if c15Reads(out[i:], nil, false, map[string]bool{}) {
					v.fail("%s: apostrophes that can be read have no markers: %s", desc, out)
				}
			}
		})
	}
	// all short sequences
	parts := []string{"a", "'", "''", "'''", "'''''"}
	var all func(prefix string, n int)
	all = func(prefix string, n int) {
		check(prefix)
		if n > 0 {
			for _, p := range parts {
				all(prefix+p, n-1)
			}
		}
	}
	all("", 4)
	for v.more(20000) {
		s := ""
		for i := v.rnd.Intn(14); i >= 0; i-- {
			s += v.pick("a", " ", "b c", "''", "'''", "''", "'''", "'", "''''", "'''''", "''''''", "\n", "ä", "$$MARKER", "<i>")
		}
		check(s)
	}
}
