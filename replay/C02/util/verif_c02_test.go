package util

import (
	"strings"
	"testing"
)

// verifDecode is the independent inverse of the sanitising.
func verifDecode(s string) (string, bool) {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out += s[i : i+1]
			continue
		}
		if i+3 > len(s) {
			return "", false
		}
		c, ok := map[string]string{"25": "%", "3C": "<", "3E": ">", "3A": ":", "22": "\"", "2F": "/", "5C": "\\", "7C": "|", "3F": "?", "2A": "*"}[s[i+1:i+3]]
		if !ok {
			return "", false
		}
		out += c
		i += 2
	}
	return out, true
}

func TestVerifC02(t *testing.T) {
	v := verifStart(t)
	parts := []string{"%", "%25", "%2F", "%3C", "%%", "<", ">", ":", "\"", "/", "\\", "|", "?", "*", ".", "..", "a", "B", "ä", "2", "5", "2F", "3", "C", "3A", "3C", "3E", "22", "25", "5C", "7C", "3F", "2A", "%253A", "%252F", "%2525", "%2e", "%3a", "&#58;", "\x00", ".html", ".png", " ", "_", "File", "-", "%5C", "%7C", "%3A", "%22", "%3E", "%2A", "%3F", "é", "e\u0301"}
	seen := map[string]string{}
	check := func(name string) {
		v.try("name "+name, func() {
			r := SanitizeFilename(name)
			d, ok := verifDecode(r)
			if !ok || d != name {
				v.fail("the name %q cannot be computed again from the sanitised name %q", name, r)
			}
			if other, ok := seen[r]; ok && other != name {
				v.fail("the names %q and %q both become %q", name, other, r)
			}
			seen[r] = name
		})
	}
	check("")
	for _, a := range parts {
		check(a)
		for _, b := range parts {
			check(a + b)
			for _, c := range parts {
				check(a + b + c)
			}
		}
	}
	for c := 0; c < 256; c++ {
		check(string(rune(c)))
		check("a" + string([]byte{byte(c)}) + "b")
	}
	for _, n := range []int{50, 100, 200, 255, 256, 300, 1000} {
		check(strings.Repeat("a", n))
		check(strings.Repeat("a", n) + "b")
		check(strings.Repeat("/", n))
		check(strings.Repeat("ab%/", n))
	}
	for v.more(40000) {
		check(v.word(12, parts...))
	}
}
