package parser

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"testing"
)

var c14Key = regexp.MustCompile(`^\$\$TOKEN_.*_(\d+)\$\$$`)

func TestVerifC14(t *testing.T) {
	v := verifStart(t)
	for v.more(8000) {
		text := verifWikitext(v, 3)
		desc := "wikitext " + text
		v.try(desc, func() {
			tok := NewTokenizer(&verifService{})
			// cut the parsing at random points: every token stored so far is kept from then on
			real := tok.tokenizeContent
			n := 0
			tok.tokenizeContent = func(x *Tokenizer, c string) string {
				n++
				before := map[string]Token{}
				for k, y := range x.tokenMap {
					before[k] = y
				}
				r := real(x, c)
				for k, y := range before {
					if z, ok := x.tokenMap[k]; !ok || !reflect.DeepEqual(y, z) {
						v.fail("%s: token %s was %v and is %v", desc, k, y, z)
					}
				}
				return r
			}
			article, err := tok.Tokenize(text, "title")
			if err != nil {
				return
			}
			numbers := map[int]string{}
			refs := map[string]int{}
			count := func(s string) {
				for _, k := range regexp.MustCompile(TOKEN_REGEX).FindAllString(s, -1) {
					refs[k]++
				}
			}
			count(article.Content)
			for k, y := range article.TokenMap {
				m := c14Key.FindStringSubmatch(k)
				if m == nil {
					v.fail("%s: key %s", desc, k)
					continue
				}
				i, _ := strconv.Atoi(m[1])
				if o, ok := numbers[i]; ok {
					v.fail("%s: keys %s and %s have the same number", desc, o, k)
				}
				numbers[i] = k
				if i >= tok.tokenCounter {
					v.fail("%s: key %s but the counter is %d", desc, k, tok.tokenCounter)
				}
				count(fmt.Sprintf("%v", y))
			}
			for k := range refs {
				if _, ok := article.TokenMap[k]; !ok {
					v.fail("%s: key %s is not in the token map", desc, k)
				}
			}
		})
	}
}
