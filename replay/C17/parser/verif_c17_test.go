package parser

import (
	"testing"
)

var c17Parts = []string{"[[", "]]", "[", "]", "|", ":", "File:", "Datei:", "Category:", "a", "b c", "x.jpg", "x.pdf", "thumb", "10px", "x20x30px", "\n", "\n", "\n", " ", "=", "==", "===",
	"''", "'''", "'", "<ref>", "<ref name=\"a\">", "<ref name=a />", "<ref", "<ref name=\"", "</ref>", "<references />", "<references>", "<references group=\"g\">", "</references>", "</re", "/>", ">", "<nowiki>", "</nowiki>", "<NOWIKI>",
	"<gallery>", "<gallery mode=\"x\">", "</gallery>", "<imagemap>", "</imagemap>", "{|", "|}", "|-", "|+", "||", "!!", "!", "colspan=\"2\"", "style=\"text-align:left;\"", ":{|", "*", "#", ";", "::", "**", "<!--", "-->", "{{", "}}", "{{BS-table}}",
	"<math>", "</math>", "http://a.b", "https://x y", "ftp://", "$$", "$$TOKEN_HEADING_0$$", "ä", "\xff", "mini", "<li", "__NOTOC__", "%20", "_", "name=", "\""}

func TestVerifC17(t *testing.T) {
	v := verifStart(t)
	run := func(text string) {
		v.try("wikitext "+text, func() {
			tok := NewTokenizer(&verifService{})
			tok.Tokenize(text, "title")
		})
	}
	for _, a := range c17Parts {
		run(a)
		for _, b := range c17Parts {
			run(a + b)
			run(a + "x" + b)
			run(a + b + "\n")
			run(a + "\n" + b)
		}
	}
	for v.more(60000) {
		run(v.word(3+v.rnd.Intn(12), c17Parts...))
	}
}
