package parser

import (
	"strings"
	"wiki2book/wikipedia"
)

// verifService answers without network.
type verifService struct{}

func (s *verifService) DownloadArticle(host string, title string) (*wikipedia.WikiArticleDto, error) {
	return nil, nil
}
func (s *verifService) DownloadImages(images []string) error { return nil }
func (s *verifService) EvaluateTemplate(t string, f string) (string, error) {
	return strings.Trim(t, "{}"), nil
}
func (s *verifService) RenderMath(string) (string, string, error) { return "", "", nil }

// verifWikitext builds valid wikitext of all kinds.
func verifWikitext(v *verifT, depth int) string {
	s := ""
	for i := v.rnd.Intn(6); i >= 0; i-- {
		s += verifBlock(v, depth)
	}
	return s
}

func verifInline(v *verifT, depth int) string {
	if depth <= 0 {
		return v.pick("foo", "bar 1", "x", "ä ö", "a, b.", "10")
	}
	switch v.rnd.Intn(12) {
	case 0:
		return "''" + verifInline(v, depth-1) + "''"
	case 1:
		return "'''" + verifInline(v, depth-1) + "'''"
	case 2:
		return "[[" + v.pick("Foo", "Bar baz", "A#b") + "]]"
	case 3:
		return "[[" + v.pick("Foo", "Bar baz", "A#b") + "|" + verifInline(v, depth-1) + "]]"
	case 4:
		return "[http://a.b/" + v.pick("c", "d?e=f") + " " + verifInline(v, depth-1) + "]"
	case 5:
		return "<math>" + v.pick("x", "a+b", "\\sqrt{2}") + "</math>"
	case 6:
		return "<nowiki>" + v.pick("''x''", "[[y]]", "* z") + "</nowiki>"
	case 7:
		return "[[File:" + v.pick("a.jpg", "B c.png", "d.svg") + v.pick("", "|10px", "|mini|"+verifInline(v, depth-1)) + "]]"
	case 8:
		return "<ref>" + verifInline(v, depth-1) + "</ref>"
	case 9:
		return "<ref name=\"" + v.pick("a", "b") + "\">" + verifInline(v, depth-1) + "</ref>"
	}
	return verifInline(v, depth-1) + " " + verifInline(v, depth-1)
}

func verifBlock(v *verifT, depth int) string {
	if depth <= 0 {
		return verifInline(v, 1) + "\n"
	}
	switch v.rnd.Intn(8) {
	case 0:
		h := v.pick("=", "==", "===", "====")
		return h + " " + verifInline(v, depth-1) + " " + h + "\n"
	case 1, 2:
		s := ""
		p := v.pick("*", "#", ";", ":")
		for i := v.rnd.Intn(4); i >= 0; i-- {
			s += p + v.pick("", "", p, "*", "#") + " " + verifInline(v, depth-1) + "\n"
		}
		return s
	case 3:
		s := "{| class=\"x\"\n|+ " + verifInline(v, depth-1) + "\n"
		for i := v.rnd.Intn(3); i >= 0; i-- {
			s += "|-\n"
			for j := v.rnd.Intn(3); j >= 0; j-- {
				s += v.pick("| ", "! ", "| colspan=\"2\" | ") + verifInline(v, depth-1) + "\n"
				if v.rnd.Intn(4) == 0 {
					s += "* " + verifInline(v, depth-1) + "\n"
				}
			}
		}
		return s + "|}\n"
	case 4:
		return "<gallery>\na.jpg|" + verifInline(v, depth-1) + "\nFile:b.png\n</gallery>\n"
	}
	return verifInline(v, depth) + "\n" + v.pick("", "\n")
}
