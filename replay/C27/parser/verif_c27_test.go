package parser

import (
	"errors"
	"fmt"
	"strings"
	"testing"
	"wiki2book/util"
)

// c27Service evaluates a template to its own text in angle brackets, templates with an exclamation mark fail.
type c27Service struct {
	verifService
	wrongKey string
}

func (s *c27Service) EvaluateTemplate(template string, key string) (string, error) {
	if key != util.Hash(template) {
		s.wrongKey = template
	}
	if strings.Contains(template, "!") {
		return "", errors.New("expected failure")
	}
	return "<" + template[2:len(template)-2] + ">", nil
}

// c27Text builds a text and what it is supposed to be evaluated to.
func c27Text(v *verifT, depth int) (string, string) {
	text, result := "", ""
	for i := v.rnd.Intn(4); i >= 0; i-- {
		if depth > 0 && v.rnd.Intn(2) == 0 {
			a, b := c27Text(v, depth-1)
			text += "{{" + a + "}}"
			result += "<" + b + ">"
		} else {
			x := v.pick("a", "b|c", " ", "ä", "\n", "x=1", "[[l]]", "$", "$$", "")
			text += x
			result += x
		}
	}
	return text, result
}

func TestVerifC27(t *testing.T) {
	v := verifStart(t)
	for v.more(20000) {
		text, want := c27Text(v, 3)
		kind := v.rnd.Intn(10)
		wantErr := false
		switch kind {
		case 0:
			text += "{{fails!}}" + v.pick("", " ", "a")
			wantErr = true
		case 1:
			text += "{{x|{{fails!}}}}"
			wantErr = true
		case 2:
			text += "{{not closed"
			wantErr = true
		}
		desc := fmt.Sprintf("%q", text)
		v.try(desc, func() {
			s := &c27Service{}
			tok := NewTokenizer(s)
			got, err := tok.evaluateTemplates(text)
			if s.wrongKey != "" {
				v.fail("template %q was evaluated with the key of another one: %s", s.wrongKey, desc)
			}
			if wantErr != (err != nil) {
				v.fail("error %v: %s", err, desc)
			}
			if err == nil && got != want {
				v.fail("evaluated to %q instead of %q: %s", got, want, desc)
			}
		})
		if v.rnd.Intn(10) != 0 || strings.ContainsAny(text, "\n|= ") {
			continue
		}
		v.try("article "+desc, func() {
			s := &c27Service{}
			tok := NewTokenizer(s)
			article, err := tok.Tokenize("x"+text+"y", "title")
			if err == nil && strings.Contains(article.Content, templatePlaceholderPrefix) {
				v.fail("placeholder left in %q: article %s", article.Content, desc)
			}
			if wantErr && err == nil {
				v.fail("no error: article %s", desc)
			}
			if err == nil && article.Title != "title" {
				v.fail("wrong title: article %s", desc)
			}
		})
	}
}
