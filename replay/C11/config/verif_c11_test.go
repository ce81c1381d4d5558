package config

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC11(t *testing.T) {
	v := verifStart(t)
	errs := 0
	defaultValidationErrorHandler = func(err error) { errs++ }
	in := func(s string, l ...string) bool {
		for _, x := range l {
			if s == x {
				return true
			}
		}
		return false
	}
	templ := func() string {
		return v.pick("", "a {INPUT} {OUTPUT}", "a {INPUT}", "b {OUTPUT}", "x", "{INPUT}{OUTPUT}", "{OUTPUT} {INPUT} {INPUT}", "{input} {output}", "{INPUT {OUTPUT}", "{INPUT} OUTPUT")
	}
	good := func(s string) bool { return strings.Contains(s, "{INPUT}") && strings.Contains(s, "{OUTPUT}") }
	compat := map[string]string{"epub2": "pandoc", "epub3": "pandoc internal", "stats-json": "internal", "stats-txt": "internal"}
	for v.more(40000) {
		c := NewDefaultConfig()
		m := func() bool { return v.rnd.Intn(4) == 0 }
		if m() || m() {
			c.OutputType = v.pick("epub2", "epub3", "stats-json", "stats-txt", "epub", "", "stats.txt", "EPUB2")
		}
		if m() || m() {
			c.OutputDriver = v.pick("pandoc", "internal", "", "Pandoc", "foo")
		}
		if m() {
			c.MathConverter = v.pick("none", "wikimedia", "template", "", "foo", "None")
		}
		if m() {
			c.CacheEvictionStrategy = v.pick("none", "lru", "largest", "", "foo", "LRU")
		}
		if m() {
			c.TocDepth = v.rnd.Intn(10) - 2
		}
		if m() {
			c.WorkerThreads = v.rnd.Intn(4) - 1
		}
		if m() {
			c.CacheMaxSize = int64(v.rnd.Intn(4) - 1)
		}
		if m() {
			c.CacheMaxAge = int64(v.rnd.Intn(4) - 1)
		}
		ts := []*string{&c.CommandTemplateSvgToPng, &c.CommandTemplateMathSvgToPng, &c.CommandTemplateImageProcessing, &c.CommandTemplatePdfToPng, &c.CommandTemplateWebpToPng}
		for _, t := range ts {
			if v.rnd.Intn(8) == 0 {
				*t = templ()
			}
		}
		valid := compat[c.OutputType] != "" && in(c.OutputDriver, strings.Split(compat[c.OutputType], " ")...) &&
			in(c.MathConverter, "none", "wikimedia", "template") && in(c.CacheEvictionStrategy, "none", "lru", "largest") &&
			c.TocDepth >= 0 && c.TocDepth <= 6 && c.WorkerThreads >= 1 && c.CacheMaxSize > 0 && c.CacheMaxAge > 0
		for i, t := range ts {
			if i == 1 {
				valid = valid && *t != "" && good(*t)
			} else {
				valid = valid && (*t == "" || good(*t))
			}
		}
		desc := fmt.Sprintf("%+v", *c)
		v.try(desc, func() {
			errs = 0
			before := fmt.Sprintf("%+v", *c)
			c.AssertValidity()
			if (errs == 0) != valid {
				v.fail("valid: %v, but %d errors are reported for %s", valid, errs, desc)
			}
			if fmt.Sprintf("%+v", *c) != before {
				v.fail("the validation changes %s", desc)
			}
			err := VerifyOutputAndDriver(c.OutputType, c.OutputDriver)
			if (err == nil) != (compat[c.OutputType] != "" && in(c.OutputDriver, strings.Split(compat[c.OutputType], " ")...)) {
				v.fail("compatibility of %q and %q: %v", c.OutputType, c.OutputDriver, err)
			}
		})
	}
}
