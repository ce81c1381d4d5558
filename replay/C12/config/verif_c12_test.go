package config

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"testing"
)

func TestVerifC12(t *testing.T) {
	v := verifStart(t)
	defaultValidationErrorHandler = func(err error) {}
	oldCur := Current
	wd, _ := os.Getwd()
	defer func() { Current = oldCur; os.Chdir(wd) }()
	root := v.scratch()
	root, _ = filepath.EvalSymlinks(root)
	os.MkdirAll(filepath.Join(root, "conf", "deep"), 0777)
	os.MkdirAll(filepath.Join(root, "work"), 0777)
	os.Chdir(filepath.Join(root, "work"))
	for v.more(8000) {
		file := v.pick("../conf/c.json", "c.json", "../conf/deep/c.json", "./c.json", filepath.Join(root, "conf/deep/c.json"), "../conf/deep/../c.json")
		dir := filepath.Dir(file)
		if !filepath.IsAbs(dir) {
			dir = filepath.Join(root, "work", dir)
		}
		p := func() string {
			return v.pick("", "x", "a/b.css", "./c", "../d", "/abs/e", "/abs/../f", "../../g/h", "a//b", ".", "~/x", "conf/c", "/")
		}
		m := map[string]interface{}{}
		fields := map[string]string{"cache-dir": "CacheDir", "style-file": "StyleFile", "cover-image": "CoverImage", "pandoc-data-dir": "PandocDataDir"}
		def := NewDefaultConfig()
		want := map[string]interface{}{}
		abs := func(s string) string {
			if s == "" || filepath.IsAbs(s) {
				return s
			}
			return filepath.Join(dir, s)
		}
		for k, f := range fields {
			if v.rnd.Intn(3) > 0 {
				s := p()
				m[k] = s
				want[f] = abs(s)
			} else {
				want[f] = abs(reflect.ValueOf(*def).FieldByName(f).String())
			}
		}
		fonts := []string{}
		wantFonts := []string{}
		for i := v.rnd.Intn(4); i > 0; i-- {
			s := p()
			fonts = append(fonts, s)
			wantFonts = append(wantFonts, abs(s))
		}
		m["font-files"] = fonts
		b, _ := json.Marshal(m)
		v.try(fmt.Sprintf("file %s: %s", file, b), func() {
			if err := os.WriteFile(file, b, 0666); err != nil {
				panic(err)
			}
			Current = NewDefaultConfig()
			if err := LoadConfig(file); err != nil {
				v.fail("error %v: file %s: %s", err, file, b)
			}
			for f, w := range want {
				if got := reflect.ValueOf(*Current).FieldByName(f).Interface(); got != w {
					v.fail("%s is %q instead of %q: file %s: %s", f, got, w, file, b)
				}
			}
			if fmt.Sprintf("%q", Current.FontFiles) != fmt.Sprintf("%q", wantFonts) {
				v.fail("FontFiles are %q instead of %q: file %s: %s", Current.FontFiles, wantFonts, file, b)
			}
		})
	}
}
