package generator

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"wiki2book/config"
)

func TestVerifC20(t *testing.T) {
	v := verifStart(t)
	root := v.scratch()
	script := filepath.Join(root, "pandoc")
	out := filepath.Join(root, "args")
	os.WriteFile(script, []byte("#!/bin/sh\nfor a in \"$@\"; do printf '%s\\n' \"$a\"; done > '"+out+"'\npwd >> '"+out+"'\n[ -e '"+root+"/fail' ] && exit 3\nexit 0\n"), 0755)
	os.MkdirAll(filepath.Join(root, "cache"), 0777)
	real, _ := filepath.EvalSymlinks(filepath.Join(root, "cache"))
	for v.more(1500) {
		c := config.NewDefaultConfig()
		config.Current = c
		c.PandocExecutable = script
		c.CacheDir = filepath.Join(root, "cache")
		c.OutputType = v.pick("epub2", "epub3", "epub2", "epub3", "stats-json", "foo")
		c.OutputDriver = v.pick("pandoc", "pandoc", "pandoc", "bar")
		c.TocDepth = v.rnd.Intn(7)
		c.PandocDataDir = v.pick("", "/data dir")
		c.StyleFile = v.pick("", "/x/style.css")
		c.CoverImage = v.pick("", "/x/cover image.png")
		c.FontFiles = []string{}
		for i := v.rnd.Intn(4); i > 0; i-- {
			c.FontFiles = append(c.FontFiles, fmt.Sprintf("/font %d", v.rnd.Intn(9)))
		}
		var files []string
		for i := v.rnd.Intn(5); i > 0; i-- {
			files = append(files, fmt.Sprintf("/html/a %d.html", v.rnd.Intn(9)))
		}
		s := func() string { return v.pick("", "Foo Bar", "x=y", "--toc", "ä") }
		m := config.Metadata{Title: s() + "t", Author: s(), License: s(), Language: s(), Date: s()}
		outFile := v.pick("/out/book.epub", "book.epub", "-x")
		fails := v.rnd.Intn(4) == 0
		os.Remove(filepath.Join(root, "fail"))
		if fails {
			os.WriteFile(filepath.Join(root, "fail"), nil, 0666)
		}
		missing := v.rnd.Intn(10) == 0
		if missing {
			c.PandocExecutable = filepath.Join(root, "no-such-program")
		}
		opts := [][]string{{"-f", "html"}, {"-t", c.OutputType}, {"-o", outFile}, {"--metadata", "title=" + m.Title}, {"--metadata", "author=" + m.Author}, {"--metadata", "rights=" + m.License}, {"--metadata", "language=" + m.Language}, {"--metadata", "date=" + m.Date}}
		if c.TocDepth > 0 {
			opts = append(opts, []string{"--toc"}, []string{"--toc-depth", strconv.Itoa(c.TocDepth)})
		}
		if c.PandocDataDir != "" {
			opts = append(opts, []string{"--data-dir", c.PandocDataDir})
		}
		if c.StyleFile != "" {
			opts = append(opts, []string{"--css", c.StyleFile})
		}
		if c.CoverImage != "" {
			opts = append(opts, []string{"--epub-cover-image=" + c.CoverImage})
		}
		for _, f := range c.FontFiles {
			opts = append(opts, []string{"--epub-embed-font=" + f})
		}
		desc := fmt.Sprintf("type %s, driver %s, toc %d, data dir %q, style %q, cover %q, fonts %q, metadata %+v, output %q, files %q, pandoc fails %v, missing %v", c.OutputType, c.OutputDriver, c.TocDepth, c.PandocDataDir, c.StyleFile, c.CoverImage, c.FontFiles, m, outFile, files, fails, missing)
		v.try(desc, func() {
			os.Remove(out)
			err := GenerateEpub(files, outFile, m)
			b, rerr := os.ReadFile(out)
			supported := (c.OutputType == "epub2" || c.OutputType == "epub3") && c.OutputDriver == "pandoc"
			if !supported {
				if err == nil || rerr == nil {
					v.fail("error %v, pandoc called %v: %s", err, rerr == nil, desc)
				}
				return
			}
			if (err != nil) != (fails || missing) {
				v.fail("error %v: %s", err, desc)
			}
			if missing {
				return
			}
			if rerr != nil {
				v.fail("pandoc is not called: %s", desc)
				return
			}
			got := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
			if cwd := got[len(got)-1]; cwd != real && cwd != c.CacheDir {
				v.fail("pandoc runs in %s: %s", cwd, desc)
			}
			got = got[:len(got)-1]
			n := 0
			for _, o := range opts {
				n += len(o)
			}
			if len(got) != n+len(files) || fmt.Sprint(got[n:]) != fmt.Sprint(files) {
				v.fail("pandoc gets %q: %s", got, desc)
				return
			}
			// the options in any order, fonts in their order
			rest := append([]string{}, got[:n]...)
			for _, o := range opts {
				ok := false
				for i := 0; i+len(o) <= len(rest); i++ {
					same := true
					for j := range o {
						same = same && rest[i+j] == o[j]
					}
					if same {
						rest = append(rest[:i:i], rest[i+len(o):]...)
						ok = true
						break
					}
				}
				if !ok {
					v.fail("pandoc gets %q without %q: %s", got, o, desc)
					return
				}
			}
		})
	}
}
