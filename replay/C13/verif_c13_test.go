package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"wiki2book/config"
)

// Projects with articles that are (HTML exists already) or are not yet processed. A stand-in for pandoc records its arguments.
func TestVerifC13(t *testing.T) {
	v := verifStart(t)
	for v.more(4000) {
		dir := v.scratch()
		rec := filepath.Join(dir, "pandoc.args")
		script := filepath.Join(dir, "pandoc.sh")
		os.WriteFile(script, []byte("#!/bin/sh\nfor a in \"$@\"; do printf '%s\\n' \"$a\"; done > '"+rec+".new'\nmv '"+rec+".new' '"+rec+"'\n"), 0o755)
		for _, d := range []string{"articles", "html", "data"} {
			os.Mkdir(filepath.Join(dir, d), 0o755)
		}
		for _, f := range []string{"style.css", "cover.png"} {
			os.WriteFile(filepath.Join(dir, f), nil, 0o644)
		}
		n := v.rnd.Intn(7)
		if v.rnd.Intn(3) == 0 {
			n = v.rnd.Intn(30)
		}
		existing := v.pick("none", "some", "all")
		var names []string
		text := map[string]int{}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("Art%d", i)
			if v.rnd.Intn(8) == 0 && i > 0 {
				name = names[v.rnd.Intn(i)]
			}
			names = append(names, name)
			if existing == "all" || existing == "some" && v.rnd.Intn(2) == 0 {
				os.WriteFile(filepath.Join(dir, "html", name+".html"), []byte("<h1>x</h1>marker-"+name+"-"), 0o644)
				continue
			}
			text[name] = v.rnd.Intn(4)
			if v.rnd.Intn(4) == 0 {
				text[name] = 300
			}
			dto := map[string]interface{}{"parse": map[string]interface{}{"title": name, "wikitext": map[string]interface{}{"*": strings.Repeat("''a'' b\n\n", text[name]) + "marker-" + name + "-"}}}
			b, _ := json.Marshal(dto)
			os.WriteFile(filepath.Join(dir, "articles", name+".json"), b, 0o644)
		}
		threads := 1 + v.rnd.Intn(9)
		v.try(fmt.Sprintf("%d articles %v (HTML exists: %s, paragraphs %v), %d worker threads", n, names, existing, text, threads), func() {
			wd, _ := os.Getwd()
			os.Chdir(dir)
			defer os.Chdir(wd)
			c := config.NewDefaultConfig()
			c.CacheDir = dir
			c.CacheMaxAge = 1 << 40
			c.StyleFile, c.CoverImage, c.PandocDataDir = filepath.Join(dir, "style.css"), filepath.Join(dir, "cover.png"), filepath.Join(dir, "data")
			c.FontFiles = nil
			c.OutputDriver = config.OutputDriverPandoc
			c.PandocExecutable = script
			c.WorkerThreads = threads
			config.Current = c
			articles := append([]string{}, names...)
			generateBookFromArticles(&config.Project{Articles: articles, OutputFile: filepath.Join(dir, "out", "book.epub")})
			b, err := os.ReadFile(rec)
			if err != nil {
				v.fail("no book was generated for %d articles, %d threads", n, threads)
				return
			}
			args := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
			if len(args) < n || n > 0 && strings.HasPrefix(args[len(args)-n], "-") || n < len(args) && strings.HasSuffix(args[len(args)-n-1], ".html") {
				v.fail("the book of %v (%d threads) is made of %v", names, threads, args)
				return
			}
			for i, name := range names {
				f := args[len(args)-n+i]
				if !filepath.IsAbs(f) {
					f = filepath.Join(dir, f)
				}
				b, err := os.ReadFile(f)
				if filepath.Base(f) != name+".html" || err != nil || !strings.Contains(string(b), "marker-"+name+"-") {
					v.fail("article %d of %v (HTML exists: %s, %d threads) is %q (%v)", i, names, existing, threads, f, err)
					return
				}
			}
		})
	}
}
