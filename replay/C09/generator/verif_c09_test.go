package generator

import (
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"wiki2book/config"
	"wiki2book/parser"
	"wiki2book/util"
	"wiki2book/wikipedia"
)

type c09Http struct {
	root  string
	fresh bool
	file  string
}

func (h *c09Http) DownloadAndCache(u, folder, file string) (string, bool, error) {
	p := filepath.Join(h.root, folder, util.SanitizeFilename(file))
	os.MkdirAll(filepath.Dir(p), 0777)
	if folder == "articles" {
		os.WriteFile(p, []byte(`{"parse":{"title":"File:Redirected.jpg"}}`), 0666)
		return p, true, nil
	}
	os.WriteFile(p, []byte("image"), 0666)
	h.file = p
	return p, h.fresh, nil
}
func (h *c09Http) PostFormEncoded(url, ct string) (*http.Response, error) {
	return nil, errors.New("unexpected POST")
}

type c09Img struct{ log []string }

func (s *c09Img) ResizeAndCompressImage(f string, c string) error {
	s.log = append(s.log, "resize "+f+" "+c)
	_, err := os.Stat(f)
	return err
}
func (s *c09Img) ConvertToPng(a string, b string, c string) error {
	s.log = append(s.log, "convert "+a+" "+b+" "+c)
	if _, err := os.Stat(a); err != nil {
		return err
	}
	return os.WriteFile(b, []byte("png"), 0666)
}

var c09Src = regexp.MustCompile(` src="\./([^"]*)"`)

func TestVerifC09(t *testing.T) {
	v := verifStart(t)
	util.CurrentFilesystem = &util.OsFilesystem{}
	for v.more(2500) {
		root := v.scratch()
		config.Current.CacheDir = root
		config.Current.CacheEvictionStrategy = "none"
		config.Current.SvgSizeToViewbox = false
		config.Current.CommandTemplatePdfToPng = v.pick("", "pdf {INPUT} {OUTPUT}")
		config.Current.CommandTemplateSvgToPng = v.pick("", "svg {INPUT} {OUTPUT}")
		config.Current.CommandTemplateWebpToPng = v.pick("", "webp {INPUT} {OUTPUT}")
		config.Current.CommandTemplateImageProcessing = v.pick("", "resize {INPUT} {OUTPUT}")
		config.Current.IgnoredMediaTypes = []string{}
		config.Current.IgnoredImageParams = []string{}
		name := "P" + v.word(3, "a", "ä", "%", "?", "&", "+", "x:y", "\"", "'", "*", "(", ")", ".svg", ".") + v.pick(".jpg", ".png", ".svg", ".SVG", ".pdf", ".Pdf", ".webp", ".WEBP", ".svg.png", ".gif", "", ".pngx", ".jpeg", ".webp.jpg")
		h := &c09Http{root: root, fresh: v.rnd.Intn(2) == 0}
		is := &c09Img{}
		low := strings.ToLower(name)
		tmpl := ""
		switch {
		case strings.HasSuffix(low, ".pdf"):
			tmpl = config.Current.CommandTemplatePdfToPng
		case strings.HasSuffix(low, ".svg"):
			tmpl = config.Current.CommandTemplateSvgToPng
		case strings.HasSuffix(low, ".webp"):
			tmpl = config.Current.CommandTemplateWebpToPng
		}
		orig := filepath.Join(root, "images", util.SanitizeFilename(name))
		final := orig
		var want []string
		fresh := h.fresh
		exists := false
		if tmpl != "" {
			final = orig + ".png"
			if exists = v.rnd.Intn(3) == 0; exists {
				os.MkdirAll(filepath.Dir(final), 0777)
				os.WriteFile(final, []byte("old png"), 0666)
			} else {
				want = append(want, "convert "+orig+" "+final+" "+tmpl)
				fresh = true
			}
		}
		fl := strings.ToLower(final)
		if fresh && config.Current.CommandTemplateImageProcessing != "" && !strings.HasSuffix(fl, ".svg") && !strings.HasSuffix(fl, ".pdf") {
			want = append(want, "resize "+final+" "+config.Current.CommandTemplateImageProcessing)
		}
		c := config.Current
		desc := fmt.Sprintf("image %q (fresh %v, PNG exists %v), commands pdf %q svg %q webp %q resize %q", name, h.fresh, exists, c.CommandTemplatePdfToPng, c.CommandTemplateSvgToPng, c.CommandTemplateWebpToPng, c.CommandTemplateImageProcessing)
		v.try(desc, func() {
			w := wikipedia.NewWikipediaService("en", "wikipedia.org", []string{"commons.wikimedia.org"}, "img.host", "math", is, h)
			err := w.DownloadImages([]string{"File:" + name})
			if err != nil {
				v.fail("download fails (%v): %s", err, desc)
				return
			}
			if fmt.Sprint(is.log) != fmt.Sprint(want) {
				v.fail("post-processing is %v instead of %v: %s", is.log, want, desc)
			}
			if _, err := os.Stat(final); err != nil {
				v.fail("the file %s does not exist: %s", final, desc)
			}
			g := &HtmlGenerator{TokenMap: map[string]parser.Token{}}
			for _, inline := range []bool{true, false} {
				var html string
				if inline {
					html, err = g.expandInlineImage(parser.InlineImageToken{Filename: name, SizeX: -1, SizeY: -1})
				} else {
					html, err = g.expandImage(parser.ImageToken{Filename: name, SizeX: 10, SizeY: -1})
				}
				m := c09Src.FindStringSubmatch(html)
				if err != nil || m == nil {
					v.fail("no image in HTML %q (error %v): %s", html, err, desc)
					continue
				}
				var parts []string
				for _, p := range strings.Split(m[1], "/") {
					q, _ := url.QueryUnescape(p)
					parts = append(parts, q)
				}
				if got := filepath.Join(root, strings.Join(parts, "/")); got != final {
					v.fail("the HTML refers to %s instead of %s: %s", got, final, desc)
				}
			}
		})
		os.RemoveAll(root)
	}
}
