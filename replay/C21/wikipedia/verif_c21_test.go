package wikipedia

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"wiki2book/config"
	"wiki2book/util"
)

type c21Http struct {
	log     []string
	status  int
	loc     string
	perr    bool
	nilResp bool
	svgErr  bool
	pngErr  bool
	root    string
}

func (h *c21Http) DownloadAndCache(u, folder, file string) (string, bool, error) {
	h.log = append(h.log, "GET "+u+" as "+folder+"/"+file)
	if strings.HasSuffix(file, ".svg") && h.svgErr || strings.HasSuffix(file, ".png") && h.pngErr {
		return "partial path", true, errors.New("download failed")
	}
	return filepath.Join(h.root, folder, util.SanitizeFilename(file)), true, nil
}
func (h *c21Http) PostFormEncoded(u, data string) (*http.Response, error) {
	h.log = append(h.log, "POST "+u+" "+data)
	var r *http.Response
	if !h.nilResp {
		r = &http.Response{StatusCode: h.status, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("text"))}
		if h.loc != "" {
			r.Header.Set("X-Resource-Location", h.loc)
		}
	}
	if h.perr {
		return r, errors.New("post failed")
	}
	return r, nil
}

type c21Img struct {
	log  []string
	fail bool
}

func (s *c21Img) ResizeAndCompressImage(f string, c string) error {
	s.log = append(s.log, "resize")
	return nil
}
func (s *c21Img) ConvertToPng(a string, b string, c string) error {
	s.log = append(s.log, a+" "+b+" "+c)
	if s.fail {
		return errors.New("convert failed")
	}
	return nil
}

func TestVerifC21(t *testing.T) {
	v := verifStart(t)
	util.CurrentFilesystem = &util.OsFilesystem{}
	for v.more(4000) {
		root := v.scratch()
		c := config.NewDefaultConfig()
		config.Current = c
		c.CacheDir = root
		c.CacheEvictionStrategy = "none"
		os.MkdirAll(filepath.Join(root, ".tmp"), 0777)
		c.MathConverter = v.pick("none", "wikimedia", "template", "template", "wikimedia", "foo", "")
		c.CommandTemplateMathSvgToPng = "math {INPUT} {OUTPUT}"
		c.CommandTemplateSvgToPng = "svg {INPUT} {OUTPUT}"
		one := func() bool { return v.rnd.Intn(7) == 0 }
		h := &c21Http{status: []int{200, 200, 200, 200, 200, 404, 500, 429}[v.rnd.Intn(8)], loc: v.pick("abc", "def0", "abc", ""), perr: one(), nilResp: one(), svgErr: one(), pngErr: one(), root: root}
		is := &c21Img{fail: one()}
		formula := v.pick("x^2", "a+b", "", "\\frac{a}{b}", "x & y")
		cached := v.rnd.Intn(3) == 0
		loc := h.loc
		mf := filepath.Join(root, "math", util.Hash(formula))
		if cached {
			loc = "cachedloc"
			os.MkdirAll(filepath.Dir(mf), 0777)
			os.WriteFile(mf, []byte(loc), 0666)
		}
		known := cached || !h.perr && !h.nilResp && h.status == 200 && h.loc != ""
		api := "https://math.api"
		var want []string
		if !cached {
			want = append(want, "POST "+api+"/check/tex q="+url.QueryEscape("{\\displaystyle "+formula+"}"))
		}
		svg := filepath.Join(root, "images", loc+".svg")
		png := ""
		var wantImg []string
		ok := known
		if known {
			want = append(want, "GET "+api+"/render/svg/"+loc+" as images/"+loc+".svg")
			ok = !h.svgErr
			if ok {
				switch c.MathConverter {
				case "none":
					png = svg
				case "wikimedia":
					want = append(want, "GET "+api+"/render/png/"+loc+" as images/"+loc+".png")
					png = filepath.Join(root, "images", loc+".png")
					ok = !h.pngErr
				case "template":
					png = filepath.Join(root, "images", loc+".png")
					wantImg = append(wantImg, svg+" "+png+" "+c.CommandTemplateMathSvgToPng)
					ok = !is.fail
				default:
					ok = false
				}
			}
		}
		if !ok {
			svg, png = "", ""
		}
		desc := fmt.Sprintf("formula %q, converter %q, location cached %v, service answers %+v, convert fails %v", formula, c.MathConverter, cached, *h, is.fail)
		v.try(desc, func() {
			w := NewWikipediaService("en", "wikipedia.org", nil, "img.host", api, is, h)
			a, b, err := w.RenderMath(formula)
			if a != svg || b != png || (err == nil) != ok {
				v.fail("result (%q, %q, %v) instead of (%q, %q, ok %v): %s", a, b, err, svg, png, ok, desc)
			}
			if fmt.Sprint(h.log) != fmt.Sprint(want) || fmt.Sprint(is.log) != fmt.Sprint(wantImg) {
				v.fail("requests %v, conversions %v instead of %v, %v: %s", h.log, is.log, want, wantImg, desc)
			}
			x, rerr := os.ReadFile(mf)
			if known != (rerr == nil) || known && string(x) != loc {
				v.fail("cached location %q (%v): %s", x, rerr, desc)
			}
		})
		os.RemoveAll(root)
	}
}
