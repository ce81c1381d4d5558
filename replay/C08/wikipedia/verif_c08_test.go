package wikipedia

import (
	"errors"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"wiki2book/config"
	"wiki2book/util"
)

type verifHttp struct {
	f func(url, folder, file string) (string, bool, error)
}

func (h *verifHttp) DownloadAndCache(url, folder, file string) (string, bool, error) {
	return h.f(url, folder, file)
}
func (h *verifHttp) PostFormEncoded(url, ct string) (*http.Response, error) {
	return nil, errors.New("unexpected POST")
}

type verifImg struct {
	resize  []string
	convert []string
	err     error
}

func (s *verifImg) ResizeAndCompressImage(f string, c string) error {
	s.resize = append(s.resize, f)
	return s.err
}
func (s *verifImg) ConvertToPng(a string, b string, c string) error {
	s.convert = append(s.convert, a+" -> "+b+" by "+c)
	return s.err
}

func TestVerifC08(t *testing.T) {
	v := verifStart(t)
	root := v.scratch()
	util.CurrentFilesystem = &util.OsFilesystem{}
	config.Current.CacheDir = root
	config.Current.SvgSizeToViewbox = false
	config.Current.CommandTemplateImageProcessing = "resize {INPUT} {OUTPUT}"
	for v.more(8000) {
		n := 1 + v.rnd.Intn(4)
		var hosts []string
		for i := 0; i < n; i++ {
			hosts = append(hosts, v.pick("commons.wikimedia.org", "de.wikipedia.org", "en.wikipedia.org", "my.host")+fmt.Sprint(i))
		}
		var images []string
		for i := v.rnd.Intn(4); i > 0; i-- {
			images = append(images, v.pick("File:", "Datei:", "file:")+fmt.Sprintf("pic%d.%s", i, v.pick("jpg", "png", "svg")))
		}
		art := map[string]bool{}
		img := map[string]bool{}
		fresh := map[string]bool{}
		bad := map[string]bool{}
		desc := fmt.Sprintf("hosts %v, images %v:", hosts, images)
		for _, im := range images {
			name := strings.SplitN(im, ":", 2)[1]
			for _, h := range hosts {
				k := h + " " + name
				art[k] = v.rnd.Intn(3) > 0
				img[k] = v.rnd.Intn(3) > 0
				fresh[k] = v.rnd.Intn(3) > 0
				desc += fmt.Sprintf(" (%s: article %v, image %v, fresh %v)", k, art[k], img[k], fresh[k])
			}
			bad[name] = v.rnd.Intn(6) == 0
			desc += fmt.Sprintf(" post-processing of %s fails: %v;", name, bad[name])
		}
		var events []string
		is := &verifImg{}
		curHost := ""
		h := &verifHttp{}
		h.f = func(u, folder, file string) (string, bool, error) {
			if folder == "articles" {
				for _, x := range hosts {
					if strings.HasPrefix(u, "https://"+x+"/") {
						curHost = x
					}
				}
				name := strings.TrimSuffix(strings.TrimPrefix(file, "File:"), ".json")
				events = append(events, "article "+curHost+" "+name)
				if !art[curHost+" "+name] {
					return "", true, errors.New(v.pick("no article", "GET request to url https://x failed with status code 404", "GET request to url https://x failed with status code 429", "GET request failed with status code 500", "Error executing GET request: timeout", "missingtitle"))
				}
				p := filepath.Join(root, "article.json")
				os.WriteFile(p, []byte(`{"parse":{"title":"File:`+name+`"}}`), 0666)
				return p, true, nil
			}
			events = append(events, "image "+curHost+" "+file)
			k := curHost + " " + file
			if !img[k] {
				return "", true, errors.New(v.pick("no image", "GET request to url https://x failed with status code 404", "GET request to url https://x failed with status code 429", "GET request failed with status code 500", "Error executing GET request: timeout", "unable to cache"))
			}
			is.err = nil
			if bad[file] {
				is.err = errors.New("bad")
			}
			return filepath.Join(root, "images", file), fresh[k], nil
		}
		w := NewWikipediaService("en", "wikipedia.org", hosts, "img.host", "math", is, h)
		// what has to happen
		var want []string
		var wantRes, wantConv []string
		wantErr := false
		config.Current.CommandTemplateSvgToPng = v.pick("", "svg {INPUT} {OUTPUT}")
		for _, im := range images {
			name := strings.SplitN(im, ":", 2)[1]
			found := false
			for _, x := range hosts {
				want = append(want, "article "+x+" "+name)
				if !art[x+" "+name] {
					continue
				}
				want = append(want, "image "+x+" "+name)
				if !img[x+" "+name] {
					continue
				}
				found = true
				p := filepath.Join(root, "images", name)
				fr := fresh[x+" "+name]
				if strings.HasSuffix(name, "svg") {
					if config.Current.CommandTemplateSvgToPng == "" {
						break
					}
					wantConv = append(wantConv, p+" -> "+p+".png by "+config.Current.CommandTemplateSvgToPng)
					if bad[name] {
						wantErr = true
						break
					}
					p += ".png"
					fr = true
				}
				if fr {
					wantRes = append(wantRes, p)
					if bad[name] {
						wantErr = true
					}
				}
				break
			}
			if !found {
				wantErr = true
			}
			if wantErr {
				break
			}
		}
		v.try(desc, func() {
			err := w.DownloadImages(images)
			if (err != nil) != wantErr {
				v.fail("error %v, expected one: %v; %s", err, wantErr, desc)
			}
			if fmt.Sprint(events) != fmt.Sprint(want) {
				v.fail("requests %v instead of %v; %s", events, want, desc)
			}
			if fmt.Sprint(is.resize) != fmt.Sprint(wantRes) || fmt.Sprint(is.convert) != fmt.Sprint(wantConv) {
				v.fail("post-processing: resized %v, converted %v instead of %v, %v; %s", is.resize, is.convert, wantRes, wantConv, desc)
			}
		})
	}
}
