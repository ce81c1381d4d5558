package http

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"wiki2book/config"
	"wiki2book/util"
)

type verifResp struct {
	status int
	retry  string
	werr   string
	body   string
	err    bool
}

type verifClient struct {
	resps  []verifResp
	n      int
	bodies []string
	urls   []string
}

type verifBody struct {
	io.Reader
	fail bool
}

func (b *verifBody) Close() error { return nil }

type verifBadReader struct{ r io.Reader }

func (b verifBadReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func (c *verifClient) Do(r *http.Request) (*http.Response, error) {
	b := ""
	if r.Body != nil {
		x, _ := io.ReadAll(r.Body)
		b = string(x)
	}
	c.bodies = append(c.bodies, r.Method+" "+b)
	c.urls = append(c.urls, r.URL.String())
	if c.n >= len(c.resps) {
		c.n++
		return nil, fmt.Errorf("no more responses")
	}
	x := c.resps[c.n]
	c.n++
	if x.err {
		return nil, fmt.Errorf("network error")
	}
	h := http.Header{}
	if x.retry != "" {
		h.Set("Retry-After", x.retry)
	}
	if x.werr != "" {
		h.Set("Mediawiki-Api-Error", x.werr)
	}
	var body io.Reader = bytes.NewReader([]byte(x.body))
	if x.body == "BROKEN" {
		body = verifBadReader{body}
	}
	return &http.Response{StatusCode: x.status, Header: h, Body: &verifBody{Reader: body}}, nil
}
func (c *verifClient) Post(u, ct string, b io.Reader) (*http.Response, error) {
	r, _ := http.NewRequest("POST", u, b)
	return c.Do(r)
}

func TestVerifC07(t *testing.T) {
	v := verifStart(t)
	util.CurrentFilesystem = &util.OsFilesystem{}
	root := v.scratch()
	config.Current.CacheDir = root
	config.Current.CacheMaxAge = 100000
	config.Current.CacheMaxSize = 1 << 40
	os.MkdirAll(filepath.Join(root, ".tmp"), 0777)
	var sleeps []int
	oldSleep := sleepFunc
	defer func() { sleepFunc = oldSleep }()
	sleepFunc = func(s int) { sleeps = append(sleeps, s) }
	old := http.DefaultClient
	_ = old
	for v.more(6000) {
		config.Current.CacheEvictionStrategy = v.pick("none", "lru")
		sleeps = nil
		var resps []verifResp
		for i := v.rnd.Intn(4); i > 0; i-- {
			resps = append(resps, verifResp{status: 429, retry: v.pick("", "0", "1", "7", "x", "-3", "2.5", "Wed, 21 Oct 2015 07:28:00 GMT", " 4"), werr: v.pick("", "", "maxlag"), body: "too many"})
		}
		last := verifResp{status: []int{200, 200, 200, 200, 201, 204, 206, 301, 304, 400, 403, 404, 428, 430, 500, 503, 199, 0}[v.rnd.Intn(18)], werr: v.pick("", "", "", "missingtitle", "0", " "), body: v.pick("body", "", "{}", strings.Repeat("long", 20000), "BROKEN"), err: v.rnd.Intn(12) == 0}
		resps = append(resps, last, verifResp{status: 200, body: "another request"})
		c := &verifClient{resps: resps}
		s := NewDefaultHttpService()
		s.httpClient = c
		want := []int{}
		for _, x := range resps {
			if x.status == 429 && !x.err {
				n, err := strconv.Atoi(x.retry)
				if err != nil {
					n = 2
				}
				want = append(want, n)
			} else {
				break
			}
		}
		ok := !last.err && last.status == 200 && last.werr == ""
		show := last
		show.body = util.TruncString(show.body)
		desc := fmt.Sprintf("responses %+v, then %+v", resps[:len(resps)-2], show)
		if v.rnd.Intn(2) == 0 {
			v.try("POST: "+desc, func() {
				r, err := s.PostFormEncoded("http://host/x", "q=data")
				if (err == nil) != ok || ok && r == nil || !ok && r != nil {
					v.fail("POST: accepted %v (error %v), but %s", r != nil, err, desc)
				}
				if ok && r != nil {
					if b, _ := io.ReadAll(r.Body); string(b) != last.body {
						v.fail("POST: another response is returned: %s", desc)
					}
				}
				for i, b := range c.bodies {
					if b != "POST q=data" {
						v.fail("request %d is %q: %s", i, b, desc)
					}
				}
			})
		} else {
			name := v.pick("a", "b/c", "d:e")
			path := filepath.Join(root, "articles", util.SanitizeFilename(name))
			os.Remove(path)
			cached := v.rnd.Intn(5) == 0
			if cached {
				os.MkdirAll(filepath.Dir(path), 0777)
				os.WriteFile(path, []byte("cached"), 0666)
			}
			v.try("GET: "+desc, func() {
				p, fresh, err := s.DownloadAndCache("http://host/x", "articles", name)
				content, rerr := os.ReadFile(path)
				if cached {
					if err != nil || p != path || fresh || c.n != 0 || string(content) != "cached" {
						v.fail("cached file %q: result (%s, %v, %v), %d requests, content %q", name, p, fresh, err, c.n, content)
					}
					return
				}
				ok := ok && last.body != "BROKEN"
				if (err == nil) != ok {
					v.fail("GET: error is %v: %s", err, desc)
				}
				if !ok && rerr == nil {
					v.fail("GET: a failed download is stored (%q): %s", util.TruncString(string(content)), desc)
				}
				if ok && (rerr != nil || string(content) != last.body || p != path || !fresh) {
					v.fail("GET: stored %q, result (%s, %v): %s", util.TruncString(string(content)), p, fresh, desc)
				}
			})
			if cached {
				continue
			}
		}
		if fmt.Sprint(sleeps) != fmt.Sprint(want) {
			v.fail("waits %v seconds instead of %v: %s", sleeps, want, desc)
		}
		if c.n != len(want)+1 {
			v.fail("%d requests instead of %d: %s", c.n, len(want)+1, desc)
		}
		for _, u := range c.urls {
			if u != "http://host/x" {
				v.fail("request to %s: %s", u, desc)
			}
		}
	}
}
