package cache

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"
	"time"
	"wiki2book/config"
	"wiki2book/util"
)

func c01Clean(c string) bool {
	return c != "" && c != "." && c != ".." && !strings.ContainsAny(c, "/\\<>:\"|?*")
}

func c01Below(p string, dir string) bool {
	rest, ok := strings.CutPrefix(p, dir+"/")
	return ok && c01Clean(rest)
}

func TestVerifC01(t *testing.T) {
	v := verifStart(t)
	old := util.CurrentFilesystem
	defer func() { util.CurrentFilesystem = old }()
	parts := []string{"%", "%25", "%2F", "<", ">", ":", "\"", "/", "\\", "|", "?", "*", ".", "..", "../", "/..", "a", "ä", "2F", " ", "_", "images", "C:\\", "//", "~", ".tmp"}
	c01 := func(name string, folder string, cacheDir string) {
		if name == "" || name == "." || name == ".." {
			return
		}
		desc := fmt.Sprintf("name %q, folder %q, cache directory %q", name, folder, cacheDir)
		v.try(desc, func() {
			config.Current.CacheDir = cacheDir
			dir := filepath.Join(cacheDir, folder)
			if p := GetFilePathInCache(folder, name); !c01Below(p, dir) {
				v.fail("cached file outside its folder: %s gives %q", desc, p)
			}
			if p := GetRelativeFilePathInCache(folder, name); !c01Below(p, folder) {
				v.fail("relative path outside the folder: %s gives %q", desc, p)
			}
		})
	}
	// every operation on the file system of storing and looking up
	ops := func(name string, strategy string, max int64, age time.Duration) {
		if name == "" || name == "." || name == ".." {
			return
		}
		desc := fmt.Sprintf("name %q, strategy %s, maximum %d", name, strategy, max)
		v.try(desc, func() {
			fs := newVfs()
			util.CurrentFilesystem = fs
			config.Current.CacheDir = "/cache"
			config.Current.CacheEvictionStrategy = strategy
			config.Current.CacheMaxSize = max
			config.Current.CacheMaxAge = 10
			fs.files["/cache/images/x"] = &vfile{data: []byte("0123456789"), mod: time.Unix(10, 0)}
			fs.files["/cache/images/y"] = &vfile{data: []byte("01234567890123456789"), mod: time.Unix(20, 0)}
			p, err := CacheToFile("articles", name, &faultyReader{parts: []string{"content"}})
			if !c01Below(p, "/cache/articles") {
				v.fail("stored at %q: %s", p, desc)
			}
			if err == nil {
				for f, x := range fs.files {
					if string(x.data) == "content" && f != p {
						v.fail("content written to %q instead of %q: %s", f, p, desc)
					}
				}
				if x := fs.files[p]; x != nil {
					x.mod = time.Now().Add(-age)
				}
			}
			q, _, _ := GetFile("articles", name)
			if q != p {
				v.fail("looked up at %q but stored at %q: %s", q, p, desc)
			}
			for f := range fs.files {
				if !c01Below(f, "/cache/articles") && f != "/cache/images/x" && f != "/cache/images/y" && !strings.HasPrefix(f, "/cache/.tmp/") {
					v.fail("file %q was created: %s", f, desc)
				}
			}
			for _, l := range fs.temps {
				if !c01Below(l, "/cache/.tmp") {
					v.fail("temporary file %q: %s", l, desc)
				}
			}
		})
	}
	for _, a := range parts {
		for _, b := range parts {
			c01(a+b, "images", "/cache")
			c01(a+b+a, "articles", "cache/dir")
			ops(a+b, config.CacheEvictionStrategyNone, 100, 0)
			ops(b+a, config.CacheEvictionStrategyLru, 20, time.Hour)
			ops(b+a, config.CacheEvictionStrategyLargest, 20, time.Minute)
		}
		c01(a, "math", "/cache")
	}
	for v.more(20000) {
		c01(v.word(8, parts...), v.pick("images", "math", "articles", "html"), v.pick("/cache", ".wiki2book", "a/b"))
	}
	for c := 0; c < 256; c++ {
		c01("a"+string(rune(c)), "images", "/cache")
		c01(string([]byte{byte(c)}), "images", "/cache")
	}
}
