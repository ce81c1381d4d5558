package cache

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"
	"time"
	"wiki2book/config"
	"wiki2book/util"
)

func TestVerifC03(t *testing.T) {
	v := verifStart(t)
	old := util.CurrentFilesystem
	defer func() { util.CurrentFilesystem = old }()
	config.Current.CacheDir = "/cache"
	ops := []string{"", "Mkdir#1", "Temp#1", "Write#1", "Write#2", "Write#3", "FStat#1", "FStat#2", "Close#1", "Close#2", "DirSize#1", "Size#1", "Size#2", "Largest#1", "Largest#2", "Lru#1", "Lru#2", "Remove#1", "Remove#2", "Remove#3", "Rename#1", "Chtimes#1", "read"}
	for _, strategy := range []string{config.CacheEvictionStrategyNone, config.CacheEvictionStrategyLargest, config.CacheEvictionStrategyLru} {
		for _, existing := range []bool{false, true} {
			for _, max := range []int64{1000000, 60, 25, 1} {
				for _, op := range ops {
					for _, op2 := range []string{"", "Remove#1", "Close#1", "Close#2", "Rename#1", "Write#2"} {
						for _, parts := range [][]string{{}, {"hello world"}, {"a", "bc", "def ghi jkl"}} {
							c03(v, strategy, existing, max, op, op2, parts)
						}
					}
				}
			}
		}
	}
	c03Lock(v)
}

func c03(v *verifT, strategy string, existing bool, max int64, op string, op2 string, parts []string) {
	fs := newVfs()
	util.CurrentFilesystem = fs
	config.Current.CacheEvictionStrategy = strategy
	config.Current.CacheMaxSize = max
	final := "/cache/articles/the article"
	fs.files["/cache/images/x"] = &vfile{data: []byte("0123456789"), mod: time.Unix(10, 0)}
	fs.files["/cache/images/y"] = &vfile{data: []byte("01234567890123456789"), mod: time.Unix(20, 0)}
	if existing {
		fs.files[final] = &vfile{data: []byte("old content"), mod: time.Unix(5, 0)}
	}
	fs.fail[op] = true
	fs.fail[op2] = true
	reader := &faultyReader{parts: append([]string{}, parts...), fail: op == "read"}
	desc := fmt.Sprintf("strategy %s, file exists before: %v, maximum %d, failing operations %q %q, data %q", strategy, existing, max, op, op2, parts)
	v.try(desc, func() {
		_, err := CacheToFile("articles", "the article", reader)
		desc += fmt.Sprintf(", error %v, operations %v", err, fs.log)
		content := strings.Join(parts, "")
		x := fs.files[final]
		if err == nil && (x == nil || string(x.data) != content) {
			v.fail("success reported but the data is not in the file: %s", desc)
		}
		if err == nil && op == "read" {
			v.fail("the data could not be read but success is reported: %s", desc)
		}
		if len(fs.renames) > 0 && string(x.data) != content {
			v.fail("incomplete data was moved: %s", desc)
		}
		if op == "read" && len(fs.renames) > 0 {
			v.fail("moved although the data could not be read: %s", desc)
		}
		if x != nil && string(x.data) != content && (!existing || string(x.data) != "old content") {
			v.fail("the file is neither the old nor the new one: %s", desc)
		}
		if err != nil && len(fs.renames) > 0 {
			v.fail("an error is reported but the file has been replaced: %s", desc)
		}
		closed, bad, removeFailed := false, false, false
		rename := false
		for _, l := range fs.log {
			switch {
			case strings.HasPrefix(l, "Rename"):
				if !closed || bad {
					v.fail("moved before everything was written and closed: %s", desc)
				}
				rename = true
			case strings.HasPrefix(l, "Close"):
				if !closed && !contains(fs.failed, key(l)) {
					closed = true
				} else if !closed {
					bad = true
				}
			case strings.HasPrefix(l, "Create("), strings.HasPrefix(l, "Create#"):
				v.fail("a file is written without a temporary file: %s", desc)
			case strings.HasPrefix(l, "Remove") && contains(fs.failed, key(l)):
				removeFailed = true
			}
		}
		_ = rename
		for _, f := range fs.failed {
			switch strings.SplitN(f, "#", 2)[0] {
			case "Mkdir", "Temp", "Write", "DirSize", "Rename", "FStat", "Largest", "Lru":
				if err == nil {
					v.fail("step %s failed but success is reported: %s", f, desc)
				}
			case "Close":
				if err == nil && bad {
					v.fail("closing failed but success is reported: %s", desc)
				}
			}
		}
		if !removeFailed {
			for _, p := range fs.temps {
				if fs.files[p] != nil {
					v.fail("the temporary file is still there: %s", desc)
				}
			}
		} else {
			for _, p := range fs.temps {
				if fs.files[p] != nil && !strings.Contains(strings.Join(fs.log, " "), "("+p+")") {
					v.fail("the temporary file is not removed: %s", desc)
				}
			}
		}
		if len(fs.failed) == 0 && op != "read" && err != nil && max >= 60 {
			v.fail("nothing failed but an error is reported: %s", desc)
		}
	})
}

func key(l string) string { return l[:strings.Index(l, "(")] }
func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// c03Lock checks for every operation that no other storing begins before the current one is done.
func c03Lock(v *verifT) {
	config.Current.CacheEvictionStrategy = config.CacheEvictionStrategyLru
	config.Current.CacheMaxSize = 40
	for k := 1; k < 40; k++ {
		fs := newVfs()
		fs.files["/cache/images/x"] = &vfile{data: []byte("0123456789"), mod: time.Unix(10, 0)}
		fs.files["/cache/images/y"] = &vfile{data: []byte("01234567890123456789"), mod: time.Unix(20, 0)}
		util.CurrentFilesystem = fs
		n := 0
		inside := false
		overlap := ""
		done := make(chan bool, 1)
		started := false
		fs.onOp = func(op string) {
			if inside {
				if strings.Contains(fs.log[len(fs.log)-1], "second") {
					overlap = fs.log[len(fs.log)-1]
				}
				return
			}
			n++
			if n == k && !started {
				started = true
				inside = true
				go func() {
					CacheToFile("html", "second", strings.NewReader("x"))
					done <- true
				}()
				time.Sleep(10 * time.Millisecond)
				inside = false
			}
		}
		v.try("two files at the same time", func() {
			CacheToFile("articles", "first", strings.NewReader("hello"))
			if started {
				<-done
			}
			if overlap != "" {
				v.fail("while one file is stored (operation %d) another one is written: %s", k, overlap)
			}
			if fs.files[filepath.Join("/cache", "articles", "first")] == nil {
				return
			}
		})
		if !started {
			return
		}
	}
}
