package cache

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"
	"time"
	"wiki2book/config"
	"wiki2book/util"
)

func TestVerifC06(t *testing.T) {
	v := verifStart(t)
	old := util.CurrentFilesystem
	defer func() { util.CurrentFilesystem = old }()
	config.Current.CacheDir = "/cache"
	for v.more(40000) {
		fs := newVfs()
		util.CurrentFilesystem = fs
		strategy := v.pick(config.CacheEvictionStrategyNone, config.CacheEvictionStrategyLargest, config.CacheEvictionStrategyLru)
		config.Current.CacheEvictionStrategy = strategy
		max := int64(1 + v.rnd.Intn(4))
		if v.rnd.Intn(10) == 0 {
			max = 100000
		}
		config.Current.CacheMaxAge = max
		name := v.pick("f", "a/b", "x:y", "%", "ü?")
		path := filepath.Join("/cache", "images", util.SanitizeFilename(name))
		other := "/cache/images/other"
		start := time.Now()
		fs.files[other] = &vfile{mod: start.Add(-time.Hour)}
		exists := v.rnd.Intn(5) > 0
		ageMin := int64(v.rnd.Intn(int(min64(max, 6)) + 3))
		if v.rnd.Intn(2) == 0 {
			ageMin = max + int64(v.rnd.Intn(3)) - 1
		}
		// 3 to 57 seconds into the minute, so that the running time of the test doesn't matter
		age := time.Duration(ageMin)*time.Minute + time.Duration(3+v.rnd.Intn(54))*time.Second
		if exists {
			fs.files[path] = &vfile{data: []byte("x"), mod: start.Add(-age)}
		}
		for _, op := range []string{"Stat#1", "Remove#1", "Chtimes#1"} {
			if v.rnd.Intn(10) == 0 {
				fs.fail[op] = true
			}
		}
		desc := fmt.Sprintf("strategy %s, maximum age %d min, file %q exists: %v, age %s, failing operations %v", strategy, max, name, exists, age, fs.fail)
		v.try(desc, func() {
			p, ok, err := GetFile("images", name)
			desc += fmt.Sprintf("; operations %v, result (%q, %v, %v)", fs.log, p, ok, err)
			if p != path {
				v.fail("wrong path: %s", desc)
			}
			if fs.files[other] == nil || !fs.files[other].mod.Equal(start.Add(-time.Hour)) {
				v.fail("another file is touched: %s", desc)
			}
			outdated := exists && ageMin > max
			if contains06(fs.failed, "Stat#1") || contains06(fs.failed, "Remove#1") {
				if err == nil || ok {
					v.fail("a failure is not reported: %s", desc)
				}
				return
			}
			if err != nil {
				v.fail("an error without a reason: %s", desc)
			}
			if ok != (exists && !outdated) {
				v.fail("usable is wrong: %s", desc)
			}
			x := fs.files[path]
			if (x != nil) != (exists && !outdated) {
				v.fail("an outdated file has to be removed and no other one: %s", desc)
			}
			if ok {
				refreshed := !x.mod.Before(start)
				if strategy == config.CacheEvictionStrategyLru && !refreshed && !contains06(fs.failed, "Chtimes#1") {
					v.fail("the timestamps are not refreshed: %s", desc)
				}
				if strategy != config.CacheEvictionStrategyLru && !x.mod.Equal(start.Add(-age)) {
					v.fail("the timestamps are changed: %s", desc)
				}
				if strategy == config.CacheEvictionStrategyLru && !strings.Contains(strings.Join(fs.log, " "), path+",0)") {
					v.fail("access and modification time differ: %s", desc)
				}
			}
		})
	}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func contains06(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
