package cache

import (
	"fmt"
	"strings"
	"testing"
	"time"
	"wiki2book/config"
	"wiki2book/util"
)

// The cache evicts what the search of its strategy delivers.
func TestVerifC05Cache(t *testing.T) {
	v := verifStart(t)
	old := util.CurrentFilesystem
	defer func() { util.CurrentFilesystem = old }()
	config.Current.CacheDir = "/cache"
	for v.more(20000) {
		fs := newVfs()
		util.CurrentFilesystem = fs
		strategy := v.pick(config.CacheEvictionStrategyLargest, config.CacheEvictionStrategyLru)
		config.Current.CacheEvictionStrategy = strategy
		config.Current.CacheMaxSize = int64(5 + v.rnd.Intn(30))
		state := ""
		for _, n := range []string{"/cache/articles/f", "/cache/html/a", "/cache/images/b", "/cache/images/c", "/cache/.tmp/old1"} {
			if v.rnd.Intn(2) == 0 {
				f := &vfile{data: make([]byte, v.rnd.Intn(12)), mod: time.Unix(int64(v.rnd.Intn(10)), 0)}
				fs.files[n] = f
				state += fmt.Sprintf(" %s: %d bytes of time %d;", n, len(f.data), f.mod.Unix())
			}
		}
		desc := fmt.Sprintf("strategy %s, maximum %d, cache:%s", strategy, config.Current.CacheMaxSize, state)
		steps := 0
		fs.onOp = func(op string) {
			if steps++; steps > 200 {
				panic("endless eviction")
			}
			last := fs.log[len(fs.log)-1]
			if !strings.HasPrefix(op, "Remove") {
				if (strings.HasPrefix(op, "Largest") || strings.HasPrefix(op, "Lru")) && !strings.Contains(last, "(/cache,.tmp)") {
					v.fail("searches the wrong folder %s: %s", last, desc)
				}
				return
			}
			p := last[strings.Index(last, "(")+1 : len(last)-1]
			if len(fs.temps) > 0 && p == fs.temps[0] {
				return
			}
			x := fs.files[p]
			if x == nil {
				return
			}
			if isTemp(p) {
				v.fail("the temporary file %s is evicted: %s", p, desc)
			}
			for q, f := range fs.files {
				if isTemp(q) {
					continue
				}
				if strategy == config.CacheEvictionStrategyLargest && len(f.data) > len(x.data) || strategy == config.CacheEvictionStrategyLru && f.mod.Before(x.mod) {
					v.fail("%s is evicted instead of %s: %s", p, q, desc)
				}
			}
		}
		v.try(desc, func() { CacheToFile("articles", "f", strings.NewReader("0123456")) })
	}
}
