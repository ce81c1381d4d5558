package cache

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"time"
	"wiki2book/config"
	"wiki2book/util"
)

func TestVerifC04(t *testing.T) {
	v := verifStart(t)
	old := util.CurrentFilesystem
	defer func() { util.CurrentFilesystem = old }()
	config.Current.CacheDir = "/cache"
	for v.more(60000) {
		c04(v)
	}
}

func c04(v *verifT) {
	fs := newVfs()
	util.CurrentFilesystem = fs
	config.Current.CacheEvictionStrategy = v.pick(config.CacheEvictionStrategyNone, config.CacheEvictionStrategyLargest, config.CacheEvictionStrategyLru, config.CacheEvictionStrategyLargest, config.CacheEvictionStrategyLru)
	names := []string{"/cache/articles/f", "/cache/images/f", "/cache/html/a", "/cache/images/b", "/cache/images/c", "/cache/articles/g"}
	state := ""
	for _, n := range names {
		if v.rnd.Intn(2) == 0 {
			f := &vfile{data: make([]byte, v.rnd.Intn(12)), mod: time.Unix(int64(v.rnd.Intn(10)), 0)}
			fs.files[n] = f
			state += fmt.Sprintf(" %s: %d bytes of time %d;", n, len(f.data), f.mod.Unix())
		}
	}
	size := v.rnd.Intn(14)
	config.Current.CacheMaxSize = int64(1 + v.rnd.Intn(40))
	if v.rnd.Intn(4) == 0 {
		config.Current.CacheMaxSize = int64(size + 1)
	}
	max := config.Current.CacheMaxSize
	final := "/cache/articles/f"
	ev := config.Current.CacheEvictionStrategy
	for _, op := range []string{"Remove#1", "DirSize#1", "Largest#1", "Lru#1", "Largest#2", "Lru#2", "Remove#2"} {
		if v.rnd.Intn(12) == 0 {
			fs.fail[op] = true
		}
	}
	desc := fmt.Sprintf("strategy %s, maximum %d, new file of %d bytes, cache:%s", ev, max, size, state)
	measured := int64(math.MinInt64)
	var evicted int64
	var err error
	growth := func() int64 {
		if x := fs.files[final]; x != nil {
			return int64(size) - int64(len(x.data))
		}
		return int64(size)
	}
	fs.onOp = func(op string) {
		last := fs.log[len(fs.log)-1]
		switch {
		case strings.HasPrefix(op, "DirSize"):
			if !strings.Contains(last, "(/cache)") {
				v.fail("the size of another folder is measured (%s): %s", last, desc)
			}
			measured = fs.sum()
			evicted = 0
		case strings.HasPrefix(op, "Remove"):
			p := last[strings.Index(last, "(")+1 : len(last)-1]
			if isTemp(p) {
				return
			}
			if ev == config.CacheEvictionStrategyNone {
				v.fail("%s is evicted: %s", p, desc)
			}
			if measured != math.MinInt64 && measured-evicted+growth() < max {
				v.fail("%s is evicted although there is enough space: %s, operations %v", p, desc, fs.log)
			}
			if x := fs.files[p]; x != nil && !fs.fail[op] {
				evicted += int64(len(x.data))
			}
		case strings.HasPrefix(op, "Rename"):
			if ev == config.CacheEvictionStrategyNone {
				return
			}
			if measured == math.MinInt64 {
				v.fail("stored without measuring the cache: %s", desc)
			} else if measured-evicted+growth() >= max {
				v.fail("stored although the cache gets %d bytes large: %s, operations %v", measured-evicted+growth(), desc, fs.log)
			}
		}
	}
	steps := 0
	inner := fs.onOp
	fs.onOp = func(op string) {
		steps++
		if steps > 200 {
			panic("endless eviction")
		}
		inner(op)
	}
	v.try(desc, func() {
		_, err = CacheToFile("articles", "f", strings.NewReader(strings.Repeat("x", size)))
		if err == nil && len(fs.renames) == 0 {
			v.fail("no error but nothing is stored: %s", desc)
		}
		if err != nil && len(fs.renames) > 0 {
			v.fail("stored and an error: %s", desc)
		}
		if ev == config.CacheEvictionStrategyNone && len(fs.evict) > 0 {
			v.fail("eviction without a strategy: %s", desc)
		}
	})
}
