package util

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestVerifC05(t *testing.T) {
	v := verifStart(t)
	for v.more(1500) {
		root := v.scratch()
		type file struct {
			path string
			size int64
			mod  int64
		}
		var files []file
		desc := ""
		dirs := []string{root}
		names := map[string]bool{}
		for i := v.rnd.Intn(9); i > 0; i-- {
			d := dirs[v.rnd.Intn(len(dirs))]
			name := v.pick(".tmp", "a", "b", "c", "zz", ".tmp2", "tmp", ".a", "articles", "0")
			p := filepath.Join(d, name)
			if names[p] {
				continue
			}
			names[p] = true
			if v.rnd.Intn(3) == 0 || name == ".tmp" {
				os.Mkdir(p, 0777)
				dirs = append(dirs, p)
				desc += fmt.Sprintf(" %s/;", p[len(root):])
				continue
			}
			n := int64(v.rnd.Intn(6))
			m := int64(1000000 + v.rnd.Intn(5)*1000)
			os.WriteFile(p, make([]byte, n), 0666)
			os.Chtimes(p, time.Unix(m, 0), time.Unix(m, int64(v.rnd.Intn(2))*1000))
			st, _ := os.Stat(p)
			desc += fmt.Sprintf(" %s: %d bytes, time %d;", p[len(root):], n, st.ModTime().UnixNano())
			files = append(files, file{p, n, st.ModTime().UnixNano()})
		}
		for _, d := range dirs {
			os.Chtimes(d, time.Unix(500000, 0), time.Unix(int64(500000+v.rnd.Intn(2)*1000000), 0))
		}
		var allowed []file
		for _, f := range files {
			temp := false
			for d := filepath.Dir(f.path); len(d) >= len(root); d = filepath.Dir(d) {
				temp = temp || filepath.Base(d) == ".tmp"
			}
			if !temp {
				allowed = append(allowed, f)
			}
		}
		v.try("the victim among"+desc, func() {
			for _, lru := range []bool{false, true} {
				var err error
				var size int64
				var path string
				kind := "largest"
				if lru {
					kind = "lru"
					err, size, path = (&OsFilesystem{}).FindLruFile(root, ".tmp")
				} else {
					err, size, path = (&OsFilesystem{}).FindLargestFile(root, ".tmp")
				}
				if err != nil {
					v.fail("%s: error %v on%s", kind, err, desc)
					continue
				}
				if len(allowed) == 0 {
					if path != "" {
						v.fail("%s: %s is chosen among%s", kind, path[len(root):], desc)
					}
					continue
				}
				var x *file
				for i := range allowed {
					if allowed[i].path == path {
						x = &allowed[i]
					}
				}
				if x == nil {
					v.fail("%s: %q is chosen among%s", kind, path, desc)
					continue
				}
				if size != x.size {
					v.fail("%s: size %d of %s is reported:%s", kind, size, path[len(root):], desc)
				}
				for _, f := range allowed {
					if !lru && f.size > x.size || lru && f.mod < x.mod {
						v.fail("%s: %s is chosen instead of %s:%s", kind, path[len(root):], f.path[len(root):], desc)
						break
					}
				}
			}
		})
		os.RemoveAll(root)
	}
}
