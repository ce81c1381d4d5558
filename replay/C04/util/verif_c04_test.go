package util

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
)

func TestVerifC04Size(t *testing.T) {
	v := verifStart(t)
	for v.more(300) {
		root := v.scratch()
		var sum int64
		desc := ""
		dirs := []string{root}
		for i := v.rnd.Intn(10); i > 0; i-- {
			d := dirs[v.rnd.Intn(len(dirs))]
			p := filepath.Join(d, fmt.Sprintf("f%d", i))
			if v.rnd.Intn(3) == 0 {
				os.Mkdir(p, 0777)
				dirs = append(dirs, p)
				continue
			}
			n := v.rnd.Intn(50)
			os.WriteFile(p, make([]byte, n), 0666)
			sum += int64(n)
			desc += fmt.Sprintf(" %s: %d;", p[len(root):], n)
		}
		v.try("the size of files"+desc, func() {
			err, s := (&OsFilesystem{}).DirSizeInBytes(root)
			if err != nil || s != sum {
				v.fail("the measured size is %d (error %v) instead of %d: files%s", s, err, sum, desc)
			}
		})
		os.RemoveAll(root)
	}
}
