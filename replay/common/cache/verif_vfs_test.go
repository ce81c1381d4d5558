package cache

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"wiki2book/util"
)

// vfs is a file system in memory which records all operations and fails where a test wants it to.
type vfs struct {
	files  map[string]*vfile
	log    []string
	fail   map[string]bool // operations (with running number, e.g. "Close#1") that fail
	count  map[string]int
	failed []string
	onOp   func(op string)
	temps  []string
	now    int64
	// net effects
	renames []string
	evict   []string // removed files outside of the temp dir
}

type vfile struct {
	data []byte
	mod  time.Time
	open bool
}

var errVfs = errors.New("injected fault")

func newVfs() *vfs {
	return &vfs{files: map[string]*vfile{}, fail: map[string]bool{}, count: map[string]int{}}
}

func (f *vfs) op(name string, detail string) error {
	f.count[name]++
	key := fmt.Sprintf("%s#%d", name, f.count[name])
	f.log = append(f.log, key+"("+detail+")")
	if f.onOp != nil {
		f.onOp(key)
	}
	if f.fail[key] {
		f.failed = append(f.failed, key)
		return errVfs
	}
	return nil
}

type vinfo struct {
	name string
	f    *vfile
}

func (i vinfo) Name() string       { return i.name }
func (i vinfo) Size() int64        { return int64(len(i.f.data)) }
func (i vinfo) Mode() os.FileMode  { return 0666 }
func (i vinfo) ModTime() time.Time { return i.f.mod }
func (i vinfo) IsDir() bool        { return false }
func (i vinfo) Sys() interface{}   { return nil }

type vhandle struct {
	fs     *vfs
	path   string
	f      *vfile
	closed bool
}

func (h *vhandle) Name() string { return h.path }
func (h *vhandle) Write(p []byte) (int, error) {
	if h.closed {
		return 0, os.ErrClosed
	}
	if err := h.fs.op("Write", h.path); err != nil {
		n := len(p) / 2
		h.f.data = append(h.f.data, p[:n]...)
		return n, err
	}
	h.f.data = append(h.f.data, p...)
	return len(p), nil
}
func (h *vhandle) Stat() (os.FileInfo, error) {
	if err := h.fs.op("FStat", h.path); err != nil {
		return nil, err
	}
	if h.closed {
		return nil, os.ErrClosed
	}
	return vinfo{filepath.Base(h.path), h.f}, nil
}
func (h *vhandle) Close() error {
	if err := h.fs.op("Close", h.path); err != nil {
		return err
	}
	if h.closed {
		return os.ErrClosed
	}
	h.closed = true
	h.f.open = false
	return nil
}

func (f *vfs) GetSizeInBytes(path string) (int64, error) {
	if err := f.op("Size", path); err != nil {
		return -1 << 63, err
	}
	if x, ok := f.files[path]; ok {
		return int64(len(x.data)), nil
	}
	return -1 << 63, os.ErrNotExist
}
func (f *vfs) Rename(a string, b string) error {
	if err := f.op("Rename", a+"->"+b); err != nil {
		return err
	}
	x, ok := f.files[a]
	if !ok {
		return os.ErrNotExist
	}
	delete(f.files, a)
	f.files[b] = x
	f.renames = append(f.renames, b)
	return nil
}
func (f *vfs) Remove(path string) error {
	if err := f.op("Remove", path); err != nil {
		return err
	}
	if _, ok := f.files[path]; !ok {
		return os.ErrNotExist
	}
	if !isTemp(path) {
		f.evict = append(f.evict, path)
	}
	delete(f.files, path)
	return nil
}
func (f *vfs) Create(path string) (util.FileLike, error) {
	if err := f.op("Create", path); err != nil {
		return nil, err
	}
	x := &vfile{mod: time.Now(), open: true}
	f.files[path] = x
	return &vhandle{f, path, x, false}, nil
}
func (f *vfs) MkdirAll(path string) error { return f.op("Mkdir", path) }
func (f *vfs) CreateTemp(dir, pattern string) (util.FileLike, error) {
	if err := f.op("Temp", dir+","+pattern); err != nil {
		return nil, err
	}
	p := dir + string(filepath.Separator) + fmt.Sprintf("%s%d", pattern, len(f.temps)+1000)
	f.temps = append(f.temps, p)
	x := &vfile{mod: time.Now(), open: true}
	f.files[p] = x
	return &vhandle{f, p, x, false}, nil
}
func isTemp(p string) bool {
	return strings.Contains(p, string(filepath.Separator)+TempDirName+string(filepath.Separator))
}
func (f *vfs) sum() int64 {
	var s int64
	for _, x := range f.files {
		s += int64(len(x.data))
	}
	return s
}
func (f *vfs) paths() []string {
	var l []string
	for p := range f.files {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}
func (f *vfs) DirSizeInBytes(path string) (error, int64) {
	if err := f.op("DirSize", path); err != nil {
		return err, -1 << 63
	}
	return nil, f.sum()
}
func (f *vfs) FindLargestFile(path string, except string) (error, int64, string) {
	if err := f.op("Largest", path+","+except); err != nil {
		return err, -1 << 63, ""
	}
	best := ""
	for _, p := range f.paths() {
		if !isTemp(p) && (best == "" || len(f.files[p].data) > len(f.files[best].data)) {
			best = p
		}
	}
	if best == "" {
		return nil, 0, ""
	}
	return nil, int64(len(f.files[best].data)), best
}
func (f *vfs) FindLruFile(path string, except string) (error, int64, string) {
	if err := f.op("Lru", path+","+except); err != nil {
		return err, -1 << 63, ""
	}
	best := ""
	for _, p := range f.paths() {
		if !isTemp(p) && (best == "" || f.files[p].mod.Before(f.files[best].mod)) {
			best = p
		}
	}
	if best == "" {
		return nil, 0, ""
	}
	return nil, int64(len(f.files[best].data)), best
}
func (f *vfs) ReadFile(path string) ([]byte, error) {
	if err := f.op("Read", path); err != nil {
		return nil, err
	}
	if x, ok := f.files[path]; ok {
		return x.data, nil
	}
	return nil, os.ErrNotExist
}
func (f *vfs) Stat(path string) (os.FileInfo, error) {
	if err := f.op("Stat", path); err != nil {
		return nil, err
	}
	if x, ok := f.files[path]; ok {
		return vinfo{filepath.Base(path), x}, nil
	}
	return nil, os.ErrNotExist
}
func (f *vfs) Chtimes(path string, a time.Time, m time.Time) error {
	if err := f.op("Chtimes", path+fmt.Sprintf(",%d", m.Sub(a))); err != nil {
		return err
	}
	if x, ok := f.files[path]; ok {
		x.mod = m
		return nil
	}
	return os.ErrNotExist
}

type faultyReader struct {
	parts []string
	fail  bool
}

func (r *faultyReader) Read(p []byte) (int, error) {
	if len(r.parts) == 0 {
		if r.fail {
			return 0, errVfs
		}
		return 0, io.EOF
	}
	n := copy(p, r.parts[0])
	r.parts[0] = r.parts[0][n:]
	if r.parts[0] == "" {
		r.parts = r.parts[1:]
	}
	return n, nil
}
