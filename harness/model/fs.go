package model

import (
	"bytes"
	"errors"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/objstorage"
	"github.com/cockroachdb/pebble/sstable"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond/zzverif/env"
)

type node struct {
	dir  bool
	data []byte
	sst  []kv
	done bool
}

var files = map[string]*node{"/": {dir: true}, "/tmp": {dir: true}}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

type info struct {
	name string
	n    *node
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return int64(len(i.n.data)) }
func (i info) Mode() fs.FileMode  { return 0 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return nil }

//verif:redirect os.Stat
func Stat(p string) (os.FileInfo, error) {
	p = filepath.Clean(p)
	n := files[p]
	if n == nil {
		return nil, perr("stat", p, fs.ErrNotExist)
	}
	return info{filepath.Base(p), n}, nil
}

//verif:redirect os.Lstat
func Lstat(p string) (os.FileInfo, error) { return Stat(p) }

//verif:redirect os.Mkdir
func Mkdir(p string, _ os.FileMode) error {
	p = filepath.Clean(p)
	if files[p] != nil {
		return perr("mkdir", p, fs.ErrExist)
	}
	if d := files[filepath.Dir(p)]; d == nil || !d.dir {
		return perr("mkdir", p, fs.ErrNotExist)
	}
	files[p] = &node{dir: true}
	return nil
}

//verif:redirect os.MkdirAll
func MkdirAll(p string, m os.FileMode) error {
	p = filepath.Clean(p)
	if n := files[p]; n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", p, errors.New("not a directory"))
	}
	if d := filepath.Dir(p); d != p {
		if err := MkdirAll(d, m); err != nil {
			return err
		}
	}
	files[p] = &node{dir: true}
	return nil
}

//verif:redirect os.ReadFile
func ReadFile(p string) ([]byte, error) {
	p = filepath.Clean(p)
	n := files[p]
	if n == nil {
		return nil, perr("open", p, fs.ErrNotExist)
	}
	if n.dir {
		return nil, perr("read", p, errors.New("is a directory"))
	}
	return dup(n.data), nil
}

//verif:redirect os.WriteFile
func WriteFile(p string, b []byte, _ os.FileMode) error {
	p = filepath.Clean(p)
	if d := files[filepath.Dir(p)]; d == nil || !d.dir {
		return perr("open", p, fs.ErrNotExist)
	}
	if n := files[p]; n != nil && n.dir {
		return perr("open", p, errors.New("is a directory"))
	}
	files[p] = &node{data: dup(b)}
	return nil
}

//verif:redirect os.Remove
func Remove(p string) error {
	p = filepath.Clean(p)
	n := files[p]
	if n == nil {
		return perr("remove", p, fs.ErrNotExist)
	}
	if n.dir && len(children(p)) > 0 {
		return perr("remove", p, errors.New("directory not empty"))
	}
	delete(files, p)
	return nil
}

//verif:redirect os.RemoveAll
func RemoveAll(p string) error {
	p = filepath.Clean(p)
	for q := range files {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(files, q)
		}
	}
	return nil
}

func children(p string) []string {
	var out []string
	for q := range files {
		if q != p && filepath.Dir(q) == p {
			out = append(out, filepath.Base(q))
		}
	}
	sort.Strings(out)
	return out
}

//verif:redirect path/filepath.Abs
func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join("/tmp", p), nil
}

//verif:redirect path/filepath.Walk
func Walk(root string, fn filepath.WalkFunc) error {
	n := files[filepath.Clean(root)]
	if n == nil {
		err := fn(root, nil, perr("lstat", root, fs.ErrNotExist))
		if err == filepath.SkipDir || err == filepath.SkipAll {
			return nil
		}
		return err
	}
	err := walk(root, n, fn)
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, n *node, fn filepath.WalkFunc) error {
	if err := fn(p, info{filepath.Base(p), n}, nil); err != nil || !n.dir {
		return err
	}
	for _, c := range children(filepath.Clean(p)) {
		q := filepath.Join(p, c)
		if err := walk(q, files[q], fn); err != nil {
			if m := files[q]; err == filepath.SkipDir && m != nil && m.dir {
				continue
			}
			return err
		}
	}
	return nil
}

// ---- io/fs.WalkDir over os.DirFS ----

type dirEntry struct{ info }

func (d dirEntry) Type() fs.FileMode          { return 0 }
func (d dirEntry) Info() (fs.FileInfo, error) { return d.info, nil }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) { return nil, errors.New("not modelled") }

//verif:redirect os.DirFS
func DirFS(dir string) fs.FS { return dirFS(dir) }

//verif:redirect io/fs.WalkDir
func WalkDir(f fs.FS, root string, fn fs.WalkDirFunc) error {
	base := filepath.Clean(string(f.(dirFS)))
	p := filepath.Join(base, root)
	n := files[p]
	if n == nil {
		return fn(root, nil, perr("stat", root, fs.ErrNotExist))
	}
	err := walkDir(base, root, n, fn)
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walkDir(base, name string, n *node, fn fs.WalkDirFunc) error {
	if err := fn(name, dirEntry{info{filepath.Base(name), n}}, nil); err != nil || !n.dir {
		if err == fs.SkipDir && n.dir {
			return nil
		}
		return err
	}
	if m := files[filepath.Join(base, name)]; m == nil || !m.dir {
		// fn removed the directory: it cannot be read
		err := fn(name, dirEntry{info{filepath.Base(name), n}}, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist})
		if err == fs.SkipDir {
			err = nil
		}
		return err
	}
	for _, c := range children(filepath.Join(base, name)) {
		q := filepath.Join(name, c)
		m := files[filepath.Join(base, q)]
		if m == nil {
			continue
		}
		if err := walkDir(base, q, m, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

var temps int

//verif:redirect os.MkdirTemp
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	temps++
	p := filepath.Join(dir, strings.ReplaceAll(pattern, "*", "t")+"x"+strconv.Itoa(temps))
	return p, MkdirAll(p, 0)
}

// ---- os.File writers ----

type ofile struct{ n *node }

//verif:redirect os.OpenFile
func OpenFile(p string, flag int, _ os.FileMode) (*os.File, error) {
	p = filepath.Clean(p)
	n := files[p]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", p, fs.ErrNotExist)
		}
		if d := files[filepath.Dir(p)]; d == nil {
			return nil, perr("open", p, fs.ErrNotExist)
		}
		n = &node{}
		files[p] = n
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	return (*os.File)(unsafe.Pointer(&ofile{n})), nil
}

//verif:redirect (*os.File).Write
func FileWrite(f *os.File, b []byte) (int, error) {
	o := (*ofile)(unsafe.Pointer(f))
	if o == nil || o.n == nil {
		return len(b), nil // a standard stream
	}
	o.n.data = append(dup(o.n.data), b...)
	return len(b), nil
}

//verif:redirect (*os.File).Close
func FileClose(f *os.File) error { return nil }

//verif:redirect (*os.File).Sync
func FileSync(f *os.File) error { return nil }

// ---- sstables ----

type vfile struct {
	vfs.File
	n *node
}

//verif:redirect (github.com/cockroachdb/pebble/vfs.defaultFS).Create
func VfsCreate(_ struct{}, p string) (vfs.File, error) {
	p = filepath.Clean(p)
	if d := files[filepath.Dir(p)]; d == nil || !d.dir {
		return nil, perr("open", p, fs.ErrNotExist)
	}
	n := &node{}
	files[p] = n
	return &vfile{n: n}, nil
}

type writable struct {
	objstorage.Writable
	n *node
}

//verif:redirect github.com/cockroachdb/pebble/objstorage/objstorageprovider.NewFileWritable
func NewFileWritable(f vfs.File) objstorage.Writable { return &writable{n: f.(*vfile).n} }

type sstWriter struct {
	n   *node
	kvs []kv
	sz  uint64
	err error
}

//verif:redirect github.com/cockroachdb/pebble/sstable.NewWriter
func NewWriter(w objstorage.Writable, _ sstable.WriterOptions, _ ...sstable.WriterOption) *sstable.Writer {
	return (*sstable.Writer)(unsafe.Pointer(&sstWriter{n: w.(*writable).n}))
}

//verif:redirect (*github.com/cockroachdb/pebble/sstable.Writer).Set
func WriterSet(p *sstable.Writer, k, v []byte) error {
	w := (*sstWriter)(unsafe.Pointer(p))
	if n := len(w.kvs); n > 0 && bytes.Compare(w.kvs[n-1].k, k) >= 0 {
		return errors.New("pebble: keys must be added in strictly increasing order")
	}
	w.kvs = append(w.kvs, kv{dup(k), dup(v)})
	w.sz += uint64(len(k) + len(v))
	return nil
}

//verif:redirect (*github.com/cockroachdb/pebble/sstable.Writer).EstimatedSize
func WriterSize(p *sstable.Writer) uint64 { return (*sstWriter)(unsafe.Pointer(p)).sz }

//verif:redirect (*github.com/cockroachdb/pebble/sstable.Writer).Close
func WriterClose(p *sstable.Writer) error {
	w := (*sstWriter)(unsafe.Pointer(p))
	w.n.sst, w.n.done = w.kvs, true
	w.n.data = []byte{1}
	return nil
}

//verif:redirect (*github.com/cockroachdb/pebble.DB).Ingest
func Ingest(d *pebble.DB, paths []string) error {
	s := db(d)
	if err := env.Fault("ingest"); err != nil {
		return err
	}
	var all []kv
	for _, p := range paths {
		n := files[filepath.Clean(p)]
		if n == nil {
			return perr("open", p, fs.ErrNotExist)
		}
		if !n.done {
			return errors.New("pebble: invalid table")
		}
		if len(n.sst) == 0 {
			continue
		}
		i, eq := find(all, n.sst[0].k)
		j, eq2 := find(all, n.sst[len(n.sst)-1].k)
		if eq || eq2 || i != j {
			return errors.New("pebble: external sstables have overlapping ranges")
		}
		m := append([]kv{}, all[:i]...)
		m = append(m, n.sst...)
		all = append(m, all[i:]...)
	}
	cur := s.cur
	for _, x := range all {
		cur = put(cur, x.k, x.v)
	}
	s.cur = cur
	if !s.frozen {
		s.durable = cur
	}
	return nil
}
