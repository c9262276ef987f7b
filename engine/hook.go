package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

const pebblePath = "github.com/cockroachdb/pebble"

// pebbleHooks returns native-only replacements of backend source files: the
// operations the models also count call a fault hook first, and key/value
// buffers are overwritten as soon as the backend's contract lets them change.
func modDir(repo, mod string) (string, error) {
	cmd := exec.Command("/usr/lib/go-1.21/bin/go", "list", "-mod=readonly", "-m", "-f", "{{.Dir}}", mod)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=", "GOPROXY=off", "GOWORK=off")
	b, err := cmd.Output()
	if err != nil {
		return "", fmt.Errorf("locate %s: %v", mod, err)
	}
	return strings.TrimSpace(string(b)), nil
}

// bloomHooks makes the hash functions behind the bloom filter replaceable and
// splits the update of a filter word into its read and its write.
func bloomHooks(repo string) (map[string][]byte, error) {
	out := map[string][]byte{}
	for _, x := range []struct{ mod, file, old, new, add string }{
		{"github.com/bits-and-blooms/bloom/v3", "bloom.go", "func baseHashes(", "func zzbaseHashes(", `
// ZZHash replaces the hash function.
var ZZHash func(data []byte) [4]uint64

func baseHashes(data []byte) [4]uint64 {
	if ZZHash != nil {
		return ZZHash(data)
	}
	return zzbaseHashes(data)
}
`},
		{"github.com/bits-and-blooms/bitset", "bitset.go", "	b.set[i>>log2WordSize] |= 1 << wordsIndex(i)\n", "	x := b.set[i>>log2WordSize]\n	if ZZPoint != nil {\n		ZZPoint()\n	}\n	b.set[i>>log2WordSize] = x | 1<<wordsIndex(i)\n", `
// ZZPoint is called between the read and the write of a word.
var ZZPoint func()
`},
		{"github.com/lithammer/go-jump-consistent-hash", "jump.go", "func Hash(", "func zzHash(", `
// ZZJump and ZZCRC replace the hash functions.
var (
	ZZJump func(key uint64, buckets int32) int32
	ZZCRC  func() hash.Hash32
)

func zzcrc() hash.Hash32 {
	if ZZCRC != nil {
		return ZZCRC()
	}
	return crc32.NewIEEE()
}

func Hash(key uint64, buckets int32) int32 {
	if ZZJump != nil {
		return ZZJump(key, buckets)
	}
	return zzHash(key, buckets)
}
`},
	} {
		dir, err := modDir(repo, x.mod)
		if err != nil {
			return nil, err
		}
		f := filepath.Join(dir, x.file)
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if strings.Count(string(b), x.old) != 1 {
			return nil, fmt.Errorf("%s: %q not found", f, x.old)
		}
		t := strings.Replace(string(b), x.old, x.new, 1)
		t = strings.Replace(t, "&crc32Hasher{crc32.NewIEEE()} }", "&crc32Hasher{zzcrc()} }", 1)
		out[f] = []byte(t + x.add)
	}
	return out, nil
}

// groupHooks runs the goroutines of error groups as threads of the harness.
func groupHooks(repo string) (map[string][]byte, error) {
	dir, err := modDir(repo, "golang.org/x/sync")
	if err != nil {
		return nil, err
	}
	f := filepath.Join(dir, "errgroup", "errgroup.go")
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	s := string(b)
	for _, x := range []struct {
		old, new string
		n        int
	}{
		{"\tgo func() {\n", "\tg.zzn++\n\tzzgo(func() {\n", 2},
		{"\n\t}()\n", "\n\t})\n", 2},
		{"\tg.wg.Done()\n", "\tg.zzn--\n\tg.wg.Done()\n", 1},
		{"\tg.wg.Wait()\n", "\tzzblock(func() bool { return g.zzn == 0 })\n\tg.wg.Wait()\n", 1},
		{"\t\tg.sem <- token{}\n", "\t\tzzblock(func() bool { return len(g.sem) < cap(g.sem) })\n\t\tg.sem <- token{}\n", 1},
		{"type Group struct {\n", "type Group struct {\n\tzzn int\n", 1},
	} {
		if strings.Count(s, x.old) != x.n {
			return nil, fmt.Errorf("%s: %q not found", f, x.old)
		}
		s = strings.ReplaceAll(s, x.old, x.new)
	}
	return map[string][]byte{f: []byte(s + `
// ZZGo and ZZBlock replace the start of goroutines and waiting for them.
var (
	ZZGo    func(func())
	ZZBlock func(func() bool)
)

func zzgo(f func()) {
	if ZZGo != nil {
		ZZGo(f)
		return
	}
	go f()
}

func zzblock(ready func() bool) {
	if ZZBlock != nil {
		ZZBlock(ready)
	}
}
`)}, nil
}

func pebbleHooks(repo string) (map[string][]byte, error) {
	dir, err := modDir(repo, pebblePath)
	if err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	read := func(f string) string {
		p := filepath.Join(dir, f)
		if b, ok := out[p]; ok {
			return string(b)
		}
		b, _ := os.ReadFile(p)
		return string(b)
	}
	rename := func(f, recv, name string) error {
		s := read(f)
		re := regexp.MustCompile(`(?m)^func (\(\w+ \*` + recv + `\)) ` + name + `\(`)
		if len(re.FindAllString(s, -1)) != 1 {
			return fmt.Errorf("pebble %s.%s not found", recv, name)
		}
		out[filepath.Join(dir, f)] = []byte(re.ReplaceAllString(s, "func $1 zz"+name+"("))
		return nil
	}
	for _, x := range [][]string{
		{"db.go", "DB", "Get", "Set", "Delete", "DeleteRange", "NewIter"},
		{"ingest.go", "DB", "Ingest"},
		{"batch.go", "Batch", "Get", "NewIter", "Commit", "Apply"},
		{"snapshot.go", "Snapshot", "Get", "NewIter"},
		{"iterator.go", "Iterator", "First", "Last", "Next", "Prev", "SeekGE", "SeekLT", "SeekPrefixGE", "Key", "Value", "Close"},
	} {
		for _, n := range x[2:] {
			if err := rename(x[0], x[1], n); err != nil {
				return nil, err
			}
		}
	}
	p := filepath.Join(dir, "iterator.go")
	s := strings.Replace(string(out[p]), "type Iterator struct {", "type Iterator struct {\n\tzzK, zzV []byte\n", 1)
	out[p] = []byte(s)
	p = filepath.Join(dir, "snapshot.go")
	out[p] = append(out[p], []byte(hookSrc)...)
	return out, nil
}

const hookSrc = `

// ZZHook is called at the start of the operations below.
var ZZHook func(op string) error

// ZZLend is called with the keys and values handed out.
var ZZLend func(b []byte)

func zzLend(b []byte) {
	if ZZLend != nil {
		ZZLend(b)
	}
}

func zzFault(op string) error {
	if ZZHook != nil {
		return ZZHook(op)
	}
	return nil
}

type zzCloser struct {
	c io.Closer
	v []byte
}

func (z *zzCloser) Close() error {
	for i := range z.v {
		z.v[i] = 0xDB
	}
	return z.c.Close()
}

func zzGot(v []byte, c io.Closer, err error) ([]byte, io.Closer, error) {
	if err != nil || ZZHook == nil {
		return v, c, err
	}
	d := append(make([]byte, 0, len(v)), v...)
	zzLend(d)
	return d, &zzCloser{c, d}, nil
}

func (d *DB) Get(key []byte) ([]byte, io.Closer, error) {
	if err := zzFault("get"); err != nil {
		return nil, nil, err
	}
	return zzGot(d.zzGet(key))
}

func (b *Batch) Get(key []byte) ([]byte, io.Closer, error) {
	if b.index == nil {
		return nil, nil, ErrNotIndexed
	}
	if err := zzFault("get"); err != nil {
		return nil, nil, err
	}
	return zzGot(b.zzGet(key))
}

func (s *Snapshot) Get(key []byte) ([]byte, io.Closer, error) {
	if err := zzFault("get"); err != nil {
		return nil, nil, err
	}
	return zzGot(s.zzGet(key))
}

func (d *DB) Set(key, value []byte, opts *WriteOptions) error {
	if err := zzFault("set"); err != nil {
		return err
	}
	return d.zzSet(key, value, opts)
}

func (d *DB) Delete(key []byte, opts *WriteOptions) error {
	if err := zzFault("delete"); err != nil {
		return err
	}
	return d.zzDelete(key, opts)
}

func (d *DB) DeleteRange(start, end []byte, opts *WriteOptions) error {
	if err := zzFault("deleterange"); err != nil {
		return err
	}
	return d.zzDeleteRange(start, end, opts)
}

func (d *DB) NewIter(o *IterOptions) (*Iterator, error) {
	if err := zzFault("newiter"); err != nil {
		return nil, err
	}
	return d.zzNewIter(o)
}

func (d *DB) Ingest(paths []string) error {
	if err := zzFault("ingest"); err != nil {
		return err
	}
	return d.zzIngest(paths)
}

func (b *Batch) NewIter(o *IterOptions) (*Iterator, error) {
	if b.index == nil {
		return nil, ErrNotIndexed
	}
	if err := zzFault("newiter"); err != nil {
		return nil, err
	}
	return b.zzNewIter(o)
}

func (b *Batch) Commit(o *WriteOptions) error {
	if err := zzFault("commit"); err != nil {
		return err
	}
	return b.zzCommit(o)
}

func (b *Batch) Apply(batch *Batch, o *WriteOptions) error {
	if err := zzFault("apply"); err != nil {
		return err
	}
	return b.zzApply(batch, o)
}

func (s *Snapshot) NewIter(o *IterOptions) (*Iterator, error) {
	if err := zzFault("newiter"); err != nil {
		return nil, err
	}
	return s.zzNewIter(o)
}

func (i *Iterator) zzPoison() {
	for j := range i.zzK {
		i.zzK[j] = 0xDB
	}
	for j := range i.zzV {
		i.zzV[j] = 0xDB
	}
	i.zzK, i.zzV = nil, nil
}

func (i *Iterator) zzPos() bool {
	i.zzPoison()
	if _, ok := i.pointIter.(*getIter); ok {
		return true // part of a Get
	}
	if err := zzFault("iter"); err != nil {
		i.err = err
		i.iterValidityState = IterExhausted
		return false
	}
	return true
}

func (i *Iterator) First() bool { return i.zzPos() && i.zzFirst() }

func (i *Iterator) Last() bool { return i.zzPos() && i.zzLast() }

func (i *Iterator) Next() bool { return i.err == nil && i.zzPos() && i.zzNext() }

func (i *Iterator) Prev() bool { return i.err == nil && i.zzPos() && i.zzPrev() }

func (i *Iterator) SeekGE(key []byte) bool { return i.zzPos() && i.zzSeekGE(key) }

func (i *Iterator) SeekLT(key []byte) bool { return i.zzPos() && i.zzSeekLT(key) }

func (i *Iterator) SeekPrefixGE(key []byte) bool { return i.zzPos() && i.zzSeekPrefixGE(key) }

func (i *Iterator) Key() []byte {
	if ZZHook == nil || !i.Valid() {
		return i.zzKey()
	}
	if i.zzK == nil {
		i.zzK = append(make([]byte, 0, len(i.zzKey())+1), i.zzKey()...)
		zzLend(i.zzK)
	}
	return i.zzK
}

func (i *Iterator) Value() []byte {
	if ZZHook == nil || !i.Valid() {
		return i.zzValue()
	}
	if i.zzV == nil {
		i.zzV = append(make([]byte, 0, len(i.zzValue())+1), i.zzValue()...)
		zzLend(i.zzV)
	}
	return i.zzV
}

func (i *Iterator) Close() error {
	i.zzPoison()
	return i.zzClose()
}
`

// commands makes the command line program a package that harnesses can import;
// the databases it opens are handed to the harness.
func commands(repo string, ov map[string][]byte) (map[string][]byte, error) {
	files, _ := filepath.Glob(filepath.Join(repo, "cmd", "bond-cli", "*.go"))
	out := map[string][]byte{}
	for _, name := range files {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		src, err := os.ReadFile(name)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			return nil, err
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		bond := ""
		for _, im := range f.Imports {
			if im.Path.Value == `"`+modPath+`"` {
				if bond = "bond"; im.Name != nil {
					bond = im.Name.Name
				}
			}
		}
		eds := []edit{{off(f.Name.Pos()), off(f.Name.End()), "bondcli"}}
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok && s.Sel.Name == "Open" {
				if id, ok := s.X.(*ast.Ident); ok && bond != "" && id.Name == bond && id.Obj == nil {
					eds = append(eds, edit{off(s.Pos()), off(s.End()), "zzOpen"})
				}
			}
			return true
		})
		if bond != "" && len(eds) > 1 {
			eds = append(eds, edit{len(src), len(src), "\nvar _ = " + bond + ".Open\n"})
		}
		sort.SliceStable(eds, func(i, j int) bool { return eds[i].lo > eds[j].lo })
		for _, e := range eds {
			src = append(append(append([]byte{}, src[:e.lo]...), e.txt...), src[e.hi:]...)
		}
		out[filepath.Join(repo, "zzverif", "bondcli", filepath.Base(name))] = src
	}
	return out, nil
}
