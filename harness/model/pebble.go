package model

import (
	"bytes"
	"context"
	"errors"
	"io"
	"unsafe"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond/zzverif/env"
	"github.com/go-bond/bond/zzverif/nd"
)

type kv struct{ k, v []byte }

// store is an ordered key-value store; slices are replaced, never mutated, so
// iterators and snapshots keep their view.
type store struct {
	cur     []kv
	durable []kv
	frozen  bool
	dir     string
	split   pebble.Split
	iters   int
	gets    int // values returned by Get and not closed
	snaps   int
	open    bool
	format  pebble.FormatMajorVersion
	batches int
}

var stores = map[string]*store{}

// Crash drops everything that is not durable and lets the store be opened anew.
func Crash() {
	for _, s := range stores {
		s.cur = s.durable
		s.open = false
		s.iters, s.snaps, s.gets = 0, 0, 0
	}
}

var errLeak = errors.New("leaked iterators or snapshots")
var errLocked = errors.New("lock held by current process")

func db(d *pebble.DB) *store {
	s := (*store)(unsafe.Pointer(d))
	if !s.open {
		panic(pebble.ErrClosed)
	}
	return s
}

//verif:redirect github.com/cockroachdb/pebble.Open
func Open(dirname string, opts *pebble.Options) (*pebble.DB, error) {
	s := stores[dirname]
	if s == nil {
		s = &store{dir: dirname}
		stores[dirname] = s
	}
	if s.open {
		return nil, errLocked
	}
	s.split = opts.Comparer.Split
	s.open = true
	if opts.FormatMajorVersion > s.format {
		s.format = opts.FormatMajorVersion
	}
	return (*pebble.DB)(unsafe.Pointer(s)), nil
}

// find returns the first position whose key is >= k and whether it equals k.
func find(s []kv, k []byte) (int, bool) {
	lo, hi := 0, len(s)
	for lo < hi {
		m := (lo + hi) / 2
		c := bytes.Compare(s[m].k, k)
		if c == 0 {
			return m, true
		}
		if c < 0 {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo, false
}

func dup(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c
}

func put(s []kv, k, v []byte) []kv {
	i, eq := find(s, k)
	if eq {
		n := make([]kv, len(s))
		copy(n, s)
		n[i] = kv{n[i].k, v}
		return n
	}
	n := make([]kv, 0, len(s)+1)
	n = append(n, s[:i]...)
	n = append(n, kv{k, v})
	n = append(n, s[i:]...)
	return n
}

func del(s []kv, k []byte) []kv {
	i, eq := find(s, k)
	if !eq {
		return s
	}
	n := make([]kv, 0, len(s))
	n = append(n, s[:i]...)
	n = append(n, s[i+1:]...)
	return n
}

func delRange(s []kv, a, b []byte) []kv {
	if bytes.Compare(a, b) >= 0 {
		return s
	}
	i, _ := find(s, a)
	j, _ := find(s, b)
	n := make([]kv, 0, len(s))
	n = append(n, s[:i]...)
	n = append(n, s[j:]...)
	return n
}

func (s *store) wrote(o *pebble.WriteOptions) {
	if (o == nil || o.Sync) && !s.frozen {
		s.durable = s.cur
	}
}

type closer struct {
	s *store
	v []byte
}

func (c *closer) Close() error {
	if c.s == nil {
		panic("pebble: value closed twice")
	}
	c.s.gets--
	c.s = nil
	for i := range c.v {
		c.v[i] = 0xDB
	}
	return nil
}

// get reads k; view is evaluated once the operation starts.
func get(st *store, view func() []kv, k []byte) ([]byte, io.Closer, error) {
	if err := env.Fault("get"); err != nil {
		return nil, nil, err
	}
	s := view()
	i, eq := find(s, k)
	if !eq {
		return nil, nil, pebble.ErrNotFound
	}
	c := &closer{st, dup(s[i].v)}
	env.Lend(c.v)
	st.gets++
	return c.v, c, nil
}

//verif:redirect (*github.com/cockroachdb/pebble.DB).Get
func DBGet(d *pebble.DB, k []byte) ([]byte, io.Closer, error) { s := db(d); return get(s, s.now, k) }

func (s *store) now() []kv { return s.cur }

//verif:redirect (*github.com/cockroachdb/pebble.DB).Set
func DBSet(d *pebble.DB, k, v []byte, o *pebble.WriteOptions) error {
	s := db(d)
	if err := env.Fault("set"); err != nil {
		return err
	}
	s.cur = put(s.cur, dup(k), dup(v))
	s.wrote(o)
	return nil
}

//verif:redirect (*github.com/cockroachdb/pebble.DB).Delete
func DBDelete(d *pebble.DB, k []byte, o *pebble.WriteOptions) error {
	s := db(d)
	if err := env.Fault("delete"); err != nil {
		return err
	}
	s.cur = del(s.cur, k)
	s.wrote(o)
	return nil
}

//verif:redirect (*github.com/cockroachdb/pebble.DB).SingleDelete
func DBSingleDelete(d *pebble.DB, k []byte, o *pebble.WriteOptions) error { return DBDelete(d, k, o) }

//verif:redirect (*github.com/cockroachdb/pebble.DB).DeleteSized
func DBDeleteSized(d *pebble.DB, k []byte, _ uint32, o *pebble.WriteOptions) error {
	return DBDelete(d, k, o)
}

//verif:redirect (*github.com/cockroachdb/pebble.DB).DeleteRange
func DBDeleteRange(d *pebble.DB, a, b []byte, o *pebble.WriteOptions) error {
	s := db(d)
	if err := env.Fault("deleterange"); err != nil {
		return err
	}
	s.cur = delRange(s.cur, a, b)
	s.wrote(o)
	return nil
}

//verif:redirect (*github.com/cockroachdb/pebble.DB).Compact
func DBCompact(d *pebble.DB, a, b []byte, p bool) error { db(d); return nil }

//verif:redirect (*github.com/cockroachdb/pebble.DB).Flush
func DBFlush(d *pebble.DB) error { db(d); return nil }

//verif:redirect (*github.com/cockroachdb/pebble.DB).FormatMajorVersion
func DBFormat(d *pebble.DB) pebble.FormatMajorVersion { return db(d).format }

//verif:redirect (*github.com/cockroachdb/pebble.DB).Close
func DBClose(d *pebble.DB) error {
	s := db(d)
	s.open = false
	if !s.frozen {
		s.durable = s.cur
	}
	if s.iters != 0 || s.snaps != 0 || s.gets != 0 {
		return errLeak
	}
	return nil
}

// ---- snapshots ----

type snap struct {
	s    *store
	view []kv
}

func (s *snap) now() []kv { return s.view }

//verif:redirect (*github.com/cockroachdb/pebble.DB).NewSnapshot
func NewSnapshot(d *pebble.DB) *pebble.Snapshot {
	s := db(d)
	s.snaps++
	return (*pebble.Snapshot)(unsafe.Pointer(&snap{s, s.cur}))
}

//verif:redirect (*github.com/cockroachdb/pebble.Snapshot).Get
func SnapGet(p *pebble.Snapshot, k []byte) ([]byte, io.Closer, error) {
	s := (*snap)(unsafe.Pointer(p))
	return get(s.s, s.now, k)
}

//verif:redirect (*github.com/cockroachdb/pebble.Snapshot).NewIter
func SnapIter(p *pebble.Snapshot, o *pebble.IterOptions) (*pebble.Iterator, error) {
	s := (*snap)(unsafe.Pointer(p))
	return newIter(s.s, s.now, o)
}

//verif:redirect (*github.com/cockroachdb/pebble.Snapshot).NewIterWithContext
func SnapIterCtx(p *pebble.Snapshot, _ context.Context, o *pebble.IterOptions) (*pebble.Iterator, error) {
	return SnapIter(p, o)
}

//verif:redirect (*github.com/cockroachdb/pebble.Snapshot).Close
func SnapClose(p *pebble.Snapshot) error {
	s := (*snap)(unsafe.Pointer(p))
	if s.s == nil {
		panic(pebble.ErrClosed)
	}
	s.s.snaps--
	s.s = nil
	return nil
}

// ---- batches ----

type op struct {
	kind byte // s d r
	k, v []byte
}

type batch struct {
	s          *store
	indexed    bool
	ops        []op
	committing bool
	closed     bool
	size       int
}

func bt(b *pebble.Batch) *batch { return (*batch)(unsafe.Pointer(b)) }

func newBatch(d *pebble.DB, indexed bool) *pebble.Batch {
	return (*pebble.Batch)(unsafe.Pointer(&batch{s: db(d), indexed: indexed}))
}

//verif:redirect (*github.com/cockroachdb/pebble.DB).NewBatch
func NewBatch(d *pebble.DB) *pebble.Batch { return newBatch(d, false) }

//verif:redirect (*github.com/cockroachdb/pebble.DB).NewBatchWithSize
func NewBatchSize(d *pebble.DB, _ int) *pebble.Batch { return newBatch(d, false) }

//verif:redirect (*github.com/cockroachdb/pebble.DB).NewIndexedBatchWithSize
func NewIndexedBatchSize(d *pebble.DB, _ int) *pebble.Batch { return newBatch(d, true) }

//verif:redirect (*github.com/cockroachdb/pebble.DB).NewIndexedBatch
func NewIndexedBatch(d *pebble.DB) *pebble.Batch { return newBatch(d, true) }

func (b *batch) view() []kv {
	s := b.s.cur
	for _, o := range b.ops {
		s = applyOp(s, o)
	}
	return s
}

func applyOp(s []kv, o op) []kv {
	switch o.kind {
	case 's':
		return put(s, o.k, o.v)
	case 'd':
		return del(s, o.k)
	case 'm':
		if i, ok := find(s, o.k); ok {
			return put(s, o.k, append(dup(s[i].v), o.v...))
		}
		return put(s, o.k, o.v)
	}
	return delRange(s, o.k, o.v)
}

func (b *batch) add(kind byte, k, v []byte) error {
	if b.closed {
		panic("batch used after Close")
	}
	if b.committing {
		panic("pebble: batch already committing")
	}
	o := op{kind: kind, k: dup(k)}
	if kind != 'd' {
		o.v = dup(v)
	}
	b.ops = append(b.ops, o)
	return nil
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).Set
func BatchSet(p *pebble.Batch, k, v []byte, _ *pebble.WriteOptions) error {
	return bt(p).add('s', k, v)
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).Delete
func BatchDelete(p *pebble.Batch, k []byte, _ *pebble.WriteOptions) error {
	return bt(p).add('d', k, nil)
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).SingleDelete
func BatchSingleDelete(p *pebble.Batch, k []byte, _ *pebble.WriteOptions) error {
	return bt(p).add('d', k, nil)
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).DeleteSized
func BatchDeleteSized(p *pebble.Batch, k []byte, _ uint32, _ *pebble.WriteOptions) error {
	return bt(p).add('d', k, nil)
}

// Merge concatenates: the default merger.
//
//verif:redirect (*github.com/cockroachdb/pebble.Batch).Merge
func BatchMerge(p *pebble.Batch, k, v []byte, _ *pebble.WriteOptions) error {
	return bt(p).add('m', k, v)
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).LogData
func BatchLogData(p *pebble.Batch, _ []byte, _ *pebble.WriteOptions) error { return nil }

//verif:redirect (*github.com/cockroachdb/pebble.Batch).DeleteRange
func BatchDeleteRange(p *pebble.Batch, a, b []byte, _ *pebble.WriteOptions) error {
	return bt(p).add('r', a, b)
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).Get
func BatchGet(p *pebble.Batch, k []byte) ([]byte, io.Closer, error) {
	b := bt(p)
	if !b.indexed {
		return nil, nil, pebble.ErrNotIndexed
	}
	return get(b.s, b.view, k)
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).NewIter
func BatchIter(p *pebble.Batch, o *pebble.IterOptions) (*pebble.Iterator, error) {
	b := bt(p)
	if !b.indexed {
		return nil, pebble.ErrNotIndexed
	}
	return newIter(b.s, b.view, o)
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).NewIterWithContext
func BatchIterCtx(p *pebble.Batch, _ context.Context, o *pebble.IterOptions) (*pebble.Iterator, error) {
	return BatchIter(p, o)
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).NewBatchOnlyIter
func BatchOnlyIter(p *pebble.Batch, _ context.Context, o *pebble.IterOptions) (*pebble.Iterator, error) {
	b := bt(p)
	if !b.indexed {
		return nil, pebble.ErrNotIndexed
	}
	return newIter(b.s, func() []kv {
		var s []kv
		for _, o := range b.ops {
			s = applyOp(s, o)
		}
		return s
	}, o)
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).Indexed
func BatchIndexed(p *pebble.Batch) bool { return bt(p).indexed }

//verif:redirect (*github.com/cockroachdb/pebble.Batch).Empty
func BatchEmpty(p *pebble.Batch) bool { return len(bt(p).ops) == 0 }

//verif:redirect (*github.com/cockroachdb/pebble.Batch).Count
func BatchCount(p *pebble.Batch) uint32 { return uint32(len(bt(p).ops)) }

//verif:redirect (*github.com/cockroachdb/pebble.Batch).Len
func BatchLen(p *pebble.Batch) int {
	n := 12
	for _, o := range bt(p).ops {
		n += 2 + len(o.k)
		if o.kind != 'd' {
			n += 1 + len(o.v)
		}
	}
	return n
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).Reset
func BatchReset(p *pebble.Batch) {
	b := bt(p)
	b.ops, b.committing = nil, false
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).Apply
func BatchApply(p, q *pebble.Batch, _ *pebble.WriteOptions) error {
	if err := env.Fault("apply"); err != nil {
		return err
	}
	b, c := bt(p), bt(q)
	if b.committing {
		panic("pebble: batch already committing")
	}
	b.ops = append(b.ops, c.ops...)
	return nil
}

func commit(b *batch, o *pebble.WriteOptions) error {
	if !b.s.open {
		panic(pebble.ErrClosed)
	}
	if b.closed {
		panic("batch used after Close")
	}
	if b.committing {
		panic("pebble: batch already committing")
	}
	if err := env.Fault("commit"); err != nil {
		return err
	}
	b.committing = true
	s := b.s.cur
	for _, x := range b.ops {
		s = applyOp(s, x)
	}
	b.s.cur = s
	b.s.wrote(o)
	return nil
}

//verif:redirect (*github.com/cockroachdb/pebble.Batch).Commit
func BatchCommit(p *pebble.Batch, o *pebble.WriteOptions) error { return commit(bt(p), o) }

//verif:redirect (*github.com/cockroachdb/pebble.DB).Apply
func DBApply(d *pebble.DB, p *pebble.Batch, o *pebble.WriteOptions) error { return commit(bt(p), o) }

//verif:redirect (*github.com/cockroachdb/pebble.Batch).Close
func BatchClose(p *pebble.Batch) error {
	b := bt(p)
	b.closed = true
	return nil
}

// ---- iterators ----

type iter struct {
	s      *store
	all    []kv // the whole view, before bounds
	view   []kv
	i      int // position in view; -1 before first, len after last
	err    error
	prefix []byte
	pos    bool // Seek/First/Last was called
	k, v   []byte
	closed bool
	fwd    bool
}

func it(p *pebble.Iterator) *iter {
	i := (*iter)(unsafe.Pointer(p))
	if i.closed {
		panic("pebble: iterator used after Close")
	}
	return i
}

//verif:redirect (*github.com/cockroachdb/pebble.DB).NewIter
func DBIter(d *pebble.DB, o *pebble.IterOptions) (*pebble.Iterator, error) {
	s := db(d)
	return newIter(s, s.now, o)
}

//verif:redirect (*github.com/cockroachdb/pebble.DB).NewIterWithContext
func DBIterCtx(d *pebble.DB, _ context.Context, o *pebble.IterOptions) (*pebble.Iterator, error) {
	return DBIter(d, o)
}

func newIter(s *store, at func() []kv, o *pebble.IterOptions) (*pebble.Iterator, error) {
	if err := env.Fault("newiter"); err != nil {
		return nil, err
	}
	i := &iter{s: s, all: at(), i: -1}
	if o != nil {
		i.bounds(o.LowerBound, o.UpperBound)
	} else {
		i.bounds(nil, nil)
	}
	s.iters++
	return (*pebble.Iterator)(unsafe.Pointer(i)), nil
}

func (i *iter) bounds(l, u []byte) {
	lo, hi := 0, len(i.all)
	if l != nil {
		lo, _ = find(i.all, l)
	}
	if u != nil {
		hi, _ = find(i.all, u)
	}
	if hi < lo {
		hi = lo
	}
	i.view = i.all[lo:hi]
}

// moved refreshes the current key and value buffers after a positioning call.
func (i *iter) moved() bool {
	for j := range i.k {
		i.k[j] = 0xDB
	}
	for j := range i.v {
		i.v[j] = 0xDB
	}
	i.k, i.v = nil, nil
	if !i.valid() {
		return false
	}
	i.k, i.v = dup(i.view[i.i].k), dup(i.view[i.i].v)
	env.Lend(i.k)
	env.Lend(i.v)
	return true
}

func (i *iter) valid() bool { return i.err == nil && i.i >= 0 && i.i < len(i.view) }

func (i *iter) start() bool {
	i.err, i.prefix = nil, nil
	if i.err = env.Fault("iter"); i.err != nil {
		i.moved()
		return false
	}
	return true
}

func (i *iter) step() bool {
	if i.err != nil {
		return false
	}
	if i.err = env.Fault("iter"); i.err != nil {
		i.moved()
		return false
	}
	return true
}

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).First
func IterFirst(p *pebble.Iterator) bool {
	i := it(p)
	if !i.start() {
		return false
	}
	i.i = 0
	return i.moved()
}

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).Last
func IterLast(p *pebble.Iterator) bool {
	i := it(p)
	if !i.start() {
		return false
	}
	i.i = len(i.view) - 1
	return i.moved()
}

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).Next
func IterNext(p *pebble.Iterator) bool {
	i := it(p)
	if !i.step() {
		return false
	}
	if i.i < len(i.view) {
		i.i++
	}
	if i.prefix != nil && i.i < len(i.view) && !bytes.HasPrefix(i.view[i.i].k, i.prefix) {
		i.i = len(i.view)
	}
	return i.moved()
}

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).Prev
func IterPrev(p *pebble.Iterator) bool {
	i := it(p)
	if !i.step() {
		return false
	}
	if i.i >= 0 {
		i.i--
	}
	return i.moved()
}

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).SeekGE
func IterSeekGE(p *pebble.Iterator, k []byte) bool {
	i := it(p)
	if !i.start() {
		return false
	}
	i.i, _ = find(i.view, k)
	return i.moved()
}

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).SeekPrefixGE
func IterSeekPrefixGE(p *pebble.Iterator, k []byte) bool {
	i := it(p)
	if !i.start() {
		return false
	}
	nd.Calm(true)
	n := i.s.split(k)
	nd.Calm(false)
	i.prefix = dup(k[:n])
	i.i, _ = find(i.view, k)
	if i.i < len(i.view) && !bytes.HasPrefix(i.view[i.i].k, i.prefix) {
		i.i = len(i.view)
	}
	return i.moved()
}

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).SeekLT
func IterSeekLT(p *pebble.Iterator, k []byte) bool {
	i := it(p)
	if !i.start() {
		return false
	}
	j, _ := find(i.view, k)
	i.i = j - 1
	return i.moved()
}

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).SetBounds
func IterSetBounds(p *pebble.Iterator, l, u []byte) {
	i := it(p)
	i.bounds(l, u)
	i.err, i.prefix, i.i = nil, nil, -1
	i.moved()
}

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).Clone
func IterClone(p *pebble.Iterator, o pebble.CloneOptions) (*pebble.Iterator, error) {
	i := it(p)
	if o.RefreshBatchView {
		panic("model: RefreshBatchView")
	}
	c := &iter{s: i.s, all: i.all, view: i.view, i: -1}
	if o.IterOptions != nil {
		c.bounds(o.IterOptions.LowerBound, o.IterOptions.UpperBound)
	}
	i.s.iters++
	return (*pebble.Iterator)(unsafe.Pointer(c)), nil
}

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).NextPrefix
func IterNextPrefix(p *pebble.Iterator) bool {
	i := it(p)
	if !i.valid() {
		return IterNext(p)
	}
	nd.Calm(true)
	pre := dup(i.k[:i.s.split(i.k)])
	nd.Calm(false)
	for IterNext(p) {
		if !bytes.HasPrefix(i.k, pre) {
			return true
		}
	}
	return false
}

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).HasPointAndRange
func IterHasPoint(p *pebble.Iterator) (bool, bool) { return it(p).valid(), false }

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).SetContext
func IterSetContext(p *pebble.Iterator, _ context.Context) { it(p) }

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).Valid
func IterValid(p *pebble.Iterator) bool { return it(p).valid() }

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).Error
func IterError(p *pebble.Iterator) error { return it(p).err }

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).Key
func IterKey(p *pebble.Iterator) []byte { return it(p).k }

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).Value
func IterValue(p *pebble.Iterator) []byte { return it(p).v }

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).ValueAndErr
func IterValueAndErr(p *pebble.Iterator) ([]byte, error) { return it(p).v, nil }

//verif:redirect (*github.com/cockroachdb/pebble.Iterator).Close
func IterClose(p *pebble.Iterator) error {
	i := it(p)
	err := i.err
	i.err = nil
	i.i = -1
	i.moved()
	i.closed = true
	i.s.iters--
	return err
}

// ---- options ----

//verif:redirect github.com/cockroachdb/pebble/vfs.NewMem
func NewMem() *vfs.MemFS { return nil }

//verif:redirect github.com/cockroachdb/pebble/vfs.NewStrictMem
func NewStrictMem() *vfs.MemFS { return nil }

//verif:redirect (*github.com/cockroachdb/pebble/vfs.MemFS).SetIgnoreSyncs
func MemIgnoreSyncs(_ *vfs.MemFS, on bool) {
	for _, s := range stores {
		s.frozen = on
	}
}

//verif:redirect (*github.com/cockroachdb/pebble/vfs.MemFS).ResetToSyncedState
func MemReset(*vfs.MemFS) { Crash() }

//verif:redirect (*github.com/cockroachdb/pebble.Options).EnsureDefaults
func EnsureDefaults(o *pebble.Options) *pebble.Options { return o }

//verif:redirect (*github.com/cockroachdb/pebble.LevelOptions).EnsureDefaults
func LevelDefaults(o *pebble.LevelOptions) *pebble.LevelOptions { return o }

//verif:redirect github.com/cockroachdb/pebble.NewCache
func NewCache(int64) *pebble.Cache { return nil }

//verif:redirect (*github.com/cockroachdb/pebble/internal/cache.Cache).Unref
func CacheUnref(*pebble.Cache) {}

//verif:redirect github.com/cockroachdb/pebble.NewTableCache
func NewTableCache(*pebble.Cache, int, int) *pebble.TableCache { return nil }

// error values of the backend and of its error library keep their identity
// and nothing else.

//verif:redirect github.com/cockroachdb/errors.New
func ErrNew(msg string) error { return errors.New(msg) }

//verif:redirect github.com/cockroachdb/errors.Newf
func ErrNewf(msg string, a ...any) error { return errors.New(msg) }

//verif:redirect github.com/cockroachdb/errors.Errorf
func ErrErrorf(msg string, a ...any) error { return errors.New(msg) }

// The text of error messages is not compared: quoting is not encoded.

//verif:redirect strconv.Quote
func Quote(s string) string { return "\"" + s + "\"" }

//verif:redirect strconv.AppendQuote
func AppendQuote(b []byte, s string) []byte { return append(b, Quote(s)...) }
