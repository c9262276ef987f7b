package hbloom

import (
	"context"
	"errors"
	"io"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
	"github.com/go-bond/bond/zzverif/h"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	h.Registry["C18Add"] = C18Add
	h.Registry["C18Seq"] = C18Seq
	h.Registry["C18Config"] = C18Config
	h.Registry["C18Con"] = C18Con
	h.Registry["C18Fault"] = C18Fault
}

var bg = context.Background()

// eight bits and two hash functions per bucket
func small(buckets int, prefix ...[]byte) *bloom.BloomFilter {
	return bloom.NewBloomFilter(3, 0.3, buckets, prefix...)
}

func known(f *bloom.BloomFilter, keys [][]byte, what string) {
	if len(keys) == 0 {
		return
	}
	k := keys[nd.Choose(len(keys))]
	nd.Assert(f.MayContain(bg, k), what)
}

// C18Add: n keys in one filter of eight bits and k hash functions per bucket.
func C18Add(n, buckets, k int) {
	f := small(buckets)
	if k == 3 {
		f = bloom.NewBloomFilter(2, 0.147, buckets)
	}
	var keys [][]byte
	for i := 0; i < n; i++ {
		k := nd.Bytes(1 + nd.Choose(2))
		f.Add(bg, k)
		keys = append(keys, k)
	}
	known(f, keys, "a key that was added is denied")
	nd.Reach("end")
}

// C18Seq: k steps, each adding a key, saving, clearing the store or starting
// again from the store.
func C18Seq(k, buckets, pre int) {
	db, done := h.NewDB()
	var prefix [][]byte
	switch pre {
	case 1:
		prefix = append(prefix, append(make([]byte, 0, 32), 1, 2, 0xFF))
	case 2:
		prefix = append(prefix, []byte{7})
	}
	f := small(buckets, prefix...)
	var keys, saved [][]byte
	stored := false
	what := ""
	for i := 0; i < k; i++ {
		switch nd.Choose(4) {
		case 0:
			key := nd.Bytes(1)
			f.Add(bg, key)
			keys = append(keys, key)
			what += " add"
		case 1:
			nd.Assert(f.Save(bg, db) == nil, "save succeeds")
			stored, saved = true, append([][]byte{}, keys...)
			what += " save"
		case 2:
			nd.Assert(f.Clear(bg, db) == nil, "clear succeeds")
			stored = false
			what += " clear"
		case 3:
			f = small(buckets, prefix...)
			err := f.Load(bg, db)
			nd.Assert((err == nil) == stored, "loading succeeds exactly if a filter is stored")
			keys = append([][]byte{}, saved...)
			if !stored {
				keys = nil
				f = small(buckets, prefix...)
			}
			what += " load"
		}
	}
	known(f, keys, "a key that was added is denied after"+what)
	nd.Reach("end")
	done()
}

// C18Config: a stored filter of another shape or with missing parts.
func C18Config(kind int) {
	db, done := h.NewDB()
	f := small(2)
	a, b := nd.Bytes(1), nd.Bytes(1)
	f.Add(bg, a)
	nd.Assert(f.Save(bg, db) == nil, "save succeeds")
	prefix := bond.KeyEncode(bond.Key{Index: []byte{}, IndexOrder: []byte{}, PrimaryKey: []byte("bf_")})
	g := small(2)
	switch kind {
	case 0:
		g = small(3)
	case 1:
		g = small(1)
	case 2:
		g = bloom.NewBloomFilter(20, 0.147, 2)
	case 3:
		g = bloom.NewBloomFilter(2, 0.147, 2) // as many bits, other number of hash functions
	case 4:
		must(db.Delete(append(prefix, '0'), bond.Sync))
	case 5:
		must(db.Delete(append(prefix, '1'), bond.Sync))
	case 6:
		must(db.Delete(append(prefix, "bn"...), bond.Sync))
	case 7:
		must(db.Set(append(prefix, '1'), []byte{1, 2, 3}, bond.Sync))
	case 9:
		must(db.Set(append(prefix, "bn"...), nd.Bytes(nd.Choose(8)), bond.Sync))
	case 10:
		must(db.Set(append(prefix, '1'), nil, bond.Sync))
	case 8:
		g.Add(bg, b)
		nd.Assert(g.Load(bg, db) == nil, "loading into a filter in use")
		nd.Assert(g.MayContain(bg, a) && g.MayContain(bg, b), "loading adds to what the filter holds")
		nd.Assert(g.Save(bg, db) == nil, "save succeeds")
		x := small(2)
		nd.Assert(x.Load(bg, db) == nil, "load")
		nd.Assert(x.MayContain(bg, a) && x.MayContain(bg, b), "both keys are saved")
		nd.Reach("end")
		done()
		return
	}
	nd.Assert(g.Load(bg, db) != nil, "a stored filter that does not match is not loaded")
	nd.Reach("end")
	done()
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// C18Con: two threads; the second adds, saves or asks.
func C18Con(preempt, buckets, op int) {
	var db bond.DB
	done := func() {}
	if op == 1 || op == 3 {
		db, done = h.NewDB()
	}
	f := small(buckets)
	a, b, c := nd.Bytes(1), nd.Bytes(1), nd.Bytes(1)
	f.Add(bg, c)
	if op == 3 {
		nd.Assert(f.Save(bg, db) == nil, "save succeeds")
	}
	var err error
	ok := true
	nd.Go(func() { f.Add(bg, a) })
	nd.Go(func() {
		switch op {
		case 0:
			f.Add(bg, b)
		case 1, 3:
			f.Add(bg, b)
			err = f.Save(bg, db)
		case 2:
			ok = f.MayContain(bg, c)
		}
	})
	nd.Interleave(preempt)
	nd.Join()
	nd.Interleave(-1)
	nd.Assert(err == nil, "save succeeds")
	nd.Assert(ok, "a key added before is denied")
	keys := [][]byte{a, c}
	if op != 2 {
		keys = append(keys, b)
	}
	if op == 1 || op == 3 {
		nd.Assert(f.Save(bg, db) == nil, "save succeeds")
		f = small(buckets)
		nd.Assert(f.Load(bg, db) == nil, "load succeeds")
	}
	known(f, keys, "a key that was added is denied")
	nd.Reach("end")
	done()
}

var errStore = errors.New("the store fails")

// frail is a store whose calls fail when the countdown ends, after or before
// they took effect.
type frail struct {
	bond.DB
	in   int
	late bool
	hit  bool
}

func (s *frail) fails() bool {
	s.in--
	if s.in == 0 {
		s.hit = true
	}
	return s.in == 0
}

func (s *frail) Set(key, value []byte, opt bond.WriteOptions, b ...bond.Batch) error {
	if s.fails() {
		if s.late {
			must(s.DB.Set(key, value, opt, b...))
		}
		return errStore
	}
	return s.DB.Set(key, value, opt, b...)
}

func (s *frail) Get(key []byte, b ...bond.Batch) ([]byte, io.Closer, error) {
	if s.fails() {
		return nil, nil, errStore
	}
	return s.DB.Get(key, b...)
}

func (s *frail) DeleteRange(start, end []byte, opt bond.WriteOptions, b ...bond.Batch) error {
	if s.fails() {
		if s.late {
			must(s.DB.DeleteRange(start, end, opt, b...))
		}
		return errStore
	}
	return s.DB.DeleteRange(start, end, opt, b...)
}

// C18Fault: a save, clear or load that fails somewhere is reported and loses no
// key; a later save stores them all.
func C18Fault(op, buckets int) {
	db, done := h.NewDB()
	f := small(buckets)
	var keys [][]byte
	add := func() {
		k := nd.Bytes(1)
		f.Add(bg, k)
		keys = append(keys, k)
	}
	add()
	if nd.Bool() {
		nd.Assert(f.Save(bg, db) == nil, "save succeeds")
		add()
	}
	s := &frail{DB: db, in: 1 + nd.Choose(buckets+1), late: nd.Bool()}
	var err error
	switch op {
	case 0:
		err = f.Save(bg, s)
	case 1:
		s.in = 1
		err = f.Clear(bg, s)
	case 2:
		nd.Assert(f.Save(bg, db) == nil, "save succeeds")
		g := small(buckets)
		err = g.Load(bg, s)
		nd.Assert(s.hit, "load asks the store")
	}
	nd.Assert((err != nil) == s.hit, "a failure of the store is reported")
	known(f, keys, "a key that was added is denied after a failure")
	if nd.Bool() {
		add()
	}
	nd.Assert(f.Save(bg, db) == nil, "save succeeds")
	g := small(buckets)
	nd.Assert(g.Load(bg, db) == nil, "load succeeds")
	known(g, keys, "a key that was added is denied after a failure, a save and a load")
	nd.Reach("end")
	done()
}
