// Package zzsync replaces package sync in native replays of schedules: the
// same interface, blocking through the replayed scheduler.
package zzsync

import (
	"runtime"
	"sync"
	"unsafe"

	"github.com/go-bond/bond/zzverif/nd"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

var g sync.Mutex

// wait evaluates try under the package lock until it succeeds.
func wait(try func() bool, ready func() bool) {
	for {
		nd.Off()
		g.Lock()
		ok := try()
		g.Unlock()
		nd.On()
		if ok {
			return
		}
		if nd.Threads() {
			nd.Block(ready)
		} else {
			runtime.Gosched()
		}
	}
}

func atomically(f func()) {
	nd.Off()
	defer nd.On()
	g.Lock()
	defer g.Unlock()
	f()
}

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	wait(func() bool {
		if m.held {
			return false
		}
		m.held = true
		return true
	}, func() bool { return !m.held })
	nd.Acq(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() (ok bool) {
	atomically(func() {
		ok = !m.held
		m.held = true
	})
	if ok {
		nd.Acq(unsafe.Pointer(m))
	}
	return
}

func (m *Mutex) Unlock() {
	nd.Rel(unsafe.Pointer(m))
	atomically(func() {
		if !m.held {
			fatal("sync: unlock of unlocked mutex")
		}
		m.held = false
	})
}

type RWMutex struct {
	held bool
	r    int
}

func (m *RWMutex) Lock() {
	wait(func() bool {
		if m.held || m.r > 0 {
			return false
		}
		m.held = true
		return true
	}, func() bool { return !m.held && m.r == 0 })
	nd.Acq(unsafe.Pointer(&m.held))
	nd.Acq(unsafe.Pointer(&m.r))
}

func (m *RWMutex) TryLock() (ok bool) {
	atomically(func() {
		ok = !m.held && m.r == 0
		if ok {
			m.held = true
		}
	})
	if ok {
		nd.Acq(unsafe.Pointer(&m.held))
		nd.Acq(unsafe.Pointer(&m.r))
	}
	return
}

func (m *RWMutex) Unlock() {
	nd.Rel(unsafe.Pointer(&m.held))
	atomically(func() {
		if !m.held {
			fatal("sync: unlock of unlocked mutex")
		}
		m.held = false
	})
}

func (m *RWMutex) RLock() {
	wait(func() bool {
		if m.held {
			return false
		}
		m.r++
		return true
	}, func() bool { return !m.held })
	nd.Acq(unsafe.Pointer(&m.held))
}

func (m *RWMutex) TryRLock() (ok bool) {
	atomically(func() {
		ok = !m.held
		if ok {
			m.r++
		}
	})
	if ok {
		nd.Acq(unsafe.Pointer(&m.held))
	}
	return
}

func (m *RWMutex) RUnlock() {
	nd.Rel(unsafe.Pointer(&m.r))
	atomically(func() {
		if m.r <= 0 {
			fatal("sync: RUnlock of unlocked RWMutex")
		}
		m.r--
	})
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

func fatal(s string) { panic("fatal error: " + s) }

// Pool is last in, first out; what earlier runs of the process put is gone.
type Pool struct {
	New   func() any
	items []any
	run   int
}

func (p *Pool) fresh() {
	if p.run != nd.Run {
		p.items, p.run = nil, nd.Run
	}
}

func (p *Pool) Get() any {
	var v any
	ok := false
	nd.Acq(unsafe.Pointer(p))
	atomically(func() {
		p.fresh()
		if n := len(p.items); n > 0 {
			v, ok = p.items[n-1], true
			p.items = p.items[:n-1]
		}
	})
	if ok {
		if nd.PoolGot != nil {
			nd.PoolGot(v)
		}
		return v
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if nd.PoolPut != nil {
		nd.PoolPut(v)
	}
	nd.Rel(unsafe.Pointer(p))
	atomically(func() {
		p.fresh()
		p.items = append(p.items, v)
	})
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	nd.Rel(unsafe.Pointer(w))
	atomically(func() {
		w.n += d
		if w.n < 0 {
			panic("sync: negative WaitGroup counter")
		}
	})
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	wait(func() bool { return w.n == 0 }, func() bool { return w.n == 0 })
	nd.Acq(unsafe.Pointer(w))
}

type Once struct{ st int }

func (o *Once) Do(f func()) {
	run := false
	wait(func() bool {
		if o.st == 1 {
			return false
		}
		if o.st == 0 {
			o.st, run = 1, true
		}
		return true
	}, func() bool { return o.st != 1 })
	if run {
		defer func() {
			nd.Rel(unsafe.Pointer(o))
			atomically(func() { o.st = 2 })
		}()
		f()
	}
	nd.Acq(unsafe.Pointer(o))
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}
