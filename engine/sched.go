package main

// Goroutines as coroutines with a baton, mutexes, channels.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type gor struct {
	id    int
	stack []Value
	depth int
	wake  chan struct{}
	exit  chan struct{}
	ready func() bool // nil: runnable
	vc    vclock
	done  bool
}

type killedT struct{}
type goPanic struct{ tp *targetPanic }

func (m *M) spawn(f func(fr *frame), fr *frame) {
	m.ngor++
	g := &gor{id: m.ngor, wake: make(chan struct{}, 1), exit: make(chan struct{}), stack: make([]Value, 0, 256)}
	m.gs = append(m.gs, g)
	m.forked(g)
	go func() {
		defer close(g.exit)
		<-g.wake
		if m.killed {
			return
		}
		defer func() {
			r := recover()
			g.done = true
			if _, ok := r.(killedT); ok {
				return
			}
			if r != nil {
				if tp, ok := r.(*targetPanic); ok {
					r = goPanic{tp}
				}
				m.abort = r
				m.cur = m.gs[0]
				m.gs[0].wake <- struct{}{}
				return
			}
			n := m.pick(g)
			if n == nil {
				m.abort = pathEnd{"deadlock"}
				n = m.gs[0]
			}
			m.cur = n
			n.wake <- struct{}{}
		}()
		m.depth = 0
		f(&frame{m: m, fn: fr.fn})
	}()
}

// pick selects a runnable goroutine other than g.
func (m *M) pick(g *gor) *gor {
	var rs []*gor
	n := len(m.gs)
	start := 0
	for i, x := range m.gs {
		if x == g {
			start = i
		}
	}
	for k := 1; k <= n; k++ {
		x := m.gs[(start+k)%n]
		if x != g && !x.done && (x.ready == nil || x.ready()) {
			rs = append(rs, x)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	if m.interOn && len(rs) > 1 {
		return rs[m.schedule(len(rs))]
	}
	return rs[0]
}

// schedule records a scheduling choice for the native replay.
func (m *M) schedule(n int) int {
	k := m.choose(n)
	m.sched = append(m.sched, k)
	return k
}

func (m *M) switchTo(g *gor) {
	me := m.cur
	if me == g {
		return
	}
	me.depth = m.depth
	m.cur = g
	g.wake <- struct{}{}
	<-me.wake
	if m.killed {
		panic(killedT{})
	}
	if m.abort != nil && me == m.gs[0] {
		a := m.abort
		m.abort = nil
		m.cur = me
		panic(a)
	}
	m.cur = me
	m.depth = me.depth
}

func (m *M) block(ready func() bool) {
	for !ready() {
		m.cur.ready = ready
		n := m.pick(m.cur)
		if n == nil {
			m.cur.ready = nil
			panic(pathEnd{"deadlock"})
		}
		m.switchTo(n)
	}
	m.cur.ready = nil
}

// syncPoint is a possible preemption; op marks storage operations, the others
// are statements of the code under test.
func (m *M) syncPoint(op bool) {
	if !m.interOn || m.inter <= 0 || len(m.gs) < 2 || !op && (m.interOps || m.calm) {
		return
	}
	var rs []*gor
	for _, x := range m.gs {
		if x != m.cur && !x.done && (x.ready == nil || x.ready()) {
			rs = append(rs, x)
		}
	}
	if len(rs) == 0 {
		return
	}
	k := m.schedule(1 + len(rs))
	if k > 0 {
		m.inter--
		m.switchTo(rs[k-1])
	}
}

func (m *M) killGoroutines() {
	m.killed = true
	for _, g := range m.gs[1:] {
		if !g.done {
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
		<-g.exit
	}
	m.killed = false
}

// ---- mutexes ----

type mutexState struct {
	w       bool
	readers int
	waitW   int
}

func (m *M) mutex(p Value) *mutexState {
	if p.o == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	k := any(p)
	s, ok := m.side[k]
	if !ok {
		ms := &mutexState{}
		m.side[k] = ms
		return ms
	}
	return s.(*mutexState)
}

func (m *M) lock(p Value) {
	s := m.mutex(p)
	if s.w || s.readers > 0 {
		s.waitW++
		m.block(func() bool { return !s.w && s.readers == 0 })
		s.waitW--
	}
	s.w = true
	m.acquire(relKey{s, false})
	m.acquire(relKey{s, true})
}

func (m *M) unlock(p Value) {
	s := m.mutex(p)
	if !s.w {
		panic(pathEnd{"fatal error: sync: unlock of unlocked mutex"})
	}
	s.w = false
	m.release(relKey{s, false})
}

func (m *M) rlock(p Value) {
	s := m.mutex(p)
	m.block(func() bool { return !s.w })
	s.readers++
	m.acquire(relKey{s, false})
}

func (m *M) runlock(p Value) {
	s := m.mutex(p)
	if s.readers <= 0 {
		panic(pathEnd{"fatal error: sync: RUnlock of unlocked RWMutex"})
	}
	s.readers--
	m.release(relKey{s, true})
}

// ---- channels ----

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }
func (c *Chan) canSend() bool { return c.closed || len(c.buf) < c.cap || c.recvq > len(c.sendq) }

func (c *Chan) take() (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if len(c.sendq) > 0 {
			s := c.sendq[0]
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, s.v)
			s.done = true
		}
		return v, true
	}
	if len(c.sendq) > 0 {
		s := c.sendq[0]
		c.sendq = c.sendq[1:]
		s.done = true
		return s.v, true
	}
	return Value{}, false
}

func (m *M) chanSend(cv, v Value) {
	if cv.o == nil {
		m.block(func() bool { return false })
	}
	c := cv.o.(*Chan)
	m.both(c)
	defer m.both(c)
	if c.closed {
		m.rtPanic("send on closed channel")
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return
	}
	s := &sendWait{v: v, g: m.cur}
	c.sendq = append(c.sendq, s)
	m.block(func() bool { return s.done || c.closed })
	if !s.done {
		m.rtPanic("send on closed channel")
	}
}

func (m *M) chanRecv(cv Value) (Value, bool) {
	if cv.o == nil {
		m.block(func() bool { return false })
	}
	c := cv.o.(*Chan)
	m.both(c)
	defer m.both(c)
	if !c.canRecv() {
		c.recvq++
		m.block(c.canRecv)
		c.recvq--
	}
	return c.take()
}

func (c *compiler) selectIns(i *ssa.Select) ins {
	d := c.reg(i)
	type st struct {
		ch, v opnd
		send  bool
	}
	var sts []st
	nrecv := 0
	for _, s := range i.States {
		x := st{ch: c.op(s.Chan), send: s.Dir == types.SendOnly}
		if x.send {
			x.v = c.op(s.Send)
		} else {
			nrecv++
		}
		sts = append(sts, x)
	}
	blocking := i.Blocking
	return func(fr *frame) {
		m := fr.m
		chs := make([]*Chan, len(sts))
		for k := range sts {
			v := sts[k].ch.get(fr)
			if v.o != nil {
				chs[k] = v.o.(*Chan)
			}
		}
		ready := func() []int {
			var r []int
			for k := range sts {
				if chs[k] == nil {
					continue
				}
				if sts[k].send && chs[k].canSend() || !sts[k].send && chs[k].canRecv() {
					r = append(r, k)
				}
			}
			return r
		}
		r := ready()
		if len(r) == 0 && blocking {
			for k := range sts {
				if chs[k] != nil && !sts[k].send {
					chs[k].recvq++
				}
			}
			m.block(func() bool { return len(ready()) > 0 })
			for k := range sts {
				if chs[k] != nil && !sts[k].send {
					chs[k].recvq--
				}
			}
			r = ready()
		}
		res := make(Tuple, 2+nrecv)
		if len(r) == 0 {
			res[0] = Value{n: ^uint64(0)}
			fr.regs[d] = Value{o: res}
			return
		}
		k := r[0]
		m.both(chs[k])
		res[0] = Value{n: uint64(k)}
		if sts[k].send {
			ch := chs[k]
			if ch.closed {
				m.rtPanic("send on closed channel")
			}
			if len(ch.buf) < ch.cap {
				ch.buf = append(ch.buf, copyVal(sts[k].v.get(fr)))
			} else {
				m.chanSend(Value{o: ch}, copyVal(sts[k].v.get(fr)))
			}
		} else {
			v, ok := chs[k].take()
			res[1] = cbool(ok)
			n := 0
			for j := 0; j < k; j++ {
				if !sts[j].send {
					n++
				}
			}
			res[2+n] = v
		}
		fr.regs[d] = Value{o: res}
	}
}

func (m *M) mapAcc(fr *frame, mp *Map, write bool) {
	if m.race != nil && mp != nil && m.racing(fr) {
		m.touch(fr, mp, 0, write)
	}
}

func (m *M) appendAcc(fr *frame, s *Slice, y Value, str bool) {
	n := 0
	if str {
		n = strLen(y)
	} else if ys := asSlice(y); ys != nil {
		n = ys.len
		m.cellsAcc(fr, ys, 0, n, false)
	}
	if s == nil || n == 0 {
		return
	}
	if s.len+n <= s.cap {
		m.cellsAcc(fr, s, s.len, n, true)
	} else {
		m.cellsAcc(fr, s, 0, s.len, false)
	}
}
