package main

// Data races: two accesses of different goroutines to the same memory, one of
// them a write, that no synchronisation orders (vector clocks, one per
// goroutine). Accesses of the code under test and of the libraries it calls
// count; those of the harnesses and of the storage model do not.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	rtRoot  = iota // harness: not tracked
	rtTrack        // code under test and what it calls
	rtModel        // storage and what it calls: not tracked
)

const (
	rkLib = iota
	rkHarness
	rkModel
	rkRepo
)

type vclock []uint32

func (c vclock) at(i int) uint32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

func (c *vclock) join(d vclock) {
	for len(*c) < len(d) {
		*c = append(*c, 0)
	}
	for i, x := range d {
		if x > (*c)[i] {
			(*c)[i] = x
		}
	}
}

type access struct {
	g  int
	at uint32
	fr string
}

type shadow struct {
	w     access
	wrote bool
	r     []access
}

type cellKey struct {
	o any
	i int
}

type relKey struct {
	k  any
	rd bool
}

type racer struct {
	sh  map[cellKey]*shadow
	rel map[any]vclock
	hit bool
}

func raceKind(f *ssa.Function, modPfx string) uint8 {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		return rkLib
	}
	p := f.Pkg.Pkg.Path()
	switch {
	case strings.Contains(p, "/zzverif/model"), strings.Contains(p, "/zzverif/env"), strings.HasPrefix(p, pebblePath):
		return rkModel
	case strings.Contains(p, "/zzverif/"):
		return rkHarness
	case strings.HasPrefix(p, modPfx):
		return rkRepo
	}
	return rkLib
}

// raceState is the state of a call of fn.
func raceState(fn *Fn, caller *frame) uint8 {
	c := uint8(rtModel)
	if caller != nil {
		c = caller.rt
	} else if fn.rkind == rkHarness {
		return rtRoot
	}
	switch {
	case c == rtModel:
		return rtModel
	case fn.rkind == rkModel:
		return rtModel
	case fn.rkind == rkHarness:
		return rtRoot
	case fn.rkind == rkRepo:
		return rtTrack
	}
	return c
}

// forked starts the clock of a new goroutine.
func (m *M) forked(g *gor) {
	if m.race == nil {
		m.race = &racer{sh: map[cellKey]*shadow{}, rel: map[any]vclock{}}
	}
	p := m.cur
	p.vc.join(make(vclock, p.id+1))
	if p.vc[p.id] == 0 {
		p.vc[p.id] = 1
	}
	g.vc = append(vclock{}, p.vc...)
	g.vc.join(make(vclock, g.id+1))
	g.vc[g.id] = 1
	p.vc[p.id]++
}

// joined orders everything of the goroutines that have ended before what follows.
func (m *M) joined() {
	if m.race == nil {
		return
	}
	for _, g := range m.gs {
		if g != m.cur {
			m.cur.vc.join(g.vc)
		}
	}
	m.race = nil
}

func (m *M) acquire(k any) {
	if m.race != nil {
		m.cur.vc.join(m.race.rel[k])
	}
}

func (m *M) release(k any) {
	if m.race != nil {
		c := m.race.rel[k]
		n := append(vclock{}, c...)
		n.join(m.cur.vc)
		m.race.rel[k] = n
		m.cur.vc[m.cur.id]++
	}
}

// both is a synchronisation in both directions.
func (m *M) both(k any) {
	m.acquire(k)
	m.release(k)
}

func (m *M) touch(fr *frame, o any, i int, write bool) {
	g, r := m.cur, m.race
	k := cellKey{o, i}
	s := r.sh[k]
	if s == nil {
		s = &shadow{}
		r.sh[k] = s
	}
	if s.wrote && s.w.g != g.id && s.w.at > g.vc.at(s.w.g) {
		m.raced(fr, s.w, write)
	}
	if !write {
		for j := range s.r {
			if s.r[j].g == g.id {
				s.r[j] = access{g.id, g.vc.at(g.id), fr.fn.name}
				return
			}
		}
		s.r = append(s.r, access{g.id, g.vc.at(g.id), fr.fn.name})
		return
	}
	for _, x := range s.r {
		if x.g != g.id && x.at > g.vc.at(x.g) {
			m.raced(fr, x, true)
		}
	}
	s.w, s.wrote, s.r = access{g.id, g.vc.at(g.id), fr.fn.name}, true, s.r[:0]
}

func (m *M) raced(fr *frame, x access, write bool) {
	if m.race.hit || m.pos < len(m.prefix) {
		return
	}
	m.race.hit = true
	m.ex.violation(m, "data race: "+plainName(fr.fn.name)+" and "+plainName(x.fr), m.model)
}

// cell tells of an access to a cell, with everything in it.
func (m *M) cell(fr *frame, a *Agg, i int, write bool) {
	if s, ok := a.get(i).o.(*SAgg); ok {
		for j := 0; j < s.n && j < 1024; j++ {
			m.cell(fr, &s.Agg, j, write)
		}
		return
	}
	m.touch(fr, a, i, write)
}

func (m *M) racing(fr *frame) bool { return m.race != nil && fr.rt == rtTrack && !m.calm }

func (m *M) cellsAcc(fr *frame, s *Slice, off, n int, write bool) {
	if s == nil || !m.racing(fr) {
		return
	}
	for j := 0; j < n && j < 4096; j++ {
		m.cell(fr, s.arr, s.off+off+j, write)
	}
}

// plainName is a function's name without type arguments and package paths.
func plainName(s string) string {
	var b strings.Builder
	d := 0
	for _, c := range s {
		switch {
		case c == '[':
			d++
		case c == ']':
			d--
		case d == 0:
			b.WriteRune(c)
		}
	}
	s = b.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return strings.NewReplacer("(", "", ")", "", "*", "").Replace(s)
}
