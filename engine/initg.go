package main

// Demand-driven initialisation of package-level variables: on the first access
// to a global in a path, the part of its package initialiser that computes it
// is executed.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type initSlice struct {
	fn   *Fn
	body []ins
	n    int
	all  bool // control flow involved: run the complete initialiser
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

func (p *Prog) initFor(g *ssa.Global) *initSlice {
	p.initMu.Lock()
	defer p.initMu.Unlock()
	if s, ok := p.initSl[g]; ok {
		return s
	}
	s := p.buildInit(g)
	p.initSl[g] = s
	return s
}

func (p *Prog) buildInit(g *ssa.Global) *initSlice {
	if g.Pkg == nil {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return nil
	}
	need := map[ssa.Instruction]bool{}
	var work []ssa.Instruction
	add := func(i ssa.Instruction) {
		if !need[i] {
			need[i] = true
			work = append(work, i)
		}
	}
	// index of stores/map updates by root
	byRoot := map[ssa.Value][]ssa.Instruction{}
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				byRoot[rootOf(x.Addr)] = append(byRoot[rootOf(x.Addr)], i)
			case *ssa.MapUpdate:
				byRoot[rootOf(x.Map)] = append(byRoot[rootOf(x.Map)], i)
			}
		}
	}
	for _, i := range byRoot[g] {
		add(i)
	}
	if len(work) == 0 {
		return nil
	}
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		for _, o := range i.Operands(nil) {
			if *o == nil {
				continue
			}
			if oi, ok := (*o).(ssa.Instruction); ok {
				add(oi)
			}
			r := rootOf(*o)
			if _, isG := r.(*ssa.Global); !isG {
				for _, s := range byRoot[r] {
					add(s)
				}
			}
		}
	}
	s := &initSlice{}
	fn := p.fn(init)
	c := &compiler{f: fn, regs: map[ssa.Value]int{}}
	var blk *ssa.BasicBlock
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			if !need[i] {
				continue
			}
			if _, ok := i.(*ssa.Phi); ok {
				s.all = true
			}
			if blk == nil {
				blk = b
			}
			if blk != b {
				s.all = true
			}
		}
	}
	if s.all {
		s.fn = fn
		return s
	}
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			if need[i] {
				s.body = append(s.body, c.instr(i))
			}
		}
	}
	s.fn = fn
	s.n = len(c.regs)
	return s
}

func (m *M) globalAgg(g *ssa.Global) *Agg {
	if a, ok := m.globals[g]; ok {
		return a
	}
	a := &Agg{n: 1}
	m.globals[g] = a
	s := m.p.initFor(g)
	if s == nil {
		m.initFuncs(g)
		return a
	}
	defer m.initFuncs(g)
	if s.all {
		// guard: mark the package initialiser as running once
		key := any(g.Pkg)
		if m.side[key] == nil {
			m.side[key] = true
			m.call(s.fn, nil, nil, nil)
		}
		return a
	}
	saved := m.cur.stack
	fr := &frame{m: m, fn: s.fn, rt: rtModel, regs: make([]Value, s.n)}
	for _, i := range s.body {
		i(fr)
	}
	m.cur.stack = saved
	return a
}

var _ types.Type

// initFuncPkgs are the dependency packages whose init functions are run (the
// ones of the module always are).
var initFuncPkgs = map[string]bool{"context": true}

// initFuncs runs the init functions of the package of g that mention it.
func (m *M) initFuncs(g *ssa.Global) {
	if g.Pkg == nil || !initFuncPkgs[g.Pkg.Pkg.Path()] {
		return
	}
	key := any("init:" + g.Pkg.Pkg.Path())
	if m.side[key] != nil {
		return
	}
	m.side[key] = true
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if f, ok := c.Call.Value.(*ssa.Function); ok && f.Pkg == g.Pkg && strings.HasPrefix(f.Name(), "init#") {
					m.call(m.p.fn(f), nil, nil, nil)
				}
			}
		}
	}
}
