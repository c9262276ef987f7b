package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type work struct {
	prefix []Dec
	model  Assign
}

// NDVal is one replayable nondeterministic value.
type NDVal struct {
	Kind string   `json:"k"`
	V    []uint64 `json:"v"`
}

type ObsVal struct {
	Label string `json:"l"`
	B     []int  `json:"b"`
}

// UFVal is one entry of an uninterpreted function chosen by the solver.
type UFVal struct {
	Name string `json:"n"`
	Args []int  `json:"a"`
	V    uint64 `json:"v"`
}

// Vector is a concrete run of a harness.
type Vector struct {
	Harness string   `json:"harness"`
	Params  []int    `json:"params"`
	ND      []NDVal  `json:"nd"`
	Obs     []ObsVal `json:"obs,omitempty"`
	Label   string   `json:"label,omitempty"` // expected failure ("" = none)
	Sched   []int    `json:"sched,omitempty"`
	UF      []UFVal  `json:"uf,omitempty"`
}

type Explorer struct {
	p        *Prog
	sh       *Shared
	fn       *Fn
	params   []int
	name     string
	inits    []*Fn
	maxSteps int64
	maxPaths int64
	deadline time.Time
	workers  int
	sampleN  int
	known    map[string]bool

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []work
	active  int
	stopped bool

	paths, okPaths, assumeCut, stepCut int64
	asserts, assertQ, lost, steps      int64
	branches                           int64
	unsup                              map[string]int64
	viol                               map[string][]Vector
	nviol                              int
	reached                            map[string]int64
	samples                            []Vector
	seen                               int
	pending                            int
	rng                                *rand.Rand
	errs                               []string
	covered                            map[string]bool
	maxDec                             int
	verbose                            bool
	stopViol                           int
}

func (e *Explorer) push(w work) {
	e.mu.Lock()
	e.queue = append(e.queue, w)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Explorer) pop() (work, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopped || time.Now().After(e.deadline) || (e.maxPaths > 0 && e.paths >= e.maxPaths) {
			if !e.stopped {
				e.stopped = true
				e.pending = len(e.queue)
			}
			e.cond.Broadcast()
			return work{}, false
		}
		if n := len(e.queue); n > 0 {
			w := e.queue[n-1]
			e.queue = e.queue[:n-1]
			e.active++
			return w, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return work{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (m *M) vector(model Assign) Vector {
	var ev evaluator
	ev = m.ev
	ev.reset(model)
	ev.gen = m.ev.gen + 1
	m.ev.gen += 2 // invalidate memo of the machine's evaluator
	v := Vector{Harness: m.ex.name, Params: m.ex.params, Sched: append([]int(nil), m.sched...)}
	for _, d := range m.nd {
		x := NDVal{Kind: d.Kind, V: []uint64{}}
		for _, t := range d.t {
			x.V = append(x.V, ev.u(t))
		}
		x.V = append(x.V, d.val...)
		v.ND = append(v.ND, x)
	}
	for _, o := range m.obs {
		ov := ObsVal{Label: o.label, B: []int{}}
		for _, c := range m.evalBytes(o.v, &ev) {
			ov.B = append(ov.B, int(c))
		}
		v.Obs = append(v.Obs, ov)
	}
	var names []string
	for n := range m.ufs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, e := range m.ufs[n] {
			u := UFVal{Name: n, Args: []int{}}
			for _, c := range m.evalBytes(e.args, &ev) {
				u.Args = append(u.Args, int(c))
			}
			if t, ok := e.res.o.(*Term); ok {
				u.V = ev.u(t)
			} else {
				u.V = e.res.n
			}
			v.UF = append(v.UF, u)
		}
	}
	m.ev.gen++
	return v
}

func (e *Explorer) violation(m *M, label string, model Assign) {
	v := m.vector(model)
	v.Label = label
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.viol[label]) < 6 {
		e.viol[label] = append(e.viol[label], v)
	}
	e.nviol++
	if e.verbose && len(e.viol[label]) == 1 {
		fmt.Fprintf(os.Stderr, "  candidate violation: %s\n", label)
	}
	if e.stopViol > 0 && e.nviol >= e.stopViol {
		e.stopped = true
		e.pending = len(e.queue)
		e.cond.Broadcast()
	}
}

func (e *Explorer) run() {
	e.cond = sync.NewCond(&e.mu)
	e.unsup = map[string]int64{}
	e.viol = map[string][]Vector{}
	e.reached = map[string]int64{}
	e.rng = rand.New(rand.NewSource(1))
	e.queue = []work{{model: Assign{}}}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stop:
				return
			case <-t.C:
				e.cond.Broadcast()
			}
		}
	}()
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := &M{p: e.p, sh: e.sh, ex: e, maxSteps: e.maxSteps}
			m.sol = &Solver{sh: e.sh}
			m.b = NewBuilder()
			defer func() { m.sol.stop() }()
			for {
				w, ok := e.pop()
				if !ok {
					return
				}
				m.runPath(w)
				e.done()
				if m.b.next > 3000000 {
					m.b = NewBuilder()
					m.ev = evaluator{}
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
}

func (m *M) runPath(w work) {
	e := m.ex
	m.globals = map[*ssa.Global]*Agg{}
	m.prefix, m.pos, m.trace = w.prefix, 0, append(make([]Dec, 0, len(w.prefix)+16), w.prefix[:0]...)
	m.pc = m.pc[:0]
	m.facts = map[*Term]bool{}
	m.steps, m.nvar, m.depth, m.concN = 0, 0, 0, 0
	m.nd, m.obs = nil, nil
	m.ufs = nil
	m.interOn, m.interOps, m.inter = false, false, 0
	m.calm = false
	m.race = nil
	m.poolPut, m.poolGot = nil, nil
	m.sched = nil
	m.reached = map[string]bool{}
	m.side = map[any]any{}
	m.asserts = 0
	m.abort = nil
	m.ngor = 0
	m.setModel(w.model)
	g := &gor{wake: make(chan struct{}, 1), stack: make([]Value, 0, 4096)}
	m.gs = []*gor{g}
	m.cur = g
	status, detail := m.guarded()
	m.killGoroutines()
	atomic.AddInt64(&e.paths, 1)
	atomic.AddInt64(&e.steps, m.steps)
	atomic.AddInt64(&e.branches, int64(len(m.trace)))
	var vec *Vector
	switch status {
	case "ok":
		atomic.AddInt64(&e.okPaths, 1)
		e.mu.Lock()
		e.seen++
		take := len(e.samples) < e.sampleN
		slot := len(e.samples)
		if !take && e.sampleN > 0 {
			slot = e.rng.Intn(e.seen)
			take = slot < e.sampleN
		}
		e.mu.Unlock()
		if take {
			v := m.vector(m.model)
			vec = &v
		}
		e.mu.Lock()
		if vec != nil {
			if slot < len(e.samples) {
				e.samples[slot] = *vec
			} else {
				e.samples = append(e.samples, *vec)
			}
		}
		for l := range m.reached {
			e.reached[l]++
		}
		if len(m.trace) > e.maxDec {
			e.maxDec = len(m.trace)
		}
		e.mu.Unlock()
	case "assume":
		atomic.AddInt64(&e.assumeCut, 1)
	case "assert":
	case "panic":
		e.violation(m, "panic: "+detail, m.model)
	case "deadlock", "fatal":
		e.violation(m, status+": "+detail, m.model)
	case "steps":
		atomic.AddInt64(&e.stepCut, 1)
		e.violation(m, "nontermination", m.model)
	default:
		e.mu.Lock()
		e.unsup[detail]++
		e.mu.Unlock()
	}
}

func (m *M) guarded() (status, detail string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if gp, ok := r.(goPanic); ok {
			r = gp.tp
		}
		switch x := r.(type) {
		case *targetPanic:
			status, detail = "panic", x.msg
		case pathEnd:
			switch x.why {
			case "assume", "assert", "steps", "deadlock":
				status, detail = x.why, x.why
			case "assume-unknown":
				status, detail = "unsup", "solver unknown in assume"
			case "depth":
				status, detail = "steps", "depth"
			default:
				status, detail = "fatal", x.why
			}
		case unsupported:
			status, detail = "unsup", x.msg
			if os.Getenv("GOSYM_STACK") != "" {
				fmt.Fprintln(os.Stderr, x.msg, string(debug.Stack()))
			}
		default:
			status, detail = "unsup", fmt.Sprintf("engine: %v", r)
			if os.Getenv("GOSYM_STACK") != "" {
				fmt.Fprintln(os.Stderr, r, string(debug.Stack()))
			}
		}
	}()
	for _, f := range m.ex.inits {
		m.call(f, nil, nil, nil)
	}
	args := make([]Value, len(m.ex.params))
	for i, p := range m.ex.params {
		args[i] = Value{n: uint64(int64(p))}
	}
	m.call(m.ex.fn, args, nil, nil)
	return "ok", ""
}

// coveredFns lists the repository functions executed symbolically.
func (p *Prog) coveredFns() []string {
	p.mu.RLock()
	defer p.mu.RUnlock()
	set := map[string]bool{}
	for f, n := range p.fns {
		if !n.inRepo || atomic.LoadInt32(&n.covered) == 0 {
			continue
		}
		nm := f.String()
		if o := f.Origin(); o != nil {
			nm = o.String()
		}
		if f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		set[nm] = true
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
