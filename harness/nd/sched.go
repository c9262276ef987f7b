package nd

import (
	"runtime"
	"strings"
	"unsafe"
)

// Threads of a harness run one at a time; which one continues at a preemption
// point is the solver's choice in the symbolic run and replayed natively.

type thread struct {
	wake  chan struct{}
	ready func() bool
	done  bool
}

var (
	threads  []*thread
	cur      *thread
	abort    any
	inter    int
	interOn  bool
	interOps bool
	sched    []int
	schedPos int
)

// LoadSched installs the schedule of a recorded run.
func LoadSched(s []int) { sched, schedPos = s, 0 }

// Run counts the runs of this process.
var Run int

func resetSched() {
	Run++
	t := &thread{wake: make(chan struct{}, 1)}
	threads, cur, abort = []*thread{t}, t, nil
	interOn, interOps, inter = false, false, 0
	sched, schedPos = nil, 0
}

func pickSched(n int) int {
	if schedPos >= len(sched) || sched[schedPos] >= n {
		panic(Exhausted{"schedule does not match"})
	}
	schedPos++
	return sched[schedPos-1]
}

// Interleave turns on schedule exploration: at most k preemptions, at any
// statement of the code under test.
func Interleave(k int) { inter, interOn, interOps = k, k >= 0, false }

// InterleaveOps is Interleave with preemptions at storage operations only.
func InterleaveOps(k int) { inter, interOn, interOps = k, k >= 0, true }

// Go starts a thread; it runs once another thread blocks, ends or is preempted.
func Go(f func()) {
	t := &thread{wake: make(chan struct{}, 1)}
	threads = append(threads, t)
	go func() {
		Off()
		<-t.wake
		On()
		defer func() {
			r := recover()
			Rel(unsafe.Pointer(t))
			Off()
			t.done = true
			if r != nil {
				abort = r
				cur = threads[0]
				cur.wake <- struct{}{}
				return
			}
			n := pick(t)
			if n == nil {
				abort = "deadlock"
				n = threads[0]
			}
			cur = n
			n.wake <- struct{}{}
		}()
		f()
	}()
}

func pick(t *thread) *thread {
	var rs []*thread
	n, start := len(threads), 0
	for i, x := range threads {
		if x == t {
			start = i
		}
	}
	for k := 1; k <= n; k++ {
		x := threads[(start+k)%n]
		if x != t && !x.done && (x.ready == nil || x.ready()) {
			rs = append(rs, x)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	if interOn && len(rs) > 1 {
		return rs[pickSched(len(rs))]
	}
	return rs[0]
}

func switchTo(t *thread) {
	me := cur
	if me == t {
		return
	}
	cur = t
	Off()
	t.wake <- struct{}{}
	<-me.wake
	On()
	cur = me
	if abort != nil && me == threads[0] {
		a := abort
		abort = nil
		panic(a)
	}
}

// Block suspends the current thread until ready.
func Block(ready func() bool) {
	for !ready() {
		cur.ready = ready
		n := pick(cur)
		if n == nil {
			cur.ready = nil
			panic("deadlock")
		}
		switchTo(n)
	}
	cur.ready = nil
}

// Threads reports whether threads have been started.
func Threads() bool { return len(threads) > 1 }

func point(op bool) {
	if !interOn || inter <= 0 || len(threads) < 2 || interOps && !op {
		return
	}
	var rs []*thread
	for _, x := range threads {
		if x != cur && !x.done && (x.ready == nil || x.ready()) {
			rs = append(rs, x)
		}
	}
	if len(rs) == 0 {
		return
	}
	if k := pickSched(1 + len(rs)); k > 0 {
		inter--
		switchTo(rs[k-1])
	}
}

// P is a preemption point before a statement of the code under test.
func P() {
	if interOn && inter > 0 && !interOps && !inBackend() {
		point(false)
	}
}

// inBackend tells whether the storage backend called the code under test.
func inBackend() bool {
	var pcs [64]uintptr
	fs := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		f, more := fs.Next()
		if strings.HasPrefix(f.Function, "github.com/cockroachdb/pebble.") {
			return true
		}
		if !more {
			return false
		}
	}
}

// Calm turns statements into preemption points or not (symbolic run).
func Calm(on bool) {}

// Op is a preemption point before a storage operation.
func Op() { point(true) }

// Join waits until all other threads have ended.
func Join() {
	me := cur
	Block(func() bool {
		for _, t := range threads {
			if t != me && !t.done {
				return false
			}
		}
		return true
	})
	for _, t := range threads {
		if t != me {
			Acq(unsafe.Pointer(t))
		}
	}
}
