// Package nd is the interface between harnesses and their two executions:
// symbolic (every function below is interpreted by the engine) and native
// (values come from a recorded vector).
package nd

import (
	"fmt"
	"time"
)

// Val is one recorded nondeterministic value.
type Val struct {
	Kind string   `json:"k"`
	V    []uint64 `json:"v"`
}

// Obs is one observation.
type Obs struct {
	Label string `json:"l"`
	B     []int  `json:"b"`
}

// Failure is raised by a failed assertion.
type Failure struct{ Label string }

// AssumeFailed is raised when a recorded run violates an assumption.
type AssumeFailed struct{}

// Exhausted is raised when the vector does not match the harness.
type Exhausted struct{ Why string }

var (
	vec  []Val
	pos  int
	Seen []Obs
)

// Load installs a vector for a native run.
func Load(v []Val) {
	vec, pos, Seen = v, 0, nil
	clockQ, clockOn = nil, false
	PoolPut, PoolGot = nil, nil
	resetSched()
}

func next(kind string) Val {
	if pos >= len(vec) {
		panic(Exhausted{"vector exhausted at " + kind})
	}
	v := vec[pos]
	pos++
	if v.Kind != kind {
		panic(Exhausted{fmt.Sprintf("vector has %s, harness wants %s", v.Kind, kind)})
	}
	return v
}

func U8() uint8   { return uint8(next("U8").V[0]) }
func U16() uint16 { return uint16(next("U16").V[0]) }
func U32() uint32 { return uint32(next("U32").V[0]) }
func U64() uint64 { return next("U64").V[0] }
func I8() int8    { return int8(next("I8").V[0]) }
func I16() int16  { return int16(next("I16").V[0]) }
func I32() int32  { return int32(next("I32").V[0]) }
func I64() int64  { return int64(next("I64").V[0]) }
func Bool() bool  { return next("Bool").V[0] != 0 }

// Bytes returns n arbitrary bytes.
func Bytes(n int) []byte {
	v := next("Bytes").V
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v[i])
	}
	return b
}

// Str returns a string of n arbitrary bytes.
func Str(n int) string { return string(Bytes(n)) }

// Choose returns a value in [0,n); every value is explored.
func Choose(n int) int { return int(next("Choose").V[0]) }

// Assume restricts the runs considered.
func Assume(b bool) {
	if !b {
		panic(AssumeFailed{})
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		panic(Failure{label})
	}
}

// And is a conjunction that does not split paths.
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

// Or is a disjunction that does not split paths.
func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

// Iff is an equivalence that does not split paths.
func Iff(a, b bool) bool { return a == b }

// IteU64 selects without splitting paths.
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// Concrete splits paths over the feasible values of x.
func Concrete(x uint64) uint64 { return x }

// Reach marks a reachability witness.
func Reach(label string) {}

// Observe records bytes compared between the symbolic and the native run.
func Observe(label string, b []byte) {
	o := Obs{Label: label, B: []int{}}
	for _, x := range b {
		o.B = append(o.B, int(x))
	}
	Seen = append(Seen, o)
}

// ObserveU records an integer.
func ObserveU(label string, u uint64) {
	o := Obs{Label: label}
	for i := 7; i >= 0; i-- {
		o.B = append(o.B, int(u>>uint(8*i)&0xff))
	}
	Seen = append(Seen, o)
}

// IsSymbolic tells the two executions apart.
func IsSymbolic() bool { return false }

// UF is one recorded value of an uninterpreted function.
type UF struct {
	Name string `json:"n"`
	Args []int  `json:"a"`
	V    uint64 `json:"v"`
}

var ufs map[string]uint64

// LoadUF installs the function values of a recorded run.
func LoadUF(l []UF) {
	ufs = map[string]uint64{}
	for _, u := range l {
		b := make([]byte, len(u.Args))
		for i, x := range u.Args {
			b[i] = byte(x)
		}
		ufs[u.Name+"/"+string(b)] = u.V
	}
}

// UF64 is an arbitrary function of its bytes.
func UF64(name string, args []byte) uint64 { return ufs[name+"/"+string(args)] }

// ---- clock seam ----

var (
	clockQ    []int64
	clockOn   bool
	clockLast int64
)

// PushClock makes the next calls of Now return these Unix seconds; the last one
// is repeated.
func PushClock(secs ...int64) {
	clockOn = true
	clockQ = append(clockQ, secs...)
}

// Now replaces time.Now in the code under test.
func Now() time.Time {
	if clockOn {
		if len(clockQ) > 0 {
			clockLast = clockQ[0]
			clockQ = clockQ[1:]
		}
		return time.Unix(clockLast, 0)
	}
	return time.Unix(1700000000+int64(Run)*1000, 0)
}

// PoolPut and PoolGot observe the pools of the code under test.
var PoolPut, PoolGot func(v any)

// WatchPools calls put with what is put into a pool and got with what is taken.
func WatchPools(put, got func(v any)) { PoolPut, PoolGot = put, got }
