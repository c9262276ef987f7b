// Package env is the state shared by the harnesses, the symbolic environment
// models and the hooks that native replays put around the real backend.
package env

import (
	"errors"

	"github.com/go-bond/bond/zzverif/nd"
)

// ErrInjected is what a failing backend operation returns.
var ErrInjected = errors.New("injected backend fault")

var (
	armed    bool
	failAt   int
	count    int
	onlyOps  string
	fired    bool
	firedOp  string
	countAll int

	crashOn bool
	crashAt int
	crashed bool
	freeze  func()

	lending bool
	lent    [][]byte
)

// Reset clears everything (start of a run).
func Reset() {
	armed, failAt, count, fired, firedOp, countAll, onlyOps = false, 0, 0, false, "", 0, ""
	crashOn, crashAt, crashed, freeze = false, 0, false, nil
	lending, lent = false, nil
}

// Arm makes the n-th (from 0) backend operation from now fail. ops restricts
// the kinds counted: r = reads, w = writes, empty = all.
func Arm(n int, ops string) {
	armed, failAt, count, fired, firedOp, onlyOps = true, n, 0, false, "", ops
}

// Disarm ends fault injection and tells whether the fault was delivered.
func Disarm() bool { armed = false; return fired }

// FiredOp is the operation that failed.
func FiredOp() string { return firedOp }

// ArmCrash freezes the durable state when the n-th write operation starts.
func ArmCrash(n int, f func()) { crashOn, crashAt, crashed, freeze = true, n, false, f }

// Crashed tells whether the crash point was reached.
func Crashed() bool { return crashed }

// DisarmCrash stops counting.
func DisarmCrash() { crashOn = false }

// Fault is called at the start of every backend operation.
func Fault(op string) error {
	nd.Op()
	countAll++
	w := op == "set" || op == "delete" || op == "deleterange" || op == "commit" || op == "ingest" || op == "apply"
	if crashOn && w && !crashed {
		if crashAt == 0 {
			crashed = true
			freeze()
		} else {
			crashAt--
		}
	}
	if !armed || fired {
		return nil
	}
	if onlyOps == "r" && w || onlyOps == "w" && !w {
		return nil
	}
	if count == failAt {
		fired = true
		firedOp = op
		return ErrInjected
	}
	count++
	return nil
}

// Lending starts recording the buffers that the backend hands out.
func Lending() { lending = true }

// Lend is called with every key and value that the backend hands out.
func Lend(b []byte) {
	if lending && len(b) > 0 {
		lent = append(lent, b)
	}
}

// Lent tells whether b is memory of the backend.
func Lent(b []byte) bool {
	if cap(b) == 0 {
		return false
	}
	p := &b[:1][0]
	for _, x := range lent {
		for i := range x {
			if p == &x[i] {
				return true
			}
		}
	}
	return false
}
