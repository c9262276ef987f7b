// Package h holds the harnesses. They use only exported API of bond.
package h

// Registry maps harness names to functions for native replay.
var Registry = map[string]any{}

var cleanups []func()

// Cleanup releases what a native run opened.
func Cleanup() {
	for i := len(cleanups) - 1; i >= 0; i-- {
		func() {
			defer func() { recover() }()
			cleanups[i]()
		}()
	}
	cleanups = nil
}
