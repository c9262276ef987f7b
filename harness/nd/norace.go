//go:build !race

package nd

import "unsafe"

// Off and On, Acq and Rel: see race.go.
func Off() {}
func On()  {}

func Acq(p unsafe.Pointer) {}
func Rel(p unsafe.Pointer) {}
