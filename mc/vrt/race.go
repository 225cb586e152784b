//go:build race && go1.21

package vrt

import (
	"runtime"
	"unsafe"
)

// Raced reports whether the race detector is on.
const Raced = true

func RaceOff()   { runtime.RaceDisable() }
func RaceOn()    { runtime.RaceEnable() }
func Races() int { return runtime.RaceErrors() }

// Release and Acquire are the two ends of a happens-before edge.
func Release(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func Acquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }
