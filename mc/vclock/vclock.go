//go:build go1.21

// Package vclock is the virtual clock the harness drives. In an instrumented build the code under
// test uses it instead of package time.
//
// Its own synchronisation and state are hidden from the race detector, so that using a timer does
// not order the threads that use it (vtime adds the edges a real timer gives).
package vclock

import (
	"sync"

	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vrt"
)

// T is a pending timer.
type T struct {
	When   int64
	Fire   func()
	seq    int
	active bool
	next   *T
}

var (
	mu   sync.Mutex
	now  int64
	seq  int
	list *T // armed timers
	// Spawn, if set, runs a fired callback (as a new thread of the controlled scheduler).
	Spawn func(f func())
)

//go:norace
func lock() { vrt.RaceOff(); mu.Lock() }

//go:norace
func unlock() { mu.Unlock(); vrt.RaceOn() }

// Reset starts a new execution at time 0 without timers.
//
//go:norace
func Reset() {
	lock()
	now, seq, list = 0, 0, nil
	unlock()
}

// Now is the current virtual time in nanoseconds.
//
//go:norace
func Now() int64 {
	lock()
	n := now
	unlock()
	return n
}

//go:norace
func remove(t *T) {
	for p := &list; *p != nil; p = &(*p).next {
		if *p == t {
			*p = t.next
			break
		}
	}
	t.next = nil
	t.active = false
}

// Start arms a timer.
//
//go:norace
func Start(t *T, d int64, fire func()) {
	lock()
	if t.active {
		remove(t)
	}
	if d < 0 {
		d = 0
	}
	t.When = now + d
	t.Fire = fire
	t.seq = seq
	seq++
	t.active = true
	t.next = list
	list = t
	unlock()
}

// Stop disarms a timer and reports whether it was armed.
//
//go:norace
func Stop(t *T) bool {
	lock()
	was := t.active
	remove(t)
	unlock()
	return was
}

// Pending is the number of armed timers.
//
//go:norace
func Pending() int {
	lock()
	n := 0
	for t := list; t != nil; t = t.next {
		n++
	}
	unlock()
	return n
}

// Deadlines returns the times left of the armed timers, in order.
//
//go:norace
func Deadlines() []int64 {
	lock()
	var out []int64
	for t := list; t != nil; t = t.next {
		out = append(out, t.When-now)
	}
	unlock()
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// next removes the earliest timer due by limit.
//
//go:norace
func next(limit int64) func() {
	lock()
	var best *T
	for t := list; t != nil; t = t.next {
		if t.When <= limit && (best == nil || t.When < best.When || t.When == best.When && t.seq < best.seq) {
			best = t
		}
	}
	var f func()
	if best != nil {
		remove(best)
		f = best.Fire
		if best.When > now {
			now = best.When
		}
	}
	unlock()
	return f
}

//go:norace
func limitAfter(d int64) int64 {
	lock()
	l := now + d
	unlock()
	return l
}

//go:norace
func reach(limit int64) {
	lock()
	if now < limit {
		now = limit
	}
	unlock()
}

// Advance moves time forward and runs what falls due, in order.
func Advance(d int64) {
	limit := limitAfter(d)
	for {
		f := next(limit)
		if f == nil {
			break
		}
		run(f)
	}
	reach(limit)
}

// FireNext fires the earliest timer, whatever its time, and reports whether there was one.
func FireNext() bool {
	f := next(1 << 62)
	if f == nil {
		return false
	}
	run(f)
	return true
}

//go:norace
func spawner() func(func()) { return Spawn }

func run(f func()) {
	if s := spawner(); s != nil {
		s(f)
		return
	}
	f()
}
