//go:build go1.21

// Package vtime stands in for package time in an instrumented build: timers run on the virtual
// clock of the harness.
package vtime

import (
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vclock"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vrt"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
)

var (
	UTC           = time.UTC
	Local         = time.Local
	Unix          = time.Unix
	UnixMilli     = time.UnixMilli
	Date          = time.Date
	Parse         = time.Parse
	ParseDuration = time.ParseDuration
	epoch         = time.Unix(1700000000, 0)
)

func Now() Time             { return epoch.Add(time.Duration(vclock.Now())) }
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration) {
	if !vrt.Active() {
		vclock.Advance(int64(d))
		return
	}
	vrt.Recv(After(d))
}

// Timer is a virtual timer.
type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	t  vclock.T
	hb byte
}

func (t *Timer) fire() {
	vrt.Acquire(&t.hb) // the call that armed the timer happens before it fires
	if t.f != nil {
		t.f()
		return
	}
	select {
	case t.c <- Now():
	default:
	}
}

func (t *Timer) start(d Duration) {
	vrt.Release(&t.hb)
	vclock.Start(&t.t, int64(d), t.fire)
}

// AfterFunc runs f when the time has passed.
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	if vrt.Active() {
		vrt.Yield("timer started")
	}
	return t
}

// NewTimer makes a timer with a channel.
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

// After returns a channel.
func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if vrt.Active() {
		vrt.Yield("timer stop")
	}
	was := vclock.Stop(&t.t)
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return was
}

func (t *Timer) Reset(d Duration) bool {
	if vrt.Active() {
		vrt.Yield("timer reset")
	}
	was := vclock.Stop(&t.t)
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	t.start(d)
	return was
}

// Ticker is a virtual ticker.
type Ticker struct {
	C <-chan Time
	c chan Time
	d Duration
	t vclock.T
}

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	vclock.Start(&t.t, int64(d), t.fire)
	return t
}

func (t *Ticker) fire() {
	select {
	case t.c <- Now():
	default:
	}
	vclock.Start(&t.t, int64(t.d), t.fire)
}

func (t *Ticker) Stop()            { vclock.Stop(&t.t) }
func (t *Ticker) Reset(d Duration) { vclock.Stop(&t.t); t.d = d; vclock.Start(&t.t, int64(d), t.fire) }
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
