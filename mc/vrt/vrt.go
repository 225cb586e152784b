//go:build go1.21

// Package vrt is the controlled runtime an instrumented build runs on: a cooperative scheduler in
// which exactly one thread runs at a time and every operation on a lock, channel or atomic is a
// scheduling point, and control over map iteration order. Without an active scheduler everything
// behaves natively.
//
// The scheduler's own hand-offs are hidden from the race detector (they run with synchronisation
// events disabled, in norace functions), while the synchronisation of the program under test is
// carried out on real locks and channels as well. The detector therefore sees exactly the
// happens-before edges of the program.
package vrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

type thread struct {
	id      int
	name    string
	wake    chan struct{}
	enabled func() bool
	what    string
	done    bool
	started bool
	f       func()
}

// Point is one decision of the scheduler.
type Point struct {
	Enabled []int // canonical order: running thread first if still enabled, then ascending
	Running bool  // the running thread is still enabled
	Chosen  int   // index into Enabled
}

// Exec is one controlled execution.
type Exec struct {
	Points   []Point
	Trace    []string
	Deadlock bool
	Blocked  []string
	Panics   []string
	Diverged string
	Overrun  bool

	prefix  []int
	threads []*thread
	cur     *thread
	fin     chan struct{}
	over    bool
	limit   int
	join    sync.WaitGroup
}

var active *Exec

// Active reports whether a controlled execution is running.
//
//go:norace
func Active() bool { return active != nil }

//go:norace
func setActive(e *Exec) { active = e }

// Thread is a named body.
type Thread struct {
	Name string
	F    func()
}

// Run executes the threads under the scheduler: it follows prefix and takes choice 0 afterwards.
//
//go:norace
func Run(prefix []int, limit int, threads ...Thread) *Exec {
	e := &Exec{prefix: prefix, fin: make(chan struct{}), limit: limit}
	setActive(e)
	for _, t := range threads {
		e.spawn(t.Name, t.F)
	}
	RaceOff()
	e.schedule(nil)
	<-e.fin
	RaceOn()
	setActive(nil)
	e.join.Wait() // joining the threads is a real synchronisation
	return e
}

//go:norace
func (e *Exec) spawn(name string, f func()) *thread {
	t := &thread{id: len(e.threads), name: name, wake: make(chan struct{}, 1), what: "start", f: f}
	t.enabled = func() bool { return true }
	e.threads = append(e.threads, t)
	e.join.Add(1)
	go body(e, t)
	return t
}

//go:norace
func body(e *Exec, t *thread) {
	RaceOff()
	<-t.wake
	RaceOn()
	if !e.isOver() {
		callBody(e, t)
	}
	defer e.join.Done()
	RaceOff()
	t.done = true
	if !e.isOver() {
		e.schedule(t)
	}
	RaceOn()
}

//go:norace
func (e *Exec) isOver() bool { return e.over }

type abandoned struct{}

func callBody(e *Exec, t *thread) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abandoned); ok {
				return
			}
			e.addPanic(fmt.Sprintf("thread %s: panic: %v\n%s", t.name, r, debug.Stack()))
		}
	}()
	t.f()
}

//go:norace
func (e *Exec) addPanic(s string) { e.Panics = append(e.Panics, s) }

// schedule picks the next thread; self is the thread giving up control (nil at the start). It
// returns when self may run again. Called with race events off.
//
//go:norace
func (e *Exec) schedule(self *thread) {
	var en []*thread
	running := false
	if self != nil && !self.done && self.enabled() {
		en = append(en, self)
		running = true
	}
	alive := 0
	for _, t := range e.threads {
		if t.done {
			continue
		}
		alive++
		if t != self && t.enabled() {
			en = append(en, t)
		}
	}
	if alive == 0 {
		e.end()
		return
	}
	if len(en) == 0 {
		e.Deadlock = true
		for _, t := range e.threads {
			if !t.done {
				e.Blocked = append(e.Blocked, t.name+" at "+t.what)
			}
		}
		e.end()
		e.park(self)
		return
	}
	n := len(e.Points)
	c := 0
	if n < len(e.prefix) {
		c = e.prefix[n]
		if c >= len(en) {
			e.Diverged = fmt.Sprintf("point %d: choice %d of %d", n, c, len(en))
			e.end()
			e.park(self)
			return
		}
	}
	if n >= e.limit {
		e.Overrun = true
		e.end()
		e.park(self)
		return
	}
	p := Point{Running: running, Chosen: c}
	for _, t := range en {
		p.Enabled = append(p.Enabled, t.id)
	}
	e.Points = append(e.Points, p)
	next := en[c]
	e.Trace = append(e.Trace, next.name+": "+next.what)
	e.cur = next
	if next == self {
		return
	}
	next.wake <- struct{}{}
	if self != nil && !self.done {
		<-self.wake
		if e.over {
			e.abandon()
		}
	}
}

//go:norace
func (e *Exec) end() {
	if !e.over {
		e.over = true
		close(e.fin)
	}
}

// park abandons a thread of an execution that has ended early.
//
//go:norace
func (e *Exec) park(self *thread) {
	for _, t := range e.threads {
		if t != self && !t.done {
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
	}
	if self != nil && !self.done {
		e.abandon()
	}
}

//go:norace
func (e *Exec) abandon() {
	RaceOn()
	panic(abandoned{})
}

// Block is a scheduling point: the calling thread continues once it is chosen, which is possible
// only while ok() holds.
//
//go:norace
func Block(what string, ok func() bool) {
	e := active
	if e == nil || e.over {
		return
	}
	RaceOff()
	t := e.cur
	t.enabled = ok
	t.what = what
	e.schedule(t)
	RaceOn()
}

func always() bool { return true }

// Yield is a scheduling point that is always enabled.
func Yield(what string) { Block(what, always) }

// Go starts a thread.
//
//go:norace
func Go(f func()) {
	e := active
	if e == nil || e.over {
		atomic.AddInt64(&native, 1)
		go func() {
			defer atomic.AddInt64(&native, -1)
			f()
		}()
		return
	}
	e.spawn(fmt.Sprintf("go%d", len(e.threads)), f)
	Yield("after go")
}

var native int64

// Settle lets the goroutines the code under test has started outside controlled executions come to
// rest.
func Settle() {
	for i := 0; i < 100 && atomic.LoadInt64(&native) > 0; i++ {
		if i < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

// ---- channels

// closedChan is a list (maps tell the race detector about their accesses) of the channels closed
// in this execution; it also keeps them alive so that addresses are not reused.
type closedChan struct {
	p    uintptr
	c    interface{}
	next *closedChan
}

var closed *closedChan

//go:norace
func isClosed(c uintptr) bool {
	for x := closed; x != nil; x = x.next {
		if x.p == c {
			return true
		}
	}
	return false
}

// ForgetChannels is called between executions.
func ForgetChannels() { closed = nil }

//go:norace
func markClosed(p uintptr, c interface{}) { closed = &closedChan{p, c, closed} }

type chanState struct {
	len, cap func() int
	try      func() (reflect.Value, bool)
	p        uintptr
	send     bool
}

//go:norace
func (s *chanState) ok() bool {
	if s.p == 0 {
		return false
	}
	if s.send {
		return s.len() < s.cap() || isClosed(s.p)
	}
	if s.len() > 0 || isClosed(s.p) {
		return true
	}
	// It may have been closed outside of a controlled execution. Nobody can be sending.
	v, _ := s.try()
	return v.IsValid()
}

func state(v reflect.Value, send bool) *chanState {
	s := &chanState{send: send}
	if v.Kind() == reflect.Chan && !v.IsNil() {
		s.p, s.len, s.cap, s.try = v.Pointer(), v.Len, v.Cap, v.TryRecv
	}
	return s
}

type anyOf struct {
	st  [16]*chanState
	n   int
	def bool
}

//go:norace
func (a *anyOf) ok() bool {
	for i := 0; i < a.n; i++ {
		if a.st[i].ok() {
			return true
		}
	}
	return a.def
}

// Close closes a channel.
func Close[C ~chan T | ~chan<- T, T any](c C) {
	if Active() {
		Yield("close")
		v := reflect.ValueOf(c)
		if v.Pointer() != 0 {
			markClosed(v.Pointer(), c)
		}
	}
	switch x := any(c).(type) {
	case chan T:
		close(x)
	case chan<- T:
		close(x)
	default:
		reflect.ValueOf(c).Close()
	}
}

// Recv receives.
func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2[C, T](c)
	return v
}

func asRecv[C ~chan T | ~<-chan T, T any](c C) <-chan T {
	return reflect.ValueOf(c).Convert(reflect.TypeOf((<-chan T)(nil))).Interface().(<-chan T)
}

func asSend[C ~chan T | ~chan<- T, T any](c C) chan<- T {
	return reflect.ValueOf(c).Convert(reflect.TypeOf((chan<- T)(nil))).Interface().(chan<- T)
}

// Recv2 receives with the ok flag.
func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	r := asRecv[C, T](c)
	if Active() {
		Block("receive", state(reflect.ValueOf(r), false).ok)
	}
	v, ok := <-r
	return v, ok
}

// Send sends. Unbuffered channels are supported only with an uncontrolled receiver.
func Send[C ~chan T | ~chan<- T, T any](c C, v T) {
	s := asSend[C, T](c)
	if Active() {
		Block("send", state(reflect.ValueOf(s), true).ok)
	}
	s <- v
}

// Case of a select.
type Case struct {
	ch   reflect.Value
	send bool
	val  reflect.Value
	st   *chanState
}

// RecvCase and SendCase build select cases.
func RecvCase(c interface{}) Case {
	v := reflect.ValueOf(c)
	return Case{ch: v, st: state(v, false)}
}

func SendCase[C ~chan T | ~chan<- T, T any](c C, x T) Case {
	v := reflect.ValueOf(c)
	val := reflect.New(reflect.TypeOf((*T)(nil)).Elem()).Elem()
	if rv := reflect.ValueOf(x); rv.IsValid() {
		val.Set(rv)
	}
	return Case{ch: v, send: true, val: val, st: state(v, true)}
}

// Select performs a select; index -1 means default.
func Select(def bool, cases ...Case) (int, interface{}, bool) {
	if !Active() {
		var sc []reflect.SelectCase
		for _, c := range cases {
			if c.send {
				sc = append(sc, reflect.SelectCase{Dir: reflect.SelectSend, Chan: c.ch, Send: c.val})
			} else {
				sc = append(sc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: c.ch})
			}
		}
		if def {
			sc = append(sc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(sc)
		if i == len(cases) {
			return -1, nil, false
		}
		if v.IsValid() {
			return i, v.Interface(), ok
		}
		return i, nil, ok
	}
	any := &anyOf{def: def}
	for _, c := range cases {
		any.st[any.n] = c.st
		any.n++
	}
	Block("select", any.ok)
	for i, c := range cases {
		if c.st.ok() {
			if c.send {
				c.ch.Send(c.val)
				return i, nil, false
			}
			v, ok := c.ch.Recv()
			return i, v.Interface(), ok
		}
	}
	return -1, nil, false
}

// As converts a received value.
func As[C ~chan T | ~<-chan T, T any](c C, v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// ---- maps

var perm int

// SetPerm chooses the order in which maps are iterated: permutation number k (modulo the number of
// permutations) of the sorted keys.
func SetPerm(k int) { perm = k }

// Perm is the current choice.
func Perm() int { return perm }

//go:norace
func getPerm() int { return perm }

// It iterates over a map in the chosen order.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// Next moves on; entries deleted meanwhile are skipped.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		if x, ok := it.m[key]; ok {
			if k != nil {
				*k = key
			}
			if v != nil {
				*v = x
			}
			return true
		}
	}
	return false
}

func (it *It[K, V]) NextK(k *K) bool { return it.Next(k, nil) }
func (it *It[K, V]) NextV(v *V) bool { return it.Next(nil, v) }
func (it *It[K, V]) Next0() bool     { return it.Next(nil, nil) }

// Iter makes an iterator.
func Iter[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	it := &It[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.Slice(it.keys, func(i, j int) bool { return less(reflect.ValueOf(it.keys[i]), reflect.ValueOf(it.keys[j])) })
	permute(it.keys, getPerm())
	return it
}

// Range2, Range1, RangeV return zero loop variables with the iterator.
func Range2[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *It[K, V]) { it = Iter(m); return }
func Range1[M ~map[K]V, K comparable, V any](m M) (k K, it *It[K, V])      { it = Iter(m); return }
func RangeV[M ~map[K]V, K comparable, V any](m M) (v V, it *It[K, V])      { it = Iter(m); return }

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.String:
		return a.String() < b.String()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// permute applies permutation number k of len(s) elements (Lehmer code).
func permute[K any](s []K, k int) {
	for i := 0; i+1 < len(s); i++ {
		n := len(s) - i
		j := k % n
		k /= n
		x := s[i+j]
		copy(s[i+1:i+j+1], s[i:i+j])
		s[i] = x
	}
}
