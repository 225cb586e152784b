//go:build go1.21

// C31: the session engine drives any rounds the way its interface says.
package main

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vclock"
)

func main() {
	lib.Run(lib.Config{
		ID: "C31", Level: "model_checking",
		Rule:   "protocols made of recording rounds are driven by the real engine in lockstep with a reference model of the engine: for every choice of message types (so 1 to 5 rounds) and every fault of a round (a message that is refused by its round, a round that cannot finish, none), every order of the peers' messages and every placement of processing steps; with repeated, conflicting, foreign, misaddressed, contentless and unknown messages inserted at every position, and with time passing at every position. After every event: the verdict on the message; the messages returned; that each round was given each of its messages exactly once and none of another round, was then asked for its messages once, and only then followed by its successor; that the first fault ends the session with that error, its culprit and the number of the round, and nothing else is called; that the round is reset exactly once, at the end; Done, IsFinished, Err and WaitForError agree",
		Bounds: "all 16 sets of message types, 1 to 3 parties (with all orders up to 6 messages and all placements of processing; 8 messages: all orders, 11 placements), one fault at any place or two, one insertion at any place (two in the smallest), groups of 9 to 34 in systematic orders",
	}, run)
}

const patience = 10

// shape is a protocol.
type shape struct {
	types []messages.MessageType // of round 1, 2, ...
	ids   party.IDSlice
	self  party.ID

	failGen int // number of the round that cannot finish, or -1
	culprit party.ID
	faulty  map[string]bool // messages their rounds refuse
	timeout time.Duration
}

func (s *shape) String() string {
	out := fmt.Sprintf("types %v, parties %v, self %d", s.types, s.ids, s.self)
	if s.failGen >= 0 {
		out += fmt.Sprintf(", round %d fails with culprit %d", s.failGen, s.culprit)
	}
	if len(s.faulty) > 0 {
		var f []string
		for k := range s.faulty {
			f = append(f, k[:10])
		}
		sort.Strings(f)
		out += fmt.Sprintf(", faulty %v", f)
	}
	return out
}

func (s *shape) peers() []party.ID {
	var out []party.ID
	for _, id := range s.ids {
		if id != s.self {
			out = append(out, id)
		}
	}
	return out
}

func (s *shape) rounds() int { return len(s.types) + 1 }

// ---- messages

// body gives one of several contents of a type.
func body(t messages.MessageType, v int) []byte {
	switch t {
	case messages.MessageTypeKeyGen1:
		return bodies[v]
	case messages.MessageTypeSign1:
		return sim.Cat(sim.BaseEnc(ref.Int(int64(v+2))), sim.BaseEnc(ref.Int(int64(v+7))))
	}
	return ref.LE(ref.Int(int64(v + 1)))
}

var bodies = [2][]byte{
	sim.MakeK1(1, 1, []*big.Int{ref.Int(3), ref.Int(4)})[5:],
	sim.MakeK1(1, 1, []*big.Int{ref.Int(5), ref.Int(6)})[5:],
}

// wire makes a message of a peer for us.
func (s *shape) wire(t messages.MessageType, from, to party.ID, v int) []byte {
	if t != messages.MessageTypeKeyGen2 {
		to = 0
	}
	return sim.Cat([]byte{byte(t), byte(from >> 8), byte(from), byte(to >> 8), byte(to)}, body(t, v))
}

func label(m *messages.Message) string {
	if m == nil {
		return "nil"
	}
	b, err := m.MarshalBinary()
	if err != nil {
		return "unencodable"
	}
	return fmt.Sprintf("%x", b)
}

// ---- recording rounds

type recorder struct {
	*state.BaseRound
	s        *shape
	log      []string
	accepted []messages.MessageType
}

type round struct {
	*recorder
	k int
}

func (r *round) ProcessMessage(m *messages.Message) *state.Error {
	if r.k == 0 {
		return nil // there are none
	}
	l := label(m)
	r.log = append(r.log, fmt.Sprintf("process %d %s", r.k, l))
	if r.s.faulty[l] {
		return state.NewError(m.From, errors.New("message refused"))
	}
	return nil
}

// sent gives the messages a round sends.
func (s *shape) sent(k int) []*messages.Message {
	var out []*messages.Message
	for i := 0; i < (k+1)%3; i++ {
		out = append(out, messages.NewSign2(s.self, sim.Sc(ref.Int(int64(100*k+i+1)))))
	}
	return out
}

func (r *round) GenerateMessages() ([]*messages.Message, *state.Error) {
	r.log = append(r.log, fmt.Sprintf("generate %d", r.k))
	if r.s.failGen == r.k {
		return nil, state.NewError(r.s.culprit, errors.New("round failed"))
	}
	return r.s.sent(r.k), nil
}

func (r *round) NextRound() state.Round {
	r.log = append(r.log, fmt.Sprintf("next %d", r.k))
	if r.k+1 == r.s.rounds() {
		return nil
	}
	return &round{r.recorder, r.k + 1}
}

func (r *round) Reset() { r.log = append(r.log, "reset") }

func (r *round) AcceptedMessageTypes() []messages.MessageType { return r.accepted }

// ---- events

type event struct {
	name string
	b    []byte            // wire message
	m    *messages.Message // or one that has no encoding
	proc bool
	tick int64
}

func (e event) String() string { return e.name }

var process = event{name: "P", proc: true}

func tick(d int64) event { return event{name: fmt.Sprintf("+%d", d), tick: d} }

// ---- the reference

type model struct {
	s        *shape
	k        int
	have     map[messages.MessageType]map[party.ID]string
	done     bool
	culprits map[party.ID]bool // of the error, nil without one
	failedIn int
	now, end int64

	// what the rounds must have seen: alternatives per step
	want []step
}

type step struct {
	text string // exact entry, or
	all  map[string]bool
	some map[string]bool // any part of all with at least one of some
}

func newModel(s *shape) *model {
	m := &model{s: s, have: map[messages.MessageType]map[party.ID]string{}, end: patience}
	for _, t := range s.types {
		m.have[t] = map[party.ID]string{}
	}
	return m
}

type verdict int

const (
	ignore verdict = iota
	accept
	refuse
)

func (m *model) handle(x *messages.Message) verdict {
	switch {
	case m.done:
		return refuse
	case x.From == m.s.self:
		return ignore
	case x.To != 0 && x.To != m.s.self:
		return ignore
	case !m.s.ids.Contains(x.From):
		return refuse
	}
	round := 0
	for i, t := range m.s.types {
		if t == x.Type {
			round = i + 1
		}
	}
	if round == 0 || round < m.k || !x.HasContent() || m.have[x.Type][x.From] != "" {
		return refuse
	}
	m.have[x.Type][x.From] = label(x)
	m.end = m.now + patience
	return accept
}

func (m *model) finish() {
	m.done = true
	m.want = append(m.want, step{text: "reset"})
}

func (m *model) process() (out []*messages.Message) {
	for !m.done {
		if m.k > 0 {
			have := m.have[m.s.types[m.k-1]]
			if len(have) < len(m.s.ids)-1 {
				return out
			}
			all, some := map[string]bool{}, map[string]bool{}
			bad := map[party.ID]bool{}
			for from, l := range have {
				e := fmt.Sprintf("process %d %s", m.k, l)
				all[e] = true
				if m.s.faulty[l] {
					some[e] = true
					bad[from] = true
				}
			}
			if len(all) > 0 {
				m.want = append(m.want, step{all: all, some: some})
			}
			if len(bad) > 0 {
				m.culprits, m.failedIn = bad, m.k
				m.finish()
				return out
			}
		}
		m.want = append(m.want, step{text: fmt.Sprintf("generate %d", m.k)})
		if m.s.failGen == m.k {
			m.culprits, m.failedIn = map[party.ID]bool{m.s.culprit: true}, m.k
			m.finish()
			return out
		}
		out = append(out, m.s.sent(m.k)...)
		m.want = append(m.want, step{text: fmt.Sprintf("next %d", m.k)})
		m.k++
		if m.k == m.s.rounds() {
			m.finish()
		}
	}
	return out
}

func (m *model) pass(d int64) {
	m.now += d
	if m.s.timeout > 0 && !m.done && m.now >= m.end {
		m.culprits, m.failedIn = map[party.ID]bool{0: true}, m.k
		m.finish()
	}
}

// seen checks what the rounds have seen.
func (m *model) seen(log []string) string {
	i := 0
	for _, w := range m.want {
		if w.text != "" {
			if i >= len(log) || log[i] != w.text {
				return fmt.Sprintf("%q is missing", w.text)
			}
			i++
			continue
		}
		got := map[string]bool{}
		fault := false
		for i < len(log) && strings.HasPrefix(log[i], "process") {
			if !w.all[log[i]] {
				return fmt.Sprintf("%q should not be there", log[i])
			}
			if got[log[i]] {
				return fmt.Sprintf("%q is there twice", log[i])
			}
			got[log[i]] = true
			fault = fault || w.some[log[i]]
			i++
		}
		if len(w.some) > 0 {
			if !fault {
				return "no faulty message has been processed"
			}
		} else if len(got) != len(w.all) {
			return "not all messages have been processed"
		}
	}
	if i != len(log) {
		return fmt.Sprintf("%q should not be there", log[i])
	}
	return ""
}

// ---- lockstep

type runner struct {
	c *lib.Ctx
}

func (r *runner) history(s *shape, h []event) {
	c := r.c
	vclock.Reset()
	base, err := state.NewBaseRound(s.self, s.ids)
	if err != nil {
		c.Failf("%s: %v", s, err)
	}
	rec := &recorder{BaseRound: base, s: s}
	rec.accepted = append([]messages.MessageType{messages.MessageTypeNone}, s.types...)
	st, err := state.NewBaseState(&round{rec, 0}, s.timeout)
	if err != nil {
		c.Failf("%s: %v", s, err)
	}
	m := newModel(s)
	for i, e := range h {
		check := func(ok bool, format string, args ...interface{}) {
			if !ok {
				c.Failf("%s: %v, after event %d: %s; the rounds saw %v", s, h, i, fmt.Sprintf(format, args...), short(rec.log))
			}
		}
		switch {
		case e.proc:
			out := st.ProcessAll()
			want := m.process()
			check(len(out) == len(want), "%d messages are returned instead of %d", len(out), len(want))
			for j := range out {
				check(label(out[j]) == label(want[j]), "message %d is %s instead of %s", j, label(out[j]), label(want[j]))
			}
		case e.tick > 0:
			vclock.Advance(e.tick)
			m.pass(e.tick)
		default:
			x := e.m
			if e.b != nil {
				if x, err = sim.Decode(append([]byte(nil), e.b...)); err != nil {
					c.Failf("%s: %s is not decodable: %v", s, e.name, err)
				}
			}
			v := m.handle(x)
			err := st.HandleMessage(x)
			check((err != nil) == (v == refuse), "HandleMessage returns %v (verdict %v)", err, v)
		}
		if bad := m.seen(rec.log); bad != "" {
			check(false, "%s", bad)
		}
		closed := false
		select {
		case <-st.Done():
			closed = true
		default:
		}
		check(st.IsFinished() == m.done && closed == m.done, "finished: %v, done: %v, should be %v", st.IsFinished(), closed, m.done)
		err := st.Err()
		check((err != nil) == (m.culprits != nil), "the error is %v", err)
		if err != nil {
			se, ok := err.(*state.Error)
			check(ok, "the error is a %T", err)
			check(m.culprits[se.PartyID] && se.RoundNumber == m.failedIn, "the error is %v, should be of round %d and blame one of %v", err, m.failedIn, m.culprits)
		}
		if m.done {
			w := st.WaitForError()
			check((w == nil) == (err == nil) && (w == nil || w.Error() == err.Error()), "WaitForError gives %v, Err %v", w, err)
		}
		for j, t := range rec.accepted {
			check(j == 0 && t == 0 || j > 0 && t == s.types[j-1], "the round's list of types has been changed")
		}
		for j, id := range st2ids(base) {
			check(id == s.ids[j], "the round's list of parties has been changed")
		}
		c.Trans(1)
	}
	c.Trace(1)
	c.State(len(h))
	c.Eval(1)
	if m.done {
		c.Distinct(s.String(), fmt.Sprint(m.k, m.culprits))
	}
}

func st2ids(b *state.BaseRound) party.IDSlice { return b.PartyIDs() }

func short(log []string) []string {
	var out []string
	for _, l := range log {
		if len(l) > 22 {
			l = l[:22]
		}
		out = append(out, l)
	}
	return out
}

// ---- enumeration

func kinds() [][]messages.MessageType {
	var out [][]messages.MessageType
	for mask := 0; mask < 16; mask++ {
		var t []messages.MessageType
		for i := 0; i < 4; i++ {
			if mask>>i&1 == 1 {
				t = append(t, messages.MessageType(i+1))
			}
		}
		out = append(out, t)
	}
	return out
}

func (s *shape) genuine() []event {
	var out []event
	for k, t := range s.types {
		for _, p := range s.peers() {
			out = append(out, event{name: fmt.Sprintf("%d/%d", p, k+1), b: s.wire(t, p, s.self, 0)})
		}
	}
	return out
}

// placements gives the positions at which processing takes place; position i is before message i.
func placements(n int, all bool) [][]bool {
	var out [][]bool
	if all {
		for mask := 0; mask < 1<<uint(n+1); mask++ {
			p := make([]bool, n+1)
			for i := range p {
				p[i] = mask>>uint(i)&1 == 1
			}
			out = append(out, p)
		}
		return out
	}
	every, end, even := make([]bool, n+1), make([]bool, n+1), make([]bool, n+1)
	end[n] = true
	for i := range every {
		every[i] = true
		even[i] = i%2 == 0 || i == n
	}
	out = append(out, every, end, even)
	for i := 0; i < n; i++ {
		p := make([]bool, n+1)
		p[i], p[n] = true, true
		out = append(out, p)
	}
	return out
}

func join(ms []event, order []int, place []bool) []event {
	var h []event
	for i, j := range order {
		if place[i] {
			h = append(h, process)
		}
		h = append(h, ms[j])
	}
	if place[len(order)] {
		h = append(h, process)
	}
	return h
}

// faults gives the faults of one place each and pairs of faulty messages.
func (s *shape) faults(two bool) []*shape {
	var out []*shape
	for k := 0; k < s.rounds(); k++ {
		for _, who := range append([]party.ID{0}, s.peers()...) {
			x := *s
			x.failGen, x.culprit = k, who
			out = append(out, &x)
			if who != 0 && !two {
				break
			}
		}
	}
	g := s.genuine()
	for i := range g {
		x := *s
		x.faulty = map[string]bool{fmt.Sprintf("%x", g[i].b): true}
		out = append(out, &x)
		if two {
			for j := 0; j < i; j++ {
				y := *s
				y.faulty = map[string]bool{fmt.Sprintf("%x", g[i].b): true, fmt.Sprintf("%x", g[j].b): true}
				out = append(out, &y)
			}
			y := x
			y.failGen, y.culprit = len(s.types), 0
			out = append(out, &y)
		}
	}
	return out
}

func run(c *lib.Ctx) {
	r := &runner{c}
	for _, ids := range []party.IDSlice{{7}, {1, 2}, {3, 256, 65535}} {
		for _, self := range ids {
			if self != ids[0] && self != ids[len(ids)-1] {
				continue
			}
			for _, types := range kinds() {
				ids, self, types := ids, self, types
				s := &shape{types: types, ids: ids, self: self, failGen: -1}
				n := len(s.genuine())
				if self != ids[0] && n > 4 && c.Quick() {
					continue
				}
				r.orders(s, n)
				r.probes(s, n)
				if vclock.Controlled {
					r.ticks(s, n)
				}
			}
		}
	}
	for _, n := range []int{9, 10, 17, 33, c.Pick(34, 66)} {
		n := n
		for _, types := range kinds() {
			types := types
			c.Case(fmt.Sprintf("%d parties, types %v", n, types), func() { r.big(types, n) })
		}
	}
}

// orders: all orders and placements of processing, with and without faults.
func (r *runner) orders(s *shape, n int) {
	c := r.c
	do := func(x *shape, place [][]bool, first int, byPeer bool) {
		g := x.genuine()
		one := func(order []int) {
			if first >= 0 && order[0] != first {
				return
			}
			for _, p := range place {
				r.history(x, join(g, order, p))
			}
		}
		if byPeer {
			// each peer's messages in their order or backwards
			k := len(x.peers())
			var lens []int
			for i := 0; i < k; i++ {
				lens = append(lens, len(x.types))
			}
			lib.Interleavings(lens, func(turn []int) {
				for back := 0; back < 2; back++ {
					at := make([]int, k)
					var order []int
					for _, p := range turn {
						j := at[p]
						if back == 1 {
							j = len(x.types) - 1 - j
						}
						at[p]++
						order = append(order, j*k+p)
					}
					one(order)
				}
			})
			return
		}
		lib.Perms(n, func(order []int) { one(order) })
	}
	if n == 0 {
		c.Case(s.String(), func() {
			r.history(s, []event{process, process})
			for _, x := range s.faults(true) {
				r.history(x, []event{process, process})
			}
		})
		return
	}
	for f := 0; f < n; f++ {
		f := f
		c.Case(fmt.Sprintf("%s: orders beginning with %d", s, f), func() {
			do(s, placements(n, n <= 6), f, false)
		})
	}
	for i, x := range s.faults(n <= 4 || !c.Quick()) {
		x := x
		c.Case(fmt.Sprintf("%s: orders (%d)", x, i), func() {
			do(x, placements(n, n <= 4), -1, n > 6 || n > 4 && c.Quick())
		})
	}
}

// foreign gives messages that do not belong there.
func (s *shape) foreign() []event {
	var out []event
	wire := func(name string, t messages.MessageType, from, to party.ID, v int) {
		out = append(out, event{name: fmt.Sprintf("%s %d from %d", name, t, from), b: s.wire(t, from, to, v)})
	}
	peers := s.peers()
	for t := messages.MessageTypeKeyGen1; t <= messages.MessageTypeSign2; t++ {
		for _, p := range peers {
			wire("again", t, p, s.self, 0) // a repeat, an early one, or of a type the protocol does not have
			wire("other", t, p, s.self, 1)
			if t == messages.MessageTypeKeyGen2 {
				wire("misaddressed", t, p, 9, 0)
			}
		}
		wire("outsider's", t, 9, s.self, 0)
		wire("own", t, s.self, 10, 0)
		if len(peers) > 0 {
			out = append(out, event{name: fmt.Sprintf("empty %d", t), m: &messages.Message{Header: messages.Header{Type: t, From: peers[0]}}})
		}
	}
	if len(peers) > 0 {
		for _, t := range []messages.MessageType{0, 5, 255} {
			out = append(out, event{name: fmt.Sprintf("unknown %d", t), m: &messages.Message{Header: messages.Header{Type: t, From: peers[0]}}})
		}
		x, _ := sim.Decode(s.wire(messages.MessageTypeSign2, peers[0], s.self, 0))
		x.Type = messages.MessageTypeSign1
		out = append(out, event{name: "content of another type", m: x})
	}
	return out
}

func insert(h []event, i int, e event) []event {
	out := append([]event(nil), h[:i]...)
	out = append(out, e)
	return append(out, h[i:]...)
}

func (r *runner) probes(s *shape, n int) {
	c := r.c
	g := s.genuine()
	f := s.foreign()
	var orders [][]int
	if n <= c.Pick(3, 4) {
		lib.Perms(n, func(o []int) { orders = append(orders, append([]int(nil), o...)) })
	} else {
		var a, b, d []int
		for i := 0; i < n; i++ {
			a, b = append(a, i), append(b, n-1-i)
		}
		for i := 0; i < n; i += 2 {
			d = append(d, i)
		}
		for i := 1; i < n; i += 2 {
			d = append(d, i)
		}
		orders = [][]int{a, b, d}
	}
	for i, o := range orders {
		o := o
		c.Case(fmt.Sprintf("%s: insertions into order %d", s, i), func() {
			for _, p := range placements(n, n <= 2)[:] {
				h := join(g, o, p)
				for at := 0; at <= len(h); at++ {
					for _, x := range f {
						h1 := insert(h, at, x)
						r.history(s, append(h1, process))
						if n > 2 || !p[0] {
							continue
						}
						for at2 := at + 1; at2 <= len(h1); at2++ {
							for _, y := range f {
								r.history(s, append(insert(h1, at2, y), process))
							}
						}
					}
				}
			}
		})
	}
}

func (r *runner) ticks(s *shape, n int) {
	x := *s
	x.timeout = patience
	g := x.genuine()
	var fwd, back []int
	for i := 0; i < n; i++ {
		fwd, back = append(fwd, i), append(back, n-1-i)
	}
	for i, o := range [][]int{fwd, back} {
		o := o
		r.c.Case(fmt.Sprintf("%s: time passing in order %d", s, i), func() {
			var bad event
			if n > 0 {
				bad = event{name: "outsider's", b: x.wire(messages.MessageTypeSign2, 9, x.self, 0)}
			}
			for _, p := range placements(n, n <= 4) {
				h := join(g, o, p)
				for at := 0; at <= len(h); at++ {
					r.history(&x, append(insert(h, at, tick(patience)), process))
					h1 := insert(h, at, tick(patience-1))
					r.history(&x, append(h1, process))
					for at2 := at + 1; at2 <= len(h1); at2++ {
						h2 := insert(h1, at2, tick(patience-1))
						r.history(&x, append(h2, process))
						if n > 0 {
							r.history(&x, append(insert(h2, at2, bad), process))
						}
					}
				}
			}
		})
	}
}

// big runs larger groups in some orders.
func (r *runner) big(types []messages.MessageType, n int) {
	s := &shape{types: types, ids: sim.Spread(n), failGen: -1}
	s.self = s.ids[n/2]
	g := s.genuine()
	k := len(g)
	var fwd, back, peer, last []int
	for i := 0; i < k; i++ {
		fwd, back = append(fwd, i), append(back, k-1-i)
	}
	for p := 0; p < n-1; p++ {
		for j := range types {
			peer = append(peer, j*(n-1)+p)
		}
	}
	for i := 0; i < k; i++ { // the first of each round comes last
		if i%(n-1) != 0 {
			last = append(last, i)
		}
	}
	for i := 0; i < k; i += n - 1 {
		last = append(last, i)
	}
	for _, o := range [][]int{fwd, back, peer, last} {
		places := placements(k, false)[:3]
		if k == 0 {
			places = [][]bool{{true}}
		}
		for _, p := range places {
			h := join(g, o, p)
			r.history(s, append(h, process))
			for i := 0; i < k; i += n/2 + 1 {
				x := *s
				x.faulty = map[string]bool{fmt.Sprintf("%x", g[i].b): true}
				r.history(&x, append(append([]event(nil), h...), process))
			}
			for f := 0; f < s.rounds(); f++ {
				x := *s
				x.failGen = f
				r.history(&x, append(append([]event(nil), h...), process))
			}
			for _, at := range []int{0, len(h) / 2, len(h)} {
				for _, e := range s.foreign()[:20] {
					r.history(s, append(insert(h, at, e), process))
				}
			}
		}
	}
}
