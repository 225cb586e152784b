//go:build go1.21

// C13: sessions are safe for concurrent use.
//
// Every case is a set of short programs (calls on one session, and clock steps). All schedules of
// the real code up to a preemption bound are executed under the controlled scheduler with the race
// detector on. The results must be those of running the same calls one at a time in some order that
// respects real time: all such orders are executed as well, on a fresh session.
package main

import (
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vclock"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vrt"
)

func main() {
	lib.Run(lib.Config{
		ID: "C13", Level: "model_checking",
		Rule:   "a case is a stage of a session and a program of calls for each of 2 to 5 goroutines (HandleMessage of expected, repeated, conflicting, early, faulty messages; ProcessAll; Err; IsFinished; Done; WaitForError; a clock step that makes the timeout due; creation); a depth-first search over scheduler choices executes every schedule up to the preemption bound, each operation on a lock, channel, atomic or timer being a scheduling point, with the race detector on; the results, including everything a sequential continuation of the session shows, must equal those of some sequential execution of the same calls on the real code whose order respects real time",
		Bounds: "quick: programs of lengths (2,1) over the whole alphabet plus a waiter at 8 stages of a session driven by a recording round, 3 parties and 5 goroutines for selected programs, both real protocols for selected programs, 2 preemptions; thorough: lengths (2,2) and (1,1,1), 3 preemptions",
		Assumptions: []string{
			"between two scheduling points a thread runs alone; this loses nothing as long as there are no data races, and data races are reported",
			"which of several ready cases of a select is taken, and weak-memory effects of racy programs, are not explored",
			"happens-before edges through pools of the standard library (fmt) may hide a race between the calls that use them",
		},
		HangSeconds: 60,
	}, run)
}

// ---- the session under test

const T = 10 * time.Nanosecond

type inst struct {
	st   *state.State
	msgs map[byte]*messages.Message
	out  func() string
	more string // continuation
	mk   func()
}

type subject struct {
	name    string
	timeout time.Duration
	make    func(timeout time.Duration) *inst
	more    string
}

var flatData = rnd.Bytes("c13", 1<<14)

// toy is a round that records what happens to it, without any synchronisation.
type toy struct {
	*state.BaseRound
	o   *toyOut
	bad *messages.Message // refused by the round
	alt *messages.Message
}

type toyOut struct {
	events []string
	secret int
	Result string
}

func (t *toy) step(s string) { t.o.events = append(t.o.events, s); t.o.secret++ }

type toy0 struct{ *toy }
type toy1 struct{ *toy0 }
type toy2 struct{ *toy1 }

func (t *toy) reply(n int) []*messages.Message {
	return []*messages.Message{{Header: messages.Header{Type: messages.MessageTypeSign1, From: t.SelfID(), To: party.ID(n)}}}
}
func (t *toy0) AcceptedMessageTypes() []messages.MessageType {
	return []messages.MessageType{messages.MessageTypeNone, messages.MessageTypeSign1, messages.MessageTypeSign2}
}
func (t *toy0) Reset()                 { t.step("reset"); t.o.secret = 0 }
func (t *toy0) NextRound() state.Round { t.step("next0"); return &toy1{t} }
func (t *toy1) NextRound() state.Round { t.step("next1"); return &toy2{t} }
func (t *toy2) NextRound() state.Round { t.step("next2"); return nil }
func (t *toy0) GenerateMessages() ([]*messages.Message, *state.Error) {
	t.step("gen0")
	return t.reply(100), nil
}
func (t *toy1) GenerateMessages() ([]*messages.Message, *state.Error) {
	t.step("gen1")
	return append(t.reply(101), t.reply(102)...), nil
}
func (t *toy2) GenerateMessages() ([]*messages.Message, *state.Error) {
	t.step("gen2")
	t.o.Result = fmt.Sprint("result of ", t.o.secret)
	return nil, nil
}
func (t *toy0) ProcessMessage(m *messages.Message) *state.Error { return t.take(0, m) }
func (t *toy1) ProcessMessage(m *messages.Message) *state.Error { return t.take(1, m) }
func (t *toy2) ProcessMessage(m *messages.Message) *state.Error { return t.take(2, m) }
func (t *toy) take(n int, m *messages.Message) *state.Error {
	if m == nil {
		return nil
	}
	t.step(fmt.Sprint("take ", n, m.From, m.Type, m == t.bad || m == t.alt))
	if m == t.bad {
		return state.NewError(m.From, fmt.Errorf("bad message"))
	}
	return nil
}

var signMsgs map[string][]byte

func toyMsgs(n int) map[byte]*messages.Message {
	if signMsgs == nil {
		signMsgs = map[string][]byte{}
		k := sim.Deal([]party.ID{1, 2, 3}, 1, "c13")
		w := sim.SignWorld(k, []party.ID{1, 2, 3}, []byte("m"), "c13toy")
		signMsgs["A"], signMsgs["B"] = w.First(2), w.First(3)
		signMsgs["X"], signMsgs["Y"] = w.Second(2, 1), w.Second(3, 1)
		signMsgs["a"], signMsgs["x"] = w.AltFirst(2), w.WrongSecond(2, 1, 1)
	}
	if toyDecoded[n] == nil {
		toyDecoded[n] = decode(signMsgs, n)
	}
	return toyDecoded[n]
}

var toyDecoded = map[int]map[byte]*messages.Message{}

func decode(in map[string][]byte, n int) map[byte]*messages.Message {
	out := map[byte]*messages.Message{}
	for k, b := range in {
		if n == 2 && (k == "B" || k == "Y") {
			continue
		}
		m, err := sim.Decode(b)
		if err != nil {
			panic(err)
		}
		out[k[0]] = m
	}
	return out
}

func toySubject(n int, timeout time.Duration) *subject {
	s := &subject{name: fmt.Sprintf("recording round, %d parties", n), timeout: timeout, more: "PAPXP"}
	if n == 3 {
		s.more = "PABPXYP"
	}
	s.make = func(d time.Duration) *inst {
		in := &inst{msgs: toyMsgs(n)}
		o := &toyOut{}
		in.mk = func() {
			b, err := state.NewBaseRound(1, sim.Seq(n))
			if err != nil {
				panic(err)
			}
			st, err := state.NewBaseState(&toy0{&toy{b, o, in.msgs['x'], in.msgs['a']}}, d)
			if err != nil {
				panic(err)
			}
			in.st = st
		}
		in.out = func() string { return fmt.Sprint(o.events, o.Result) }
		return in
	}
	return s
}

func realSubject(w *sim.World, self party.ID, timeout time.Duration) *subject {
	var raw map[string][]byte
	s := &subject{name: fmt.Sprintf("%s party %d", w.Name, self), timeout: timeout, more: "PAPXP"}
	if len(w.IDs) == 3 {
		s.more = "PABPXYP"
	}
	s.make = func(d time.Duration) *inst {
		if raw == nil {
			raw = map[string][]byte{}
			first, second := "AB", "XY"
			i := 0
			for _, j := range w.IDs {
				if j == self {
					continue
				}
				raw[first[i:i+1]], raw[second[i:i+1]] = w.First(j), w.Second(j, self)
				if i == 0 {
					raw["a"], raw["x"] = w.AltFirst(j), w.WrongSecond(j, self, 1)
				}
				i++
			}
		}
		in := &inst{msgs: decode(raw, len(w.IDs))}
		p := w.Proto(self, d)
		label := p.Label
		rand.Reader = &sim.Flat{Data: rnd.Bytes(fmt.Sprintf("%s/%d", label, self), 4096)}
		var s *sim.Sess
		in.mk = func() {
			s = p.New()
			in.st = s.St
		}
		in.out = func() string { return s.OutKey() }
		return in
	}
	return s
}

// ---- execution

type program string

type scenario struct {
	s     *subject
	setup string
	progs []program
	bound int
	name  string
}

type opRef struct{ th, k int }

// record of one execution
type record struct {
	res        [][]string
	start, end [][]int
	clock      int
	firing     int
	final      string
}

func newRecord(progs []program) *record {
	r := &record{}
	for _, p := range progs {
		r.res = append(r.res, make([]string, len(p)))
		r.start = append(r.start, make([]int, len(p)))
		r.end = append(r.end, make([]int, len(p)))
	}
	return r
}

//go:norace
func (r *record) begin(t, k int) { r.clock++; r.start[t][k] = r.clock }

//go:norace
func (r *record) finish(t, k int) { r.clock++; r.end[t][k] = r.clock }

//go:norace
func (r *record) set(t, k int, s string) { r.res[t][k] = s }

func errText(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

func show(ms []*messages.Message) string {
	var out []string
	for _, m := range ms {
		b, err := m.MarshalBinary()
		if err != nil {
			b = []byte{byte(m.Type), byte(m.From), byte(m.To)}
		}
		out = append(out, hex.EncodeToString(b))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// do performs one call and returns what the caller sees.
func (in *inst) do(op byte) string {
	switch op {
	case 'P':
		return show(in.st.ProcessAll())
	case 'E':
		return errText(in.st.Err())
	case 'F':
		return fmt.Sprint(in.st.IsFinished())
	case 'D':
		select {
		case <-in.st.Done():
			return in.ended(in.st.Err())
		default:
			return "open"
		}
	case 'W':
		return in.ended(in.st.WaitForError())
	case 'C':
		in.mk()
		return "created"
	case 'T', 't':
		vclock.Advance(1)
		return ""
	case 'L': // long enough for any timeout
		vclock.Advance(int64(T))
		return ""
	}
	if m := in.msgs[op]; m != nil {
		return errText(in.st.HandleMessage(m))
	}
	panic("unknown operation " + string(op))
}

func (in *inst) ended(err error) string {
	if err != nil {
		return "ended: " + err.Error()
	}
	return "ended: " + in.out()
}

// start makes a session and performs the setup.
func (sc *scenario) start() *inst {
	vclock.Reset()
	vclock.Spawn = nil
	vrt.ForgetChannels()
	rand.Reader = &sim.Flat{Data: flatData}
	in := sc.s.make(sc.s.timeout)
	if !strings.HasPrefix(sc.setup, "-") {
		in.mk()
		if sc.s.timeout > 1 {
			vclock.Advance(int64(sc.s.timeout) - 1)
		}
	}
	for _, op := range strings.TrimPrefix(sc.setup, "-") {
		in.do(byte(op))
	}
	return in
}

// conclude shows everything a sequential continuation can see.
func (sc *scenario) conclude(in *inst) string {
	var out []string
	for _, op := range "EF" + sc.s.more + "EFD" {
		out = append(out, in.do(byte(op)))
	}
	return strings.Join(out, "|") + "|" + in.out()
}

const limit = 4000

// finally runs the continuation; it must not block.
func (sc *scenario) finally(in *inst) (string, string) {
	vclock.Spawn = nil
	var s string
	e := vrt.Run(nil, limit, vrt.Thread{Name: "continuation", F: func() { s = sc.conclude(in) }})
	if bad := sim.Problem(e); bad != "" {
		return "", "afterwards: " + bad
	}
	return s, ""
}

// key of an execution without the calls in pend (bit set of operations that never returned).
func (sc *scenario) key(r *record, pending bool) string {
	var b strings.Builder
	for t, p := range sc.progs {
		for k := range p {
			if pending && p[k] == 'W' {
				b.WriteString("pending;")
			} else {
				b.WriteString(r.res[t][k])
				b.WriteByte(';')
			}
		}
		b.WriteByte('\n')
	}
	return b.String() + r.final
}

// ---- sequential executions

type spec struct {
	orders map[string][][]opRef // outcome -> orders that give it
	n      int
}

// sequential runs every order of the calls.
func (sc *scenario) sequential(c *lib.Ctx) *spec {
	sp := &spec{orders: map[string][][]opRef{}}
	for _, pending := range []bool{false, true} {
		waits := 0
		for _, p := range sc.progs {
			waits += strings.Count(string(p), "W")
		}
		if pending && waits == 0 {
			break
		}
		next := make([]int, len(sc.progs))
		var order []opRef
		var rec func()
		rec = func() {
			done := true
			for t, p := range sc.progs {
				if next[t] == len(p) || pending && p[next[t]] == 'W' {
					continue
				}
				done = false
				order = append(order, opRef{t, next[t]})
				next[t]++
				rec()
				next[t]--
				order = order[:len(order)-1]
			}
			if !done {
				return
			}
			r, ok, bad := sc.runOrder(order)
			c.Beat()
			c.Check(bad == "", "%s: executing the calls one at a time as %s: %s", sc.name, sc.showOrder(order), bad)
			if !ok || pending && !strings.HasPrefix(r.final, "nil|false|") {
				return
			}
			sp.n++
			k := sc.key(r, pending)
			sp.orders[k] = append(sp.orders[k], append([]opRef(nil), order...))
		}
		rec()
	}
	return sp
}

func (sc *scenario) showOrder(order []opRef) string {
	var s []string
	for _, o := range order {
		s = append(s, fmt.Sprintf("%d%c", o.th, sc.progs[o.th][o.k]))
	}
	return strings.Join(s, " ")
}

func (sc *scenario) runOrder(order []opRef) (*record, bool, string) {
	in := sc.start()
	r := newRecord(sc.progs)
	ok := true
	e := vrt.Run(nil, limit, vrt.Thread{Name: "caller", F: func() {
		for _, o := range order {
			op := sc.progs[o.th][o.k]
			if in.st == nil && op != 'C' && op != 'T' {
				ok = false
				return
			}
			if op == 'W' && in.do('D') == "open" {
				ok = false
				return
			}
			r.res[o.th][o.k] = in.do(op)
		}
	}})
	if bad := sim.Problem(e); bad != "" || !ok {
		return r, ok, bad
	}
	s, bad := sc.finally(in)
	r.final = s
	return r, true, bad
}

// ---- concurrent executions

func (sc *scenario) runSchedule(prefix []int) (*vrt.Exec, *inst, *record) {
	in := sc.start()
	r := newRecord(sc.progs)
	var ths []vrt.Thread
	for t := range sc.progs {
		t := t
		ths = append(ths, vrt.Thread{Name: fmt.Sprint("g", t), F: func() {
			for k := range sc.progs[t] {
				k := k
				op := sc.progs[t][k]
				r.begin(t, k)
				if op == 'T' {
					vrt.Yield("clock")
					setSpawn(r.fire)
				}
				r.set(t, k, in.do(op))
				if op == 'T' {
					vrt.Block("expiration", r.quiet)
				}
				r.finish(t, k)
			}
		}})
	}
	e := vrt.Run(prefix, limit, ths...)
	return e, in, r
}

// fire runs an expiration in a goroutine of its own.
func (r *record) fire(f func()) {
	r.add(1)
	vrt.Go(func() {
		f()
		r.add(-1)
	})
}

//go:norace
func (r *record) add(n int) { r.firing += n }

//go:norace
func (r *record) quiet() bool { return r.firing == 0 }

//go:norace
func setSpawn(f func(func())) { vclock.Spawn = f }

// respects reports whether the order agrees with real time.
func (r *record) respects(order []opRef) bool {
	for i := range order {
		for j := i + 1; j < len(order); j++ {
			a, b := order[i], order[j]
			if r.end[b.th][b.k] < r.start[a.th][a.k] {
				return false
			}
		}
	}
	return true
}

func trace(e *vrt.Exec) string {
	t := e.Trace
	if len(t) > 60 {
		t = t[len(t)-60:]
	}
	return strings.Join(t, " / ")
}

func (sc *scenario) explore(c *lib.Ctx) {
	sp := sc.sequential(c)
	c.Trace(sp.n)
	type item struct {
		prefix []int
		cost   int
	}
	stack := []item{{}}
	n := 0
	seen := map[string]bool{}
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		races := vrt.Races()
		e, in, r := sc.runSchedule(it.prefix)
		n++
		c.Beat()
		c.Trans(len(e.Points) - len(it.prefix))
		where := func() string { return fmt.Sprintf("%s, schedule %v (%s)", sc.name, it.prefix, trace(e)) }
		check := func(ok bool, format string, args ...interface{}) {
			if !ok {
				c.Failf("%s: "+format, append([]interface{}{where()}, args...)...)
			}
		}
		check(e.Diverged == "", "the execution is not repeatable: %s", e.Diverged)
		check(len(e.Panics) == 0, "%v", e.Panics)
		check(!e.Overrun, "endless execution")
		pending := false
		if e.Deadlock {
			for _, b := range e.Blocked {
				var g int
				var rest string
				fmt.Sscanf(b, "g%d at %s", &g, &rest)
				check(strings.HasPrefix(b, "g") && !strings.HasPrefix(b, "go") && sc.waiting(r, g), "deadlock: %v", e.Blocked)
			}
			pending = true
		}
		check(vrt.Races() == races, "data race (the report of the race detector is in the output)")
		fin, bad := sc.finally(in)
		check(bad == "", "%s", bad)
		check(vrt.Races() == races, "data race seen by the continuation")
		r.final = fin
		check(!pending || strings.HasPrefix(fin, "nil|false|"), "the session has ended, but %v", e.Blocked)
		k := sc.key(r, pending)
		if !seen[k] {
			seen[k] = true
			c.Distinct(sc.name, k)
			c.State(1)
		}
		found := false
		for _, o := range sp.orders[k] {
			if r.respects(o) {
				found = true
				break
			}
		}
		if !found {
			c.Failf("%s: no sequential order of the calls explains the results:\n%s", where(), sc.explain(r, k, sp))
		}
		// alternatives
		cost := it.cost
		for i := len(it.prefix); i < len(e.Points); i++ {
			p := e.Points[i]
			for j := 1; j < len(p.Enabled); j++ {
				x := cost
				if p.Running {
					x++
				}
				if x > sc.bound {
					continue
				}
				stack = append(stack, item{append(sim.Choices(e, i), j), x})
			}
		}
		if c.Expired() {
			return
		}
	}
	c.Trace(n)
	c.Note("schedules of "+sc.s.name, n)
	c.Note("sequential orders", sp.n)
	c.Eval(n)
}

// waiting reports whether the thread is in a call that waits for the end.
func (sc *scenario) waiting(r *record, g int) bool {
	for k := range sc.progs[g] {
		if r.start[g][k] != 0 && r.end[g][k] == 0 {
			return sc.progs[g][k] == 'W'
		}
	}
	return false
}

func (sc *scenario) explain(r *record, k string, sp *spec) string {
	var b strings.Builder
	cut := func(s string) string {
		if len(s) > 120 {
			return s[:50] + ".." + s[len(s)-60:]
		}
		return s
	}
	for t, p := range sc.progs {
		for j := range p {
			fmt.Fprintf(&b, "  goroutine %d: %c [%d..%d] -> %s\n", t, p[j], r.start[t][j], r.end[t][j], cut(r.res[t][j]))
		}
	}
	fmt.Fprintf(&b, "  afterwards %s\n", cut(r.final))
	fmt.Fprintf(&b, "  orders with these results but not respecting real time: %d of %d", len(sp.orders[k]), sp.n)
	return b.String()
}

// ---- the space

// words returns all programs of a length in which a clock step can only be the last call.
func words(alphabet string, n int) []program {
	if n == 0 {
		return []program{""}
	}
	var out []program
	for _, w := range words(alphabet, n-1) {
		if strings.HasSuffix(string(w), "T") {
			continue
		}
		for _, a := range alphabet {
			out = append(out, w+program(a))
		}
	}
	return out
}

func run(c *lib.Ctx) {
	if !vclock.Controlled || !vrt.Raced {
		c.Cap("the code under test could not be put under the controlled scheduler")
		return
	}
	runtime.GOMAXPROCS(1) // one thread runs at a time anyway
	debug.SetGCPercent(800)
	add := func(s *subject, setup string, bound int, progs ...program) {
		sc := &scenario{s: s, setup: setup, progs: progs, bound: bound}
		sc.name = fmt.Sprintf("%s/timeout %d/after %q/%v", s.name, s.timeout, setup, progs)
		if c.Mine(sc.name) {
			c.Case(sc.name, func() { sc.explore(c) })
		} else {
			c.Skip()
		}
	}
	two := toySubject(2, T)
	three := toySubject(3, T)
	sn := sim.SignWorld(sim.Deal([]party.ID{1, 2, 3}, 1, "c13"), []party.ID{1, 3}, []byte("message"), "c13")
	sn3 := sim.SignWorld(sim.Deal([]party.ID{1, 2, 3}, 2, "c13"), []party.ID{1, 2, 3}, []byte("message"), "c13")
	kg := sim.KeygenWorld([]party.ID{1, 2}, 1, "c13")
	kg3 := sim.KeygenWorld([]party.ID{1, 2, 3}, 1, "c13")
	b := c.Pick(2, 3)

	// creation
	for _, d := range []time.Duration{1, 2} {
		for i, s := range []*subject{toySubject(2, d), realSubject(sn, 1, d), realSubject(kg, 2, d)} {
			b, full := b, 20
			if i > 0 {
				b, full = c.Pick(0, 1), 2
			}
			add(s, "-", full, "CPE", "T")
			if d == 1 { // time may pass within a call, so nothing may be accepted
				continue
			}
			add(s, "-", b+1, "CAPAD", "T")
			add(s, "-", b+1, "CPW", "T")
			add(s, "-", b+1, "CAPXPD", "T")
		}
	}

	// several sessions side by side on shared inputs
	sim.SideBySide(c, kg, kg)
	sim.SideBySide(c, sn, sn)
	sim.SideBySide(c, kg3)
	sim.SideBySide(c, sn3)
	sim.SideBySide(c, kg, sn)
	if !c.Quick() {
		sim.SideBySide(c, kg3, kg)
		sim.SideBySide(c, sn3, sn3)
	}

	// the real protocols
	for _, s := range []*subject{realSubject(sn, 1, T), realSubject(sn, 3, T), realSubject(kg, 1, T), realSubject(kg, 2, T)} {
		for _, x := range [][]program{{"P", "P"}, {"P", "A"}, {"P", "T"}, {"P", "P", "W"}} {
			add(s, "", b, x...)
		}
		for _, x := range [][]program{{"A", "A"}, {"A", "a"}, {"A", "P"}, {"AP", "X"}, {"AP", "P", "X"}, {"A", "T", "W"}, {"AP", "T"}} {
			add(s, "P", b, x...)
		}
		for _, x := range [][]program{{"X", "P", "W"}, {"X", "PP", "T"}, {"XP", "PD"}, {"XPD", "E", "W"}, {"x", "PD"}, {"xP", "X", "W"}} {
			add(s, "PAP", b, x...)
		}
		for _, x := range [][]program{{"P", "P", "W"}, {"P", "T", "W"}, {"PD", "DE"}, {"P", "X", "F"}} {
			add(s, "PAPX", b, x...)
			add(s, "PAPx", b, x...)
		}
		if !c.Quick() {
			add(s, "", 2, "PAPXP", "P", "W")
			add(s, "P", 2, "AX", "PP", "W", "T")
		}
	}
	for _, s := range []*subject{realSubject(sn3, 2, T), realSubject(kg3, 3, T)} {
		add(s, "P", c.Pick(1, 2), "A", "B", "P", "W")
		add(s, "PABP", c.Pick(1, 2), "X", "Y", "PP", "W")
		add(s, "PABP", c.Pick(1, 2), "xY", "P", "P")
	}

	// three parties: a goroutine for each peer
	for _, st := range []string{"", "P", "PA", "PAX"} {
		add(three, st, c.Pick(1, 2), "A", "B", "P", "W")
		add(three, st, c.Pick(1, 2), "A", "B", "P", "T")
		add(three, st, c.Pick(1, 2), "AX", "BY", "P", "P")
		add(three, st, c.Pick(1, 2), "AX", "BY", "PP", "W")
	}
	for _, st := range []string{"PABP", "PABPX", "PABPXY", "PXYB"} {
		add(three, st, b, "X", "Y", "P", "W")
		add(three, st, b, "x", "Y", "P", "W")
		add(three, st, b, "A", "X", "P", "T")
		add(three, st, b, "XP", "YP", "W")
		add(three, st, c.Pick(1, 2), "XP", "YP", "T", "W")
		add(three, st, b, "P", "P", "PD", "W")
	}
	if !c.Quick() {
		add(three, "", 1, "AX", "BY", "PPP", "T", "W")
		add(three, "P", 2, "AXP", "BYP", "W")
	}

	// two parties: every pair and, with a waiter, all short programs at every stage
	stages := []string{"", "P", "PA", "PX", "PAX", "PAP", "PAPX", "PAPXP", "PaPx", "T"}
	for _, st := range stages {
		for _, p := range words("AaXxPEFDT", 1) {
			for _, q := range words("AaXxPEFDT", 1) {
				if p <= q {
					add(two, st, 20, p, q)
				}
				add(two, st, b, p, q, "W")
			}
		}
		for _, p := range words("AXxPDT", 2) {
			for _, q := range words("AXPEDT", 1) {
				add(two, st, b, p, q, "W")
			}
		}
		for _, p := range words("AXPT", 2) {
			add(toySubject(2, 0), st, b, p, "P", "W")
		}
	}
	// a session whose timeout came up in the middle of something must still time out when nothing comes
	late, late3 := toySubject(2, T), toySubject(3, T)
	late.name, late.more = "late "+late.name, "LEFDLPAPXP"
	late3.name, late3.more = "late "+late3.name, "LEFDLPABPXYP"
	for _, st := range stages {
		for _, p := range append(words("AaXxP", 1), words("AXP", 2)...) {
			add(late, st, b+1, p, "T")
			add(late, st, b, p, "P", "T")
		}
		for _, p := range words("AXP", 1) {
			add(late3, st, b, p, "T", "BY")
			add(late3, st, b, p, "BP", "T")
		}
	}
	if c.Quick() {
		return
	}
	for _, st := range stages {
		for _, p := range words("AXPDT", 2) {
			for _, q := range words("AXPDT", 2) {
				if p <= q {
					add(two, st, 2, p, q)
				}
			}
		}
		for _, p := range words("AXxPT", 1) {
			for _, q := range words("AXxPT", 1) {
				for _, r := range words("AXxPT", 1) {
					if p <= q && q <= r {
						add(two, st, 3, p, q, r)
					}
				}
			}
		}
	}
}
