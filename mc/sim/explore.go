//go:build go1.21

package sim

import (
	"bytes"
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/deep"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vclock"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vrt"
)

// Event is one transition: deliver menu entry I, process, or advance the clock by D.
type Event struct {
	Kind byte // 'd', 'p', 't'
	I    int
	D    int64
}

// Explorer enumerates all histories of one session over a menu.
type Explorer struct {
	C        *lib.Ctx
	P        *Proto
	Menu     []Msg
	Budget   int     // total cost of deviating deliveries in one history
	Advances []int64 // clock steps offered at every point
	MaxTime  int64
	MaxSteps int // clock steps in one history (default: no limit)
	MaxProc  int // consecutive processing steps offered (default 1)
	Repeats  int // how often one menu entry may be delivered in a history (default 1)
	AfterEnd int // events explored after the session is over (default 1)
	Each     func(s *Sess, m *Model, hist []Event)
	Leaf     func(s *Sess, m *Model, hist []Event)
	OnErr    func(err error, hist []Event) // every error of HandleMessage

	Perm int // order of map iteration (instrumented builds)

	// Record, if set, keeps every state with its transitions (see Graph).
	Record bool
	Graph  []GNode

	States, Transitions, Ended int
	Outcomes                   map[string]int
}

// Show renders a history.
func (e *Explorer) Show(hist []Event) string {
	var out []string
	for _, ev := range hist {
		switch ev.Kind {
		case 'd':
			out = append(out, "deliver("+e.Menu[ev.I].Name+")")
		case 'p':
			out = append(out, "process")
		case 't':
			out = append(out, fmt.Sprintf("advance(%d)", ev.D))
		}
	}
	return strings.Join(out, " ")
}

// GNode is a recorded state.
type GNode struct {
	Next map[Event]int
	Emit [][]byte // everything sent so far
	Out  string
	Done bool
	Err  bool
}

type node struct {
	id    int
	hist  []Event
	spent int
	after int
	procs int
}

// Run explores breadth first; states are histories replayed on fresh objects, merged by the digest
// of the complete object graph together with the model state.
func (e *Explorer) Run() {
	if e.MaxProc == 0 {
		e.MaxProc = 1
	}
	if e.Repeats == 0 {
		e.Repeats = 1
	}
	if e.AfterEnd == 0 {
		e.AfterEnd = 1
	}
	e.Outcomes = map[string]int{}
	seen := map[string]int{}
	if e.Record {
		e.Graph = []GNode{{Next: map[Event]int{}}}
	}
	queue := []node{{}}
	e.States = 1
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if e.C.Expired() {
			return
		}
		for _, ev := range e.enabled(n) {
			hist := append(append([]Event(nil), n.hist...), ev)
			s, m := e.Replay(hist)
			e.Transitions++
			c := node{hist: hist, spent: n.spent, after: n.after}
			if ev.Kind == 'd' {
				c.spent += e.Menu[ev.I].Cost
			}
			if ev.Kind == 'p' {
				c.procs = n.procs + 1
			}
			if m.Done {
				c.after++
			}
			key := fmt.Sprintf("%x|%s|%d|%d|%d|%v|%v", deep.Hash(s.St, s.KG, s.SG), m.Key(), c.spent, c.after, c.procs, []interface{}{vclock.Deadlines(), e.ticks(hist)}, e.counts(hist))
			ended := m.Done && c.after == 1
			if ended {
				e.Ended++
			}
			id, known := seen[key]
			if !known {
				id = e.States
				seen[key] = id
				e.States++
				if e.Record {
					g := GNode{Next: map[Event]int{}, Out: s.OutKey(), Done: m.Done, Err: m.Err}
					for _, em := range m.Emit {
						g.Emit = append(g.Emit, em...)
					}
					e.Graph = append(e.Graph, g)
				}
			}
			if e.Record {
				e.Graph[n.id].Next[ev] = id
			}
			if known {
				continue
			}
			c.id = id
			if ended {
				e.Outcomes[e.outcome(m)]++
				if e.Leaf != nil {
					e.Leaf(s, m, hist)
				}
			}
			queue = append(queue, c)
		}
	}
	e.C.State(e.States)
	e.C.Trans(e.Transitions)
	e.C.Trace(e.Ended)
	for k := range e.Outcomes {
		e.C.Distinct(e.P.Name, k)
	}
}

func (e *Explorer) outcome(m *Model) string {
	if !m.Err {
		return "ok " + m.Out
	}
	return fmt.Sprintf("err round %d who %v timeout %v", m.ErrRound, m.Who, m.TimedOut)
}

func (e *Explorer) counts(hist []Event) string {
	if e.Repeats <= 1 {
		b := make([]byte, len(e.Menu))
		for _, ev := range hist {
			if ev.Kind == 'd' {
				b[ev.I]++
			}
		}
		return string(b)
	}
	return ""
}

func (e *Explorer) ticks(hist []Event) int {
	n := 0
	if e.MaxSteps > 0 {
		for _, ev := range hist {
			if ev.Kind == 't' {
				n++
			}
		}
	}
	return n
}

func (e *Explorer) enabled(n node) []Event {
	var out []Event
	if n.after > e.AfterEnd {
		return nil
	}
	cnt := make([]int, len(e.Menu))
	steps, ticks := 0, 0
	var now int64
	for _, ev := range n.hist {
		switch ev.Kind {
		case 'd':
			cnt[ev.I]++
		case 'p':
			steps++
		case 't':
			now += ev.D
			ticks++
		}
	}
	for i := range e.Menu {
		x := &e.Menu[i]
		if x.AfterEnd && n.after == 0 {
			continue
		}
		if cnt[i] >= e.Repeats || n.spent+x.Cost > e.Budget || steps < x.After {
			continue
		}
		out = append(out, Event{Kind: 'd', I: i})
	}
	if n.procs < e.MaxProc {
		out = append(out, Event{Kind: 'p'})
	}
	for _, d := range e.Advances {
		if !vclock.Controlled || e.MaxSteps > 0 && ticks >= e.MaxSteps {
			break
		}
		if now+d <= e.MaxTime {
			out = append(out, Event{Kind: 't', D: d})
		}
	}
	return out
}

var wrapRE = regexp.MustCompile(`party (\d+), round (\d+), culprit (\d+)`)

// Replay runs a history on a fresh session in lockstep with the model and compares every
// observation.
func (e *Explorer) Replay(hist []Event) (*Sess, *Model) {
	e.C.Beat()
	vclock.Reset()
	vrt.SetPerm(e.Perm)
	defer vrt.SetPerm(0)
	s := e.P.New()
	m := NewModel(e.P)
	e.observe(s, m, hist[:0])
	for i, ev := range hist {
		h := hist[:i+1]
		switch ev.Kind {
		case 'd':
			x := &e.Menu[ev.I]
			e.deliver(s, m, x, h)
		case 'p':
			want := m.Process()
			got := s.Process()
			if !sameMsgs(got, want) {
				e.C.Failf("%s: after %s:\nsent     %s\nexpected %s", e.P.Name, e.Show(h), showMsgs(got), showMsgs(want))
			}
		case 't':
			m.Advance(ev.D)
			rnd.Use(s.Rnd)
			vclock.Advance(ev.D)
			rnd.Use(nil)
		}
		vrt.Settle()
		e.observe(s, m, h)
		if e.Each != nil && i == len(hist)-1 {
			e.Each(s, m, h)
		}
	}
	return s, m
}

func (e *Explorer) deliver(s *Sess, m *Model, x *Msg, h []Event) {
	round := m.Round
	want := m.Handle(x)
	var err error
	if x.B != nil {
		err = s.Handle(x.B)
	} else {
		rnd.Use(s.Rnd)
		err = s.St.HandleMessage(x.Make())
		rnd.Use(nil)
	}
	if (err != nil) != (want == Reject) {
		e.C.Failf("%s: after %s: the last message should be %sed, but the result is: %v", e.P.Name, e.Show(h), strings.TrimSuffix(want.String(), "e"), err)
	}
	if err != nil && e.OnErr != nil {
		e.OnErr(err, h)
	}
	if err != nil && !x.Malformed && round < 3 {
		if g := wrapRE.FindStringSubmatch(err.Error()); g != nil {
			r, _ := strconv.Atoi(g[2])
			c, _ := strconv.Atoi(g[3])
			if r != round || c != int(x.From) {
				e.C.Failf("%s: after %s: the error %q should name round %d and party %d", e.P.Name, e.Show(h), err, round, x.From)
			}
		}
	}
}

var errRE = regexp.MustCompile(`^party (\d+): round (\d+):`)

func sameMsgs(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
outer:
	for _, x := range a {
		for j, y := range b {
			if !used[j] && bytes.Equal(x, y) {
				used[j] = true
				continue outer
			}
		}
		return false
	}
	return true
}

func showMsgs(ms [][]byte) string {
	if len(ms) == 0 {
		return "nothing"
	}
	var out []string
	for _, m := range ms {
		out = append(out, fmt.Sprintf("[kind %d %d->%d %x]", Typ(m), From(m), To(m), m[5:]))
	}
	return strings.Join(out, " ")
}

// observe compares everything a user can see of the session with the model.
func (e *Explorer) observe(s *Sess, m *Model, h []Event) {
	f := func(format string, args ...interface{}) {
		e.C.Failf("%s: after %s: %s", e.P.Name, e.Show(h), fmt.Sprintf(format, args...))
	}
	if s.St.IsFinished() != m.Done {
		f("IsFinished is %v, expected %v (error: %v)", s.St.IsFinished(), m.Done, s.St.Err())
	}
	if s.DoneClosed() != m.Done {
		f("completion signal set is %v, expected %v", s.DoneClosed(), m.Done)
	}
	err := s.St.Err()
	if (err != nil) != m.Err {
		f("error is %v, expected an error: %v", err, m.Err)
	}
	if m.Done {
		werr := s.St.WaitForError()
		if (werr != nil) != m.Err {
			f("WaitForError returns %v, expected an error: %v", werr, m.Err)
		}
		if werr != nil && err != nil && werr.Error() != err.Error() {
			f("WaitForError returns %v but Err returns %v", werr, err)
		}
	}
	if m.Err {
		var se *state.Error
		if !errors.As(err, &se) {
			f("the error %v is not a protocol error naming round and culprit", err)
		}
		if se.RoundNumber != m.ErrRound {
			f("the error names round %d, expected %d (%v)", se.RoundNumber, m.ErrRound, err)
		}
		if m.ErrText == "" {
			m.ErrText = err.Error()
		}
		if m.ErrText != err.Error() {
			f("the error changed from %q to %q", m.ErrText, err)
		}
		if g := errRE.FindStringSubmatch(err.Error()); g != nil {
			c, _ := strconv.Atoi(g[1])
			r, _ := strconv.Atoi(g[2])
			if r != m.ErrRound || !m.Who[party.ID(c)] {
				f("the error text is %q, expected round %d and culprit %v", err, m.ErrRound, keysOf(m.Who))
			}
		}
		if !m.Who[se.PartyID] {
			f("the error blames %d, expected one of %v (%v)", se.PartyID, keysOf(m.Who), err)
		}
	}
	if got := s.OutKey(); got != m.Out {
		f("output is %q, expected %q", got, m.Out)
	}
}

func keysOf(m map[party.ID]bool) []party.ID {
	var out []party.ID
	for id := range m {
		out = append(out, id)
	}
	return party.NewIDSlice(out)
}
