//go:build go1.21

// C14: sessions share no mutable data with callers, messages or other sessions.
package main

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vclock"
)

func main() {
	lib.Run(lib.Config{
		ID: "C14", Level: "model_checking",
		Rule:        "complete runs of the real sessions, one or two at a time, in every interleaving of their steps, every assignment of delivery modes (own bytes, bytes overwritten after decoding, one shared pointer) to messages, every order of the parties, and every point at which the callers overwrite the message buffer and the identifier list they passed in; every message a session sends and every output must be byte for byte that of the same session run alone on private copies (randomness is scripted), and all messages returned so far, the key shares, the public data and the buffers must be unchanged after every step; sessions also run side by side in goroutines under the controlled scheduler with the race detector",
		Bounds:      "2 parties: all 12870 interleavings of two runs in steps (a step is one party's creation, or taking its messages and processing) for two pairs of runs and all 70 interleavings in phases for all pairs, thorough: all in steps; all 81 delivery modes x all overwrite points; 3 parties: modes per sender and phase, all party orders",
		Assumptions: []string{"private messages handed over by pointer may be changed by their recipient"},
		HangSeconds: 60,
	}, run)
}

// input is what callers give to the sessions of a run. Each party has buffers of its own.
type input struct {
	secret map[party.ID]*eddsa.SecretShare
	public map[party.ID]*eddsa.Public
}

func (in *input) snapshot() string {
	var b strings.Builder
	for id := party.ID(0); id < 20; id++ {
		if s := in.secret[id]; s != nil {
			x, err := s.MarshalBinary()
			if err != nil {
				return err.Error()
			}
			fmt.Fprintf(&b, "%d:%x ", id, x)
		}
		if p := in.public[id]; p != nil {
			b.WriteString(sim.PublicKey(p))
		}
	}
	return b.String()
}

func fromKeys(k *sim.Keys) *input {
	in := &input{k.Secret, map[party.ID]*eddsa.Public{}}
	for _, id := range k.IDs {
		in.public[id] = k.Public
	}
	return in
}

// modes of handing on a message
const (
	private  = iota // through bytes of its own
	scribble        // through bytes that are overwritten right after decoding
	pointer         // as the pointer ProcessAll returned
	nmodes
)

// plan says how a run is executed.
type plan struct {
	mode  func(phase int, from, to party.ID) int
	order func(phase int) []int // order of the parties
	after int                   // overwrite each party's buffers this many of its steps after creation (<0: never)
}

func canonical(n int) func(int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return func(int) []int { return o }
}

func all(mode int) func(int, party.ID, party.ID) int {
	return func(int, party.ID, party.ID) int { return mode }
}

// exec is one execution of a run.
type exec struct {
	c     *lib.Ctx
	name  string
	w     *sim.World
	in    *input
	p     plan
	sess  map[party.ID]*sim.Sess
	ids   map[party.ID]party.IDSlice
	text  map[party.ID][]byte
	inbox map[party.ID][]*messages.Message
	next  map[party.ID][]*messages.Message
	kept  []kept
	step  int
	snap  string
}

// kept is a returned slice of messages with its encodings.
type kept struct {
	ms    []*messages.Message
	enc   [][]byte
	given []bool // a private message its recipient has got the pointer of
	from  party.ID
	phase int
}

func newExec(c *lib.Ctx, name string, w *sim.World, in *input, p plan) *exec {
	w.Ready()
	e := &exec{c: c, name: name, w: w, in: in, p: p, sess: map[party.ID]*sim.Sess{}, ids: map[party.ID]party.IDSlice{},
		text: map[party.ID][]byte{}, inbox: map[party.ID][]*messages.Message{}, next: map[party.ID][]*messages.Message{}}
	if in != nil {
		e.snap = in.snapshot()
	}
	return e
}

func (e *exec) steps() int { return 4 * len(e.w.IDs) }

// advance performs the next step.
func (e *exec) advance() {
	n := len(e.w.IDs)
	phase, i := e.step/n, e.p.order(e.step / n)[e.step%n]
	id := e.w.IDs[i]
	e.step++
	stream := func() *rnd.Stream { return rnd.New(fmt.Sprintf("%s/%d", e.w.Label, id)) }
	if phase == 0 {
		e.ids[id] = e.w.IDs.Copy()
		e.text[id] = append([]byte(nil), e.w.Text...)
		var err error
		if e.w.Keygen {
			e.sess[id], err = sim.NewKeygen(id, e.ids[id], party.Size(e.w.T), time.Hour, stream())
		} else {
			e.sess[id], err = sim.NewSign(e.ids[id], e.in.secret[id], e.in.public[id], e.text[id], time.Hour, stream())
		}
		e.c.Check(err == nil, "%s: party %d: creation fails: %v", e.name, id, err)
	} else {
		s := e.sess[id]
		for _, m := range e.inbox[id] {
			err := s.St.HandleMessage(m)
			e.c.Check(err == nil, "%s: phase %d: party %d refuses a message from %d: %v", e.name, phase, id, m.From, err)
		}
		e.inbox[id] = nil
		out := s.ProcessMsgs()
		k := kept{ms: out, from: id, phase: phase}
		for _, m := range out {
			b, err := m.MarshalBinary()
			e.c.Check(err == nil, "%s: phase %d: party %d: encoding: %v", e.name, phase, id, err)
			k.enc = append(k.enc, b)
			k.given = append(k.given, false)
		}
		want := e.w.Run.Sent[id][phase-1]
		same := len(want) == len(out)
		for j := 0; same && j < len(want); j++ {
			same = bytes.Equal(want[j], k.enc[j])
		}
		e.c.Check(same, "%s: phase %d: party %d sends something else than it does alone", e.name, phase, id)
		for j, m := range out {
			for _, to := range e.w.IDs {
				if to == id || !m.IsBroadcast() && m.To != to {
					continue
				}
				switch e.p.mode(phase, id, to) {
				case pointer:
					e.next[to] = append(e.next[to], m)
					if !m.IsBroadcast() {
						k.given[j] = true
					}
				default:
					b := append([]byte(nil), k.enc[j]...)
					d, err := sim.Decode(b)
					e.c.Check(err == nil, "%s: phase %d: decoding: %v", e.name, phase, err)
					if e.p.mode(phase, id, to) == scribble {
						fill(b)
					}
					e.next[to] = append(e.next[to], d)
				}
			}
		}
		e.kept = append(e.kept, k)
	}
	if e.p.after >= 0 && phase >= e.p.after {
		e.overwrite(id)
	}
	if e.step%n == 0 {
		e.inbox, e.next = e.next, map[party.ID][]*messages.Message{}
	}
	e.c.Trans(1)
}

func fill(b []byte) {
	for i := range b {
		b[i] ^= 0xA5
	}
}

// overwrite is the caller reusing its buffers.
func (e *exec) overwrite(id party.ID) {
	for i := range e.text[id] {
		e.text[id][i] = 0xEE
	}
	for i := range e.ids[id] {
		e.ids[id][i] = party.ID(60000 - i)
	}
}

// unchanged compares everything given out and taken in with how it was.
func (e *exec) unchanged(when string) {
	for _, k := range e.kept {
		for j, m := range k.ms {
			if k.given[j] {
				continue
			}
			b, err := m.MarshalBinary()
			e.c.Check(err == nil && bytes.Equal(b, k.enc[j]), "%s: %s: message %d that party %d returned in phase %d has changed", e.name, when, j, k.from, k.phase)
		}
	}
	if e.in != nil {
		e.c.Check(e.in.snapshot() == e.snap, "%s: %s: the key shares or public data given to the sessions have changed", e.name, when)
	}
	if e.p.after < 0 {
		for id, ids := range e.ids {
			e.c.Check(fmt.Sprint(ids) == fmt.Sprint(e.w.IDs), "%s: %s: the identifier list given to party %d is now %v", e.name, when, id, ids)
			e.c.Check(bytes.Equal(e.text[id], e.w.Text), "%s: %s: the message buffer given to party %d has changed", e.name, when, id)
		}
	}
}

// finish checks the outputs.
func (e *exec) finish() {
	for _, id := range e.w.IDs {
		s := e.sess[id]
		e.c.Check(s.DoneClosed() && s.St.Err() == nil, "%s: party %d does not succeed: %v", e.name, id, s.St.Err())
		e.c.Check(s.OutKey() == e.w.Run.Sess[id].OutKey(), "%s: party %d obtains another result than alone:\n%s\n%s", e.name, id, s.OutKey(), e.w.Run.Sess[id].OutKey())
	}
	e.c.Trace(1)
}

// alone executes a single run and checks after every step.
func alone(c *lib.Ctx, name string, w *sim.World, in *input, p plan) {
	vclock.Reset()
	e := newExec(c, name, w, in, p)
	for e.step < e.steps() {
		e.advance()
		e.unchanged(fmt.Sprintf("after step %d", e.step))
	}
	e.finish()
	c.Eval(1)
}

// together executes runs in an interleaving of their steps (of unit steps each).
func together(c *lib.Ctx, name string, mk func() []*exec, il []int, unit []int) {
	vclock.Reset()
	es := mk()
	for _, r := range il {
		for k := 0; k < unit[r]; k++ {
			es[r].advance()
		}
	}
	for _, e := range es {
		e.finish()
	}
	for _, e := range es {
		e.unchanged("at the end")
	}
	c.Eval(1)
}

func run(c *lib.Ctx) {
	debug.SetGCPercent(400)
	k2 := sim.Deal([]party.ID{1, 2}, 1, "c14")
	k3 := sim.Deal([]party.ID{1, 2, 3}, 1, "c14")
	other := sim.Deal([]party.ID{1, 2, 3}, 1, "c14other")
	msg := []byte("the message to sign, long enough to be hashed in several blocks: " + strings.Repeat("0123456789", 12))
	kgA := sim.KeygenWorld([]party.ID{1, 2}, 1, "c14A")
	kgB := sim.KeygenWorld([]party.ID{1, 2}, 1, "c14B")
	kgC := sim.KeygenWorld([]party.ID{2, 700}, 1, "c14C")
	sgA := sim.SignWorld(k3, []party.ID{1, 3}, msg, "c14A")
	sgB := sim.SignWorld(k3, []party.ID{1, 3}, []byte("another message"), "c14B")
	sgC := sim.SignWorld(k3, []party.ID{2, 3}, msg, "c14C")
	sgD := sim.SignWorld(other, []party.ID{1, 3}, msg, "c14D")
	sgE := sim.SignWorld(k2, []party.ID{1, 2}, nil, "c14E")
	kg3 := sim.KeygenWorld([]party.ID{1, 2, 3}, 1, "c14")
	kg3t := sim.KeygenWorld([]party.ID{3, 4, 9}, 2, "c14")
	sg3 := sim.SignWorld(k3, []party.ID{1, 2, 3}, msg, "c14")

	if c.Second() {
		// side by side in goroutines
		for _, ws := range [][]*sim.World{{kgA, kgA}, {sgA, sgA}, {kgA, sgE}, {kg3}, {sg3}} {
			sim.SideBySide(c, ws...)
		}
		return
	}
	if !vclock.Controlled {
		c.Cap("no instrumented build with race detection: sessions were not run in goroutines")
	}

	inputOf := func(w *sim.World) *input {
		if w.Keygen {
			return nil
		}
		return fromKeys(w.Keys)
	}

	// a single run, all delivery modes and overwrite points
	for _, w := range []*sim.World{kgA, sgA, sgE} {
		w := w
		c.Case("modes "+w.Name, func() {
			lib.Tuples([]int{nmodes, nmodes, nmodes, nmodes}, func(m []int) {
				mode := func(phase int, from, to party.ID) int {
					i := 0
					if from == w.IDs[1] {
						i = 1
					}
					return m[(phase-1)%2*2+i]
				}
				for after := -1; after < 4; after++ {
					alone(c, fmt.Sprintf("%s, delivery %v, overwriting after %d", w.Name, m, after), w, inputOf(w), plan{mode, canonical(2), after})
				}
			})
			c.Distinct("modes", w.Name)
		})
	}
	for _, w := range []*sim.World{kg3, kg3t, sg3} {
		w := w
		for m0 := 0; m0 < nmodes; m0++ {
			m0 := m0
			c.Case(fmt.Sprintf("modes %s first sender %d", w.Name, m0), func() {
				lib.Tuples([]int{nmodes, nmodes, nmodes, nmodes, nmodes}, func(m []int) {
					m = append([]int{m0}, m...)
					mode := func(phase int, from, to party.ID) int {
						for i, id := range w.IDs {
							if id == from {
								return m[(phase-1)%2*3+i]
							}
						}
						return 0
					}
					if c.Quick() && (m[1]+m[2]+m[4]+m[5])%3 != 0 {
						return
					}
					alone(c, fmt.Sprintf("%s, delivery %v", w.Name, m), w, inputOf(w), plan{mode, canonical(3), -1})
				})
			})
		}
		for after := -1; after < 4; after++ {
			after := after
			c.Case(fmt.Sprintf("orders %s after %d", w.Name, after), func() {
				lib.Perms(3, func(p1 []int) {
					p1 = append([]int(nil), p1...)
					lib.Perms(3, func(p2 []int) {
						order := func(phase int) []int {
							if phase <= 1 {
								return p1
							}
							return p2
						}
						alone(c, fmt.Sprintf("%s, party orders %v %v, overwriting after %d", w.Name, p1, p2, after), w, inputOf(w), plan{all(pointer), order, after})
					})
				})
			})
		}
	}

	// two runs
	pairs := [][2]*sim.World{{kgA, kgB}, {sgA, sgB}, {sgA, sgA}, {sgA, sgC}, {sgA, sgD}, {kgA, sgA}, {kgA, kgC}, {sgE, sgA}, {kgB, sgE}}
	for n, pr := range pairs {
		pr := pr
		fine := !c.Quick() || n < 2
		lens, unit := []int{4, 4}, []int{2, 2}
		if fine {
			lens, unit = []int{8, 8}, []int{1, 1}
		}
		var ils [][]int
		lib.Interleavings(lens, func(il []int) { ils = append(ils, il) })
		const parts = 16
		for part := 0; part < parts; part++ {
			part := part
			for _, mode := range []int{pointer, scribble} {
				mode := mode
				if mode == scribble && fine && c.Quick() {
					continue
				}
				name := fmt.Sprintf("%s and %s, part %d, mode %d, steps %d", pr[0].Name, pr[1].Name, part, mode, lens[0])
				c.Case(name, func() {
					ins := map[*sim.Keys]*input{}
					for i := part; i < len(ils); i += parts {
						il := ils[i]
						together(c, fmt.Sprintf("%s and %s, interleaving %v, mode %d", pr[0].Name, pr[1].Name, il, mode), func() []*exec {
							var es []*exec
							for r, w := range pr {
								in := inputOf(w)
								if in != nil { // runs with one key share its objects
									if ins[w.Keys] == nil {
										ins[w.Keys] = in
									}
									in = ins[w.Keys]
								}
								es = append(es, newExec(c, fmt.Sprintf("run %d of %s", r, name), w, in, plan{all(mode), canonical(2), -1}))
							}
							return es
						}, il, unit)
						if c.Expired() {
							return
						}
					}
					c.Distinct(name)
				})
			}
		}
	}

	// signing with the very outputs of a key generation, while another one is going on
	c.Case("signing with outputs", func() {
		base := kg3.Ready()
		keys := &sim.Keys{IDs: kg3.IDs, T: party.Size(kg3.T), Secret: map[party.ID]*eddsa.SecretShare{}}
		for _, id := range kg3.IDs {
			o := base.Sess[id].KG
			keys.Secret[id] = eddsa.NewSecretShare(id, sim.Sc(sim.Big(&o.SecretKey.Secret)))
		}
		keys.Public = base.Sess[1].KG.Public
		sg := sim.SignWorld(keys, []party.ID{1, 3}, msg, "c14out")
		sg.Ready()
		for il := 0; il < 5; il++ {
			vclock.Reset()
			kg := newExec(c, "key generation", kg3, nil, plan{all(pointer), canonical(3), -1})
			for kg.step < kg.steps() {
				kg.advance()
			}
			kg.finish()
			in := &input{map[party.ID]*eddsa.SecretShare{}, map[party.ID]*eddsa.Public{}}
			for _, id := range kg3.IDs {
				in.secret[id], in.public[id] = kg.sess[id].KG.SecretKey, kg.sess[id].KG.Public
			}
			s1 := newExec(c, "signing with outputs", sg, in, plan{all(pointer), canonical(2), -1})
			s2 := newExec(c, "signing with outputs again", sg, in, plan{all(scribble), canonical(2), 0})
			k2 := newExec(c, "another key generation", kgA, nil, plan{all(pointer), canonical(2), -1})
			for s1.step < s1.steps() || s2.step < s2.steps() || k2.step < k2.steps() {
				if s1.step < s1.steps() {
					s1.advance()
				}
				if s2.step < s2.steps() && s1.step > il {
					s2.advance()
				}
				if k2.step < k2.steps() && s1.step > 4-il {
					k2.advance()
				}
				kg.finish()
				for _, e := range []*exec{kg, s1, s2, k2} {
					e.unchanged("signing with outputs")
				}
			}
			s1.finish()
			s2.finish()
			k2.finish()
			c.Eval(1)
		}
	})
}
