//go:build go1.21

package sim

import (
	"crypto/rand"
	"fmt"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vclock"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vrt"
)

// Flat is a randomness source that orders nothing between threads.
type Flat struct {
	Data  []byte
	Point bool // handing out bytes is a scheduling point
	pos   int
}

func (f *Flat) Read(p []byte) (int, error) {
	pos := f.take(len(p))
	for i := range p { // seen by the race detector: p belongs to the code under test
		p[i] = f.Data[(pos+i)%len(f.Data)]
	}
	if f.Point {
		vrt.Yield("randomness")
	}
	return len(p), nil
}

//go:norace
func (f *Flat) take(n int) int {
	pos := f.pos
	f.pos += n
	return pos
}

// SideBySide runs all the parties of several runs side by side, each in its own goroutine, on shared
// inputs: one signer list, message, public data and share for all, and broadcasts handed on by
// pointer. In each phase everybody takes what the others sent in the previous phase.
func SideBySide(c *lib.Ctx, ws ...*World) {
	var names []string
	for _, w := range ws {
		names = append(names, w.Name)
	}
	name := "side by side: " + strings.Join(names, " and ")
	c.Case(name, func() {
		stack := [][]int{nil}
		n := 0
		for phase := -1; len(stack) > 0; {
			// phase == -1: the undisturbed schedule; afterwards a single preemption in each phase
			prefix := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if phase == -1 {
				phase = 0
			}
			more := side(c, name, ws, prefix)
			n++
			if prefix == nil {
				stack = append(stack, more...)
			}
			if c.Expired() {
				break
			}
		}
		c.Trace(n)
		c.Note("schedules of several sessions", n)
		c.Eval(n)
	})
}

// side executes the runs; prefix[0] is the phase the other choices are for. It returns the
// alternatives with one preemption.
func side(c *lib.Ctx, name string, ws []*World, prefix []int) [][]int {
	type member struct {
		w    *World
		id   party.ID
		s    *Sess
		in   []*messages.Message
		out  []*messages.Message
		sent []int
		err  error
	}
	vclock.Reset()
	vrt.ForgetChannels()
	rand.Reader = &Flat{Data: rnd.Bytes("c13 side", 1<<14), Point: true}
	var all []*member
	for _, w := range ws {
		for _, id := range w.IDs {
			all = append(all, &member{w: w, id: id})
		}
	}
	var alts [][]int
	for phase := 0; phase < 4; phase++ {
		var ths []vrt.Thread
		for _, m := range all {
			m := m
			ths = append(ths, vrt.Thread{Name: fmt.Sprintf("party %d", m.id), F: func() {
				if phase == 0 {
					m.s = m.w.Proto(m.id, time.Hour).New()
				}
				for _, x := range m.in {
					if err := m.s.St.HandleMessage(x); err != nil {
						m.err = err
					}
				}
				m.out = m.s.St.ProcessAll()
				m.sent = append(m.sent, len(Encode(m.out)))
			}})
		}
		var pre []int
		if len(prefix) > 0 && prefix[0] == phase {
			pre = prefix[1:]
		}
		races := vrt.Races()
		e := vrt.Run(pre, 20000, ths...)
		where := fmt.Sprintf("%s, phase %d, schedule %v", name, phase, pre)
		c.Check(Problem(e) == "", "%s: %s", where, Problem(e))
		c.Check(e.Diverged == "", "%s: %s", where, e.Diverged)
		c.Check(vrt.Races() == races, "%s: data race (the report of the race detector is in the output)", where)
		c.Trans(len(e.Points))
		if prefix == nil {
			for i, p := range e.Points {
				for j := 1; j < len(p.Enabled); j++ {
					alts = append(alts, append(append([]int{phase}, Choices(e, i)...), j))
				}
			}
		}
		for _, m := range all {
			c.Check(m.err == nil, "%s: party %d of %s refuses a message: %v", where, m.id, m.w.Name, m.err)
			m.in = nil
		}
		{
			secret := map[string]int{}
			for i, m := range all {
				for _, b := range Encode(m.out) {
					var vals [][]byte
					switch messages.MessageType(b[0]) {
					case messages.MessageTypeKeyGen1:
						vals = Commitments(b)
					case messages.MessageTypeSign1:
						vals = [][]byte{b[5:37], b[37:69]}
					}
					for _, v := range vals {
						j, dup := secret[string(v)]
						c.Check(!dup, "%s: parties %d of %s and %d of %s committed to the same secret value", where, all[j].id, all[j].w.Name, m.id, m.w.Name)
						secret[string(v)] = i
					}
				}
			}
		}
		base := 0
		for _, w := range ws {
			run := all[base : base+len(w.IDs)]
			base += len(w.IDs)
			for _, from := range run {
				for _, to := range run {
					if from == to {
						continue
					}
					for _, x := range from.out {
						if x.IsBroadcast() || x.To == to.id {
							to.in = append(to.in, x)
						}
					}
				}
			}
		}
	}
	base := 0
	for _, w := range ws {
		run := all[base : base+len(w.IDs)]
		base += len(w.IDs)
		r := &Run{IDs: w.IDs, Sess: map[party.ID]*Sess{}}
		var pub string
		for _, m := range run {
			r.Sess[m.id] = m.s
			c.Check(m.s.DoneClosed() && m.s.St.Err() == nil, "%s: party %d of %s does not succeed: done=%v err=%v", name, m.id, w.Name, m.s.DoneClosed(), m.s.St.Err())
			if w.Keygen {
				k := PublicKey(m.s.KG.Public)
				c.Check(pub == "" || pub == k, "%s: party %d of %s has different public data", name, m.id, w.Name)
				pub = k
			}
		}
		if !w.Keygen {
			if err := r.SameSigs(w.Keys.Public, w.Text); err != nil {
				c.Failf("%s: %s: %v", name, w.Name, err)
			}
		}
	}
	return alts
}

// Problem describes what is wrong with a controlled execution by itself.
func Problem(e *vrt.Exec) string {
	switch {
	case len(e.Panics) > 0:
		return e.Panics[0]
	case e.Deadlock:
		return "deadlock: " + strings.Join(e.Blocked, ", ")
	case e.Overrun:
		return "endless execution"
	}
	return ""
}

// Choices returns the first n choices of an execution.
func Choices(e *vrt.Exec, n int) []int {
	var out []int
	for _, p := range e.Points[:n] {
		out = append(out, p.Chosen)
	}
	return out
}
