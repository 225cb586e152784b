//go:build go1.21

// C12: a session times out exactly when no valid message arrived for the set time.
package main

import (
	"fmt"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vclock"
)

func ids(v ...party.ID) []party.ID { return v }

func main() {
	lib.Run(lib.Config{
		ID: "C12", Level: "model_checking",
		Rule:   "breadth-first search over every interleaving of clock steps with the expected messages, one stray, faulty or malformed message and processing steps; package time is replaced by a virtual clock in the code under test; after every event the session must be over exactly if the reference clock says that the set time has passed since creation or the last accepted message",
		Bounds: "2 parties: clock in units of T/3 up to 10 units, with one refused or ignored message of every kind anywhere; boundary steps T-1ns and 1ns; 3 parties: clock in units of T/2; also without timeout; timeouts from 1 ns to 20 years; groups of 4, 9 and 34 parties with every accepted message 1 ns before the time is over and silence after each; both protocols",
	}, run)
}

func run(c *lib.Ctx) {
	if !vclock.Controlled {
		c.Cap("the code under test could not be put on the virtual clock")
		return
	}
	kg := func(t int, v ...party.ID) *sim.World { return sim.KeygenWorld(v, t, fmt.Sprint("c12", v, t)) }
	sg := func(all []party.ID, t int, v ...party.ID) *sim.World {
		return sim.SignWorld(sim.Deal(all, t, "c12"), v, []byte("message"), fmt.Sprint("c12", v, t))
	}
	two := []*sim.World{kg(1, 1, 2), sg(ids(1, 2, 3), 1, 2, 3)}
	three := []*sim.World{kg(1, 1, 2, 3), sg(ids(5, 6, 7, 8), 2, 5, 6, 8)}
	for _, w := range two {
		for _, id := range w.IDs {
			strays(c, w, id, 3*time.Second, []int64{1e9}, int64(c.Pick(10, 13))*1e9)
			plain(c, w, id, 10*time.Second, []int64{1, 10e9 - 1}, 32e9)
			plain(c, w, id, 0, []int64{1e9, 1e18}, 3e18)
			plain(c, w, id, 1, []int64{1}, 4)
			faulty(c, w, id, 2*time.Second, []int64{1e9}, 6e9)
		}
	}
	for _, w := range two {
		for _, T := range []time.Duration{999, time.Microsecond, 1500 * time.Millisecond, 2147483647, 2147483648, 4294967296, 5 * time.Second / 2, time.Hour, 100 * 24 * time.Hour, 20 * 365 * 24 * time.Hour} {
			plain(c, w, w.IDs[0], T, []int64{1, int64(T) - 1}, 4*int64(T)+1)
		}
	}
	// many accepted messages, each one nanosecond before the time is over; then silence
	for _, silent := range []bool{false, true} {
		for _, n := range []int{4, 9, 34} {
			long(c, n, silent)
		}
	}
	for _, w := range three {
		plain(c, w, w.IDs[1], 2*time.Millisecond, []int64{1e6}, int64(c.Pick(6, 9))*1e6)
		if !c.Quick() {
			strays(c, w, w.IDs[0], 2*time.Millisecond, []int64{1e6}, 5e6)
			plain(c, w, w.IDs[2], 7*time.Millisecond, []int64{1, 7e6 - 1}, 21e6)
		}
	}
}

func explore(c *lib.Ctx, name string, w *sim.World, id party.ID, T time.Duration, menu []sim.Msg, adv []int64, max int64) {
	e := &sim.Explorer{C: c, P: w.Proto(id, T), Menu: menu, Budget: 1, Advances: adv, MaxTime: max, MaxSteps: c.Pick(7, 9)}
	e.Run()
	c.Sample("%s: %d states, %d transitions, outcomes %d", name, e.States, e.Transitions, len(e.Outcomes))
}

func plain(c *lib.Ctx, w *sim.World, id party.ID, T time.Duration, adv []int64, max int64) {
	name := fmt.Sprintf("%s/party %d/timeout %v/steps %v", w.Name, id, T, adv)
	c.Case(name, func() { explore(c, name, w, id, T, w.Honest(id), adv, max) })
}

func strays(c *lib.Ctx, w *sim.World, id party.ID, T time.Duration, adv []int64, max int64) {
	for k := 0; k < sim.StrayCount(w)+3; k++ {
		k := k
		name := fmt.Sprintf("%s/party %d/timeout %v/stray %d", w.Name, id, T, k)
		c.Case(name, func() {
			all := append(w.Strays(id), w.Malformed(id)[1:4]...)
			if k < len(all) {
				explore(c, name+" "+all[k].Name, w, id, T, append(w.Honest(id), all[k]), adv, max)
			}
		})
	}
}

func faulty(c *lib.Ctx, w *sim.World, id party.ID, T time.Duration, adv []int64, max int64) {
	name := fmt.Sprintf("%s/party %d/timeout %v/faulty", w.Name, id, T)
	c.Case(name, func() {
		w.Combos(id, 1, 2, func(x sim.Combo) { explore(c, name+" "+x.Name, w, id, T, x.Menu, adv, max) })
	})
}

// long: each of the expected messages arrives one nanosecond before the time is over, and in between
// messages that do not count arrive; with silent set the messages stop after number k, for every k.
func long(c *lib.Ctx, n int, silent bool) {
	const T = 1500 * time.Millisecond
	for _, keygen := range []bool{true, false} {
		for part := 0; part < 4; part++ {
			keygen, part := keygen, part
			name := fmt.Sprintf("long/%d parties/keygen %v/silent %v/part %d", n, keygen, silent, part)
			c.Case(name, func() {
				w, i := sim.BigWorld(keygen, n, 1, n/2, "c12 long")
				h := w.Honest(i)
				for k := range h {
					h[k].After = 0
				}
				e := &sim.Explorer{C: c, P: w.Proto(i, T), Menu: append(append([]sim.Msg{}, h...), sim.Enc("stray", w.First(i)), sim.Enc("other protocol", sim.MakeS1(w.IDs[0], sim.BaseEnc(sim.RandScalar("x")), sim.BaseEnc(sim.RandScalar("y")))))}
				if !keygen {
					e.Menu[len(h)+1] = sim.Enc("other protocol", sim.MakeK2(w.IDs[0], i, sim.RandScalar("x")))
				}
				for _, o := range sim.Orders(n - 1)[part*2 : part*2+2] {
					for _, start := range []bool{true, false} {
						for stop := 0; stop <= len(o.Seq); stop++ {
							if !silent && stop < len(o.Seq) || silent && stop == len(o.Seq) && start {
								continue
							}
							if n > 9 && silent && stop%5 != 0 {
								continue
							}
							var hist []sim.Event
							if start {
								hist = append(hist, sim.Event{Kind: 'p'})
							}
							for _, x := range o.Seq[:stop] {
								hist = append(hist, sim.Event{Kind: 't', D: int64(T) / 2}, sim.Event{Kind: 'd', I: len(h)}, sim.Event{Kind: 'd', I: len(h) + 1},
									sim.Event{Kind: 't', D: int64(T) - int64(T)/2 - 1}, sim.Event{Kind: 'd', I: x})
								if start {
									hist = append(hist, sim.Event{Kind: 'p'})
								}
							}
							if silent {
								hist = append(hist, sim.Event{Kind: 't', D: int64(T) - 1}, sim.Event{Kind: 'd', I: len(h)}, sim.Event{Kind: 't', D: 1}, sim.Event{Kind: 't', D: int64(T)})
							} else {
								hist = append(hist, sim.Event{Kind: 'p'}, sim.Event{Kind: 't', D: int64(T)})
							}
							_, m := e.Replay(hist)
							c.Check(m.TimedOut == silent, "%s: the schedule does not do what it was made for", name)
							c.Eval(1)
							c.Trans(len(hist))
							c.Distinct(name, o.Name, start, stop)
						}
					}
				}
			})
		}
	}
}
