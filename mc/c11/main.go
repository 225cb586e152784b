//go:build go1.21

// C11: a session ends exactly once, with a definite and stable outcome.
package main

import (
	"fmt"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func ids(v ...party.ID) []party.ID { return v }

const T = 10 * time.Second

func main() {
	lib.Run(lib.Config{
		ID: "C11", Level: "model_checking",
		Rule:   "breadth-first search over every order of the expected messages (or of one faulty variant of them), processing steps and timeout expiries, followed by every sequence of D further events after the session is over: the rest of the messages, repeats, conflicting, foreign and malformed messages, processing, expiry of the timeout; after every event completion flag, completion signal, error (text, round, culprit), waiting, outputs and emitted messages are compared with the reference model",
		Bounds: "2 and 3 parties, both protocols, with and without timeout, D=2 (thorough: 3; 4 parties); groups of 9, 18 and 34 (thorough 130) parties ended in 70 ways each, after which everything is offered twice more",
	}, run)
}

func run(c *lib.Ctx) {
	kg := func(t int, v ...party.ID) *sim.World { return sim.KeygenWorld(v, t, fmt.Sprint("c11", v, t)) }
	sg := func(all []party.ID, t int, v ...party.ID) *sim.World {
		return sim.SignWorld(sim.Deal(all, t, "c11"), v, []byte("message"), fmt.Sprint("c11", v, t))
	}
	few := sg(ids(1, 2, 3), 2, 1, 3)
	few.NoRun()
	depth := c.Pick(2, 3)
	for _, w := range []*sim.World{kg(1, 1, 2), sg(ids(1, 2, 3), 1, 2, 3), few} {
		for _, id := range w.IDs {
			faulty(c, w, id, depth, true)
		}
	}
	for _, w := range []*sim.World{kg(1, 1, 2, 3), sg(ids(5, 6, 7, 8), 2, 5, 6, 8)} {
		faulty(c, w, w.IDs[1], 2, false)
	}
	for _, n := range []int{9, 18, c.Pick(34, 130)} {
		big(c, n)
	}
	if !c.Quick() {
		for _, w := range []*sim.World{kg(2, 1, 2, 3), sg(ids(1, 2, 3), 1, 1, 2, 3)} {
			faulty(c, w, w.IDs[0], 2, true)
		}
	}
}

// faulty explores the honest menu and every menu with one message replaced by one of its variants.
func faulty(c *lib.Ctx, w *sim.World, id party.ID, depth int, all bool) {
	const parts = 8
	for part := 0; part < parts; part++ {
		part := part
		c.Case(fmt.Sprintf("%s/party %d/depth %d/part %d", w.Name, id, depth, part), func() {
			menus := []sim.Combo{{Name: "honest", Menu: w.Honest(id)}}
			pick := 4
			if !all {
				pick = 2
			}
			w.Combos(id, 1, pick, func(x sim.Combo) { menus = append(menus, x) })
			for n, x := range menus {
				for k, timeout := range []time.Duration{0, T} {
					if (2*n+k)%parts == part && (all || n%2 == 0) {
						explore(c, w, id, x, timeout, depth)
					}
				}
			}
		})
	}
}

func explore(c *lib.Ctx, w *sim.World, id party.ID, x sim.Combo, timeout time.Duration, depth int) {
	menu := append([]sim.Msg{}, x.Menu...)
	seen := map[party.ID]bool{}
	for _, m := range x.Menu {
		if !seen[m.From] {
			seen[m.From] = true
			r := sim.Enc("late "+m.Name, m.B)
			r.AfterEnd, r.Cost = true, 1
			menu = append(menu, r)
		}
	}
	for k, m := range append(w.Strays(id), w.Malformed(id)...) {
		if k%4 == 0 || depth > 2 {
			m.AfterEnd = true
			menu = append(menu, m)
		}
	}
	e := &sim.Explorer{C: c, P: w.Proto(id, timeout), Menu: menu, Budget: 1, AfterEnd: depth,
		Advances: []int64{int64(T)}, MaxTime: 2 * int64(T), MaxProc: 2}
	e.Run()
	c.Sample("%s party %d timeout %v, %s: %d states, %d transitions, outcomes %d", w.Name, id, timeout, x.Name, e.States, e.Transitions, len(e.Outcomes))
}

// big ends sessions of n parties in each way and then offers every message again, in both directions, with
// processing and expiries in between.
func big(c *lib.Ctx, n int) {
	for _, keygen := range []bool{true, false} {
		keygen := keygen
		c.Case(fmt.Sprintf("big/%d parties keygen %v", n, keygen), func() {
			w, i := sim.BigWorld(keygen, n, 1, n/2, "c11 big")
			h := w.Honest(i)
			for k := range h {
				h[k].After = 0
			}
			var after []sim.Event
			for k := range h {
				after = append(after, sim.Event{Kind: 'd', I: k})
				if k%(n/2) == 0 {
					after = append(after, sim.Event{Kind: 'p'}, sim.Event{Kind: 't', D: int64(T)})
				}
			}
			for k := range h {
				after = append(after, sim.Event{Kind: 'd', I: len(h) - 1 - k})
			}
			after = append(after, sim.Event{Kind: 'p'}, sim.Event{Kind: 'p'})
			for _, timeout := range []time.Duration{0, T} {
				e := &sim.Explorer{C: c, P: w.Proto(i, timeout), Menu: h}
				do := func(hist []sim.Event) {
					_, m := e.Replay(append(append([]sim.Event{}, hist...), after...))
					c.Check(m.Done, "%s: the schedule does not end the session", e.P.Name)
					c.Trace(1)
					c.Trans(len(hist) + len(after))
					c.Distinct(w.Name, len(hist), timeout)
				}
				for _, o := range sim.Orders(n - 1) {
					all := o.Deliver(true, nil)
					do(all)
					if timeout > 0 {
						for _, cut := range []int{0, 1, 2, n, len(all) / 2, len(all) - 2} {
							do(append(append([]sim.Event{}, all[:cut]...), sim.Event{Kind: 't', D: int64(T)}))
						}
					}
				}
				for _, x := range []int{0, n/2 - 1, n - 2} {
					j := h[x].From
					for _, f := range []sim.Msg{w.FaultyFirst(j)[0], sim.Enc("wrong", w.WrongSecond(j, i, 1))} {
						menu := append([]sim.Msg{}, h...)
						for k := range menu {
							if menu[k].From == j && menu[k].Type == f.Type {
								menu[k] = f
							}
						}
						e.Menu, e.P = menu, w.Proto(i, timeout)
						do(sim.Orders(n - 1)[x%8].Deliver(false, nil))
					}
				}
			}
		})
	}
}
