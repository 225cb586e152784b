//go:build go1.21

// C16: ending a session erases its secrets.
package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/deep"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func ids(v ...party.ID) []party.ID { return v }

const T = time.Second

func main() {
	lib.Run(lib.Config{
		ID: "C16", Level: "model_checking",
		Rule:        "every way a session can end (success, each single faulty message, too few signers, timeout at every stage), reached through every order of messages, processing steps and timeout expiries; in every final state the complete object graph reachable from the session (unexported fields included, and on abort also from its output) is searched for every secret of the session: the scalars and raw bytes of its randomness, its key share, its Lagrange-weighted share, received and sent shares, partial and final sums, each in several encodings",
		Bounds:      "2 and 3 parties (thorough: 4), both protocols, up to one faulty message; groups of 9, 18 and 34 parties (thorough: up to 130) of lowest and highest threshold in 22 schedules each",
		Assumptions: []string{"closures and goroutine stacks are not searched", "values the caller received (messages) are the caller's"},
	}, run)
}

func run(c *lib.Ctx) {
	kg := func(t int, v ...party.ID) *sim.World { return sim.KeygenWorld(v, t, fmt.Sprint("c16", v, t)) }
	sg := func(all []party.ID, t int, v ...party.ID) *sim.World {
		return sim.SignWorld(sim.Deal(all, t, "c16"), v, []byte("message"), fmt.Sprint("c16", v, t))
	}
	few := sg(ids(1, 2, 3), 2, 1, 3)
	few.NoRun()
	for _, w := range []*sim.World{kg(1, 1, 2), sg(ids(1, 2, 3), 1, 2, 3), few} {
		for _, id := range w.IDs {
			explore(c, w, id, 0)
		}
	}
	for _, w := range []*sim.World{kg(1, 1, 2, 3), kg(2, 3, 4, 65535), sg(ids(5, 6, 7, 8), 2, 5, 6, 8)} {
		explore(c, w, w.IDs[1], c.Pick(4, 0))
	}
	for _, n := range []int{9, 18, 34} {
		for _, t := range []int{1, n - 1} {
			large(c, n, t)
		}
	}
	if !c.Quick() {
		for _, n := range []int{17, 33, 65, 66, 130} {
			large(c, n, 1)
			large(c, n, n-1)
		}
		for _, w := range []*sim.World{kg(2, 1, 2, 3, 4), sg(ids(5, 6, 7, 8), 3, 5, 6, 7, 8)} {
			explore(c, w, w.IDs[2], 2)
		}
	}
}

func explore(c *lib.Ctx, w *sim.World, id party.ID, pick int) {
	const parts = 8
	for part := 0; part < parts; part++ {
		part := part
		c.Case(fmt.Sprintf("%s/party %d/part %d", w.Name, id, part), func() {
			n := 0
			do := func(x sim.Combo) {
				n++
				if n%parts != part || c.Expired() {
					return
				}
				e := &sim.Explorer{C: c, P: w.Proto(id, T), Menu: x.Menu, Advances: []int64{int64(T)}, MaxTime: int64(T)}
				e.Leaf = func(s *sim.Sess, m *sim.Model, h []sim.Event) { search(c, w, e, s, m, h) }
				if x.Name == "honest" {
					// the search is not vacuous: while the session runs it does find secrets
					e.Each = func(s *sim.Sess, m *sim.Model, h []sim.Event) {
						if !m.Done && m.Round > 0 && len(deep.Find(s.St, sim.Secrets(w, s, m))) > 0 {
							c.Note("running states in which secrets were found", 1)
						}
					}
				}
				e.Run()
				c.Sample("%s party %d, %s: %d states, %d endings, outcomes %d", w.Name, id, x.Name, e.States, e.Ended, len(e.Outcomes))
			}
			do(sim.Combo{Name: "honest", Menu: w.Honest(id)})
			w.Combos(id, 1, pick, do)
		})
	}
}

// large searches the sessions of groups of n parties at each way of ending, with the timeout at eight stages
// and a fault in each round.
func large(c *lib.Ctx, n, t int) {
	for _, keygen := range []bool{true, false} {
		keygen := keygen
		c.Case(fmt.Sprintf("big/%d parties t=%d keygen %v", n, t, keygen), func() {
			w, i := sim.BigWorld(keygen, n, t, n/2, "c16 big")
			h := w.Honest(i)
			for k := range h {
				h[k].After = 0
			}
			e := &sim.Explorer{C: c, P: w.Proto(i, T), Menu: h}
			do := func(hist []sim.Event) {
				s, m := e.Replay(hist)
				c.Check(m.Done, "%s: the history does not end the session", e.P.Name)
				search(c, w, e, s, m, hist)
				c.Trans(len(hist))
				c.Trace(1)
				c.Distinct(w.Name, len(hist), m.Err)
			}
			for _, o := range []sim.Order{sim.Orders(n - 1)[0], sim.Orders(n - 1)[3]} {
				do(o.Deliver(false, nil))
				for _, stop := range []int{0, 1, n / 2, n - 2, n - 1, n, n + n/2, 2*n - 3} {
					var hist []sim.Event
					for k, ev := 0, o.Deliver(true, nil); k < len(ev) && stop > 0; k++ {
						hist = append(hist, ev[k])
						if ev[k].Kind == 'd' {
							stop--
						}
					}
					do(append(hist, sim.Event{Kind: 'p'}, sim.Event{Kind: 't', D: int64(T)}))
				}
				for _, x := range []int{0, n - 2} { // the first and the last of the others cheat
					j := h[x].From
					for _, f := range []sim.Msg{w.FaultyFirst(j)[0], sim.Enc("wrong", w.WrongSecond(j, i, 1))} {
						menu := append([]sim.Msg{}, h...)
						for k := range menu {
							if menu[k].From == j && menu[k].Type == f.Type {
								menu[k] = f
							}
						}
						e.Menu, e.P = menu, w.Proto(i, T)
						do(o.Deliver(false, nil))
						e.Menu = h
					}
				}
			}
		})
	}
}

func search(c *lib.Ctx, w *sim.World, e *sim.Explorer, s *sim.Sess, m *sim.Model, h []sim.Event) {
	pats := sim.Secrets(w, s, m)
	c.Eval(len(pats))
	roots := []interface{}{s.St}
	if m.Err {
		roots = append(roots, s.KG, s.SG)
	}
	for _, r := range roots {
		if found := deep.Find(r, pats); len(found) > 0 {
			sort.Strings(found)
			c.Failf("%s: after %s (over, error %v) the session still holds: %s", e.P.Name, e.Show(h), s.St.Err(), strings.Join(found, "; "))
		}
	}
}
