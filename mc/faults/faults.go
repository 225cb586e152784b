//go:build go1.21

// Package faults holds the exploration shared by C06 and C07: every choice of faulty messages, every
// delivery order, judged by reference arithmetic.
package faults

import (
	"fmt"
	"sort"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

// Explore runs all combinations of at most max faulty messages against party i. Every combination
// runs in canonical order under every map order; with orders set, in every delivery order.
func Explore(c *lib.Ctx, w *sim.World, i party.ID, max, pick, maps int, orders bool) {
	const parts = 8
	for part := 0; part < parts; part++ {
		part := part
		key := fmt.Sprintf("%s/party %d/faults<=%d pick %d orders %v/part %d", w.Name, i, max, pick, orders, part)
		c.Case(key, func() {
			n := 0
			w.Combos(i, max, pick, func(x sim.Combo) {
				n++
				if n%parts != part {
					return
				}
				if c.Expired() {
					c.Cap(key)
					return
				}
				one(c, w, i, x, maps, orders)
			})
		})
	}
}

func one(c *lib.Ctx, w *sim.World, i party.ID, x sim.Combo, maps int, orders bool) {
	p := w.Proto(i, 0)
	// the messages of several faulty senders may be judged only relative to one another; whoever is
	// blamed must be among them
	check := func(m *sim.Model, how string) {
		for id := range m.Who {
			if m.Err && !x.Faulty[id] {
				c.Failf("%s: with [%s] (%s): %d is to blame by the reference although it sent only honest messages", w.Name, x.Name, how, id)
			}
		}
		if m.Done {
			c.Distinct(w.Name, i, x.Name)
		}
	}
	for k := 0; k < maps; k++ {
		e := &sim.Explorer{C: c, P: p, Menu: x.Menu, Perm: k}
		var hist []sim.Event
		hist = append(hist, sim.Event{Kind: 'p'})
		h := len(x.Menu) / 2
		for n := range x.Menu {
			hist = append(hist, sim.Event{Kind: 'd', I: n})
			if n == h-1 || n == 2*h-1 {
				hist = append(hist, sim.Event{Kind: 'p'})
			}
		}
		hist = append(hist, sim.Event{Kind: 'p'})
		_, m := e.Replay(hist)
		check(m, "canonical order")
		c.Eval(1)
		c.Trace(1)
	}
	if orders {
		e := &sim.Explorer{C: c, P: p, Menu: x.Menu}
		e.Leaf = func(s *sim.Sess, m *sim.Model, h []sim.Event) { check(m, e.Show(h)) }
		e.Run()
		c.Eval(e.Ended)
		var o []string
		for k, n := range e.Outcomes {
			if len(k) > 40 {
				k = k[:40]
			}
			o = append(o, fmt.Sprintf("%s x%d", k, n))
		}
		sort.Strings(o)
		c.Sample("%s party %d, %s: %d states, outcomes %v", w.Name, i, x.Name, e.States, o)
	}
}
