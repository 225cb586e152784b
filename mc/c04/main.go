//go:build go1.21

// C04: every delivery order completes the protocol with the same result.
package main

import (
	"bytes"
	"fmt"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func ids(v ...party.ID) []party.ID { return v }

func main() {
	lib.Run(lib.Config{
		ID: "C04", Level: "model_checking",
		Rule: "one case per party, configuration and map iteration order: breadth-first search over every order in which the peers' messages can be delivered to it and every way processing interleaves with that (states are histories replayed on the real session and merged by the digest of its object graph); " +
			"one case per configuration: exhaustive search of the product of all parties' recorded state graphs, where a message can be delivered once its sender has actually emitted it",
		Bounds: "key generation and signing with 2-4 parties (thorough: 5), every delivery order allowed by causality, at most one redundant processing step in a row; global product for 2 and 3 parties; groups of up to 66 (thorough: 258) parties in 16 systematic schedules each",
	}, run)
}

func run(c *lib.Ctx) {
	type cfg struct {
		ids []party.ID
		t   int
	}
	kg := []cfg{{ids(1, 2), 1}, {ids(1, 2, 3), 1}, {ids(1, 2, 3), 2}, {ids(3, 256, 65535), 1}, {ids(1, 2, 3, 4), 2}}
	if !c.Quick() {
		kg = append(kg, cfg{ids(1, 2, 3, 4), 1}, cfg{ids(1, 2, 3, 4), 3}, cfg{ids(1, 2, 3, 4, 5), 2})
	}
	for _, g := range kg {
		check(c, sim.KeygenWorld(g.ids, g.t, fmt.Sprint("c04", g)))
	}
	sg := []cfg{{ids(1, 2), 1}, {ids(1, 3), 1}, {ids(1, 2, 3), 1}, {ids(2, 3, 4), 2}, {ids(3, 256, 65535), 2}, {ids(1, 2, 3, 4), 2}}
	if !c.Quick() {
		sg = append(sg, cfg{ids(1, 2, 3, 4), 3}, cfg{ids(1, 2, 3, 4, 5), 3})
	}
	for _, g := range sg {
		all := g.ids
		if len(all) < 5 {
			all = append(append([]party.ID{}, g.ids...), 9)
		}
		check(c, sim.SignWorld(sim.Deal(all, g.t, "c04"), g.ids, []byte("message"), fmt.Sprint("c04", g)))
	}
	sizes := []int{5, 9, 10, 17, 18, 33, 34, 66}
	if !c.Quick() {
		sizes = append(sizes, 11, 12, 13, 14, 15, 16, 19, 20, 32, 35, 65, 129, 130, 257, 258)
	}
	sim.BigGroups(c, sizes, 0, nil, nil)
}

func explorer(c *lib.Ctx, w *sim.World, id party.ID) *sim.Explorer {
	e := &sim.Explorer{C: c, P: w.Proto(id, 0), Menu: w.Honest(id)}
	e.Leaf = func(s *sim.Sess, m *sim.Model, h []sim.Event) {
		if m.Err || s.OutKey() != w.Run.Sess[id].OutKey() {
			c.Failf("%s: order %s ends with %q, lockstep with %q", w.Name, e.Show(h), s.OutKey(), w.Run.Sess[id].OutKey())
		}
	}
	return e
}

func check(c *lib.Ctx, w *sim.World) {
	perms := 1
	for i := 2; i < len(w.IDs); i++ {
		perms *= i
	}
	if perms > 2 && c.Quick() {
		perms = 2
	}
	if perms > 6 {
		perms = 6
	}
	for _, id := range w.IDs {
		id := id
		for p := 0; p < perms; p++ {
			p := p
			c.Case(fmt.Sprintf("%s/party %d/maps %d", w.Name, id, p), func() {
				e := explorer(c, w, id)
				e.Perm = p
				e.Run()
				c.Sample("%s party %d, map order %d: %d states, %d transitions, outcomes %d", w.Name, id, p, e.States, e.Transitions, len(e.Outcomes))
			})
		}
	}
	if len(w.IDs) <= 3 {
		c.Case(w.Name+"/global", func() { global(c, w) })
	}
}

// global explores the product of the recorded graphs.
func global(c *lib.Ctx, w *sim.World) {
	var gs []*sim.Explorer
	for _, id := range w.IDs {
		e := explorer(c, w, id)
		e.Record = true
		e.Run()
		if c.Expired() {
			c.Cap("global search")
			return
		}
		gs = append(gs, e)
	}
	index := map[party.ID]int{}
	for i, id := range w.IDs {
		index[id] = i
	}
	// sent[j][s]: which of party j's messages have been emitted in its state s, as a set of bodies
	has := func(j, s int, b []byte) bool {
		for _, x := range gs[j].Graph[s].Emit {
			if bytes.Equal(x, b) {
				return true
			}
		}
		return false
	}
	type st [3]int
	seen := map[st]bool{{}: true}
	queue := []st{{}}
	trans, ends := 0, 0
	for len(queue) > 0 {
		g := queue[0]
		queue = queue[1:]
		progress := false
		for i := range gs {
			for ev, to := range gs[i].Graph[g[i]].Next {
				if ev.Kind == 'd' {
					m := gs[i].Menu[ev.I]
					if !has(index[m.From], g[index[m.From]], m.B) {
						continue
					}
				}
				n := g
				n[i] = to
				trans++
				if n != g {
					progress = true
				}
				if !seen[n] {
					seen[n] = true
					queue = append(queue, n)
				}
			}
		}
		if progress {
			continue
		}
		ends++
		for i, id := range w.IDs {
			x := gs[i].Graph[g[i]]
			if !x.Done || x.Err || x.Out != w.Run.Sess[id].OutKey() {
				c.Failf("%s: everything is delivered and processed but party %d is done=%v error=%v output %q", w.Name, id, x.Done, x.Err, x.Out)
			}
		}
	}
	c.Check(ends > 0, "%s: no execution ends", w.Name)
	c.State(len(seen))
	c.Trans(trans)
	c.Note("global_terminal_states", ends)
	c.Sample("%s: global product %d states, %d transitions, %d terminal states, all complete", w.Name, len(seen), trans, ends)
}
