//go:build go1.21

// C05: duplicates, strays and conflicting repeats never affect a session.
package main

import (
	"fmt"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func ids(v ...party.ID) []party.ID { return v }

func main() {
	lib.Run(lib.Config{
		ID: "C05", Level: "model_checking",
		Rule:   "breadth-first search over every history that interleaves the expected messages, processing steps and at most B stray messages (exact repeats, conflicting repeats that are valid or invalid, other protocol, misaddressed, from non-participants, from the party itself) delivered at every possible point; after every step everything observable is compared with the reference model, whose outputs are those of an undisturbed session given only the accepted messages",
		Bounds: "2 parties with B=2, 3 parties with B=1 (thorough: 3 parties B=2, 4 parties B=1), both protocols; groups of up to 34 (thorough: 130) parties in 16 systematic schedules each, with everything accepted so far repeated at 5-8 points, exactly and with other contents",
	}, run)
}

func run(c *lib.Ctx) {
	kg := func(t int, v ...party.ID) *sim.World { return sim.KeygenWorld(v, t, fmt.Sprint("c05", v, t)) }
	sg := func(all []party.ID, t int, v ...party.ID) *sim.World {
		return sim.SignWorld(sim.Deal(all, t, "c05"), v, []byte("message"), fmt.Sprint("c05", v, t))
	}
	for _, w := range []*sim.World{kg(1, 1, 2), sg(ids(1, 2, 3), 1, 1, 3)} {
		for _, id := range w.IDs {
			explore(c, w, id, 2, 0)
		}
	}
	for _, w := range []*sim.World{kg(1, 1, 2, 3), kg(2, 2, 256, 65535), sg(ids(1, 2, 3, 4), 1, 1, 2, 4), sg(ids(3, 256, 65535), 2, 3, 256, 65535)} {
		for k, id := range w.IDs {
			explore(c, w, id, 1, k%2)
		}
	}
	// big groups: at the start, half way through, before the last message and at every eighth message in
	// between, every peer repeats what it has sent (or will send) with other contents
	sizes := []int{9, 18, 34}
	if !c.Quick() {
		sizes = append(sizes, 5, 10, 17, 33, 66, 130)
	}
	sim.BigGroups(c, sizes, 0, func(w *sim.World, i party.ID) []sim.Msg {
		var out []sim.Msg
		for _, j := range w.IDs {
			if j != i {
				out = append(out, sim.Enc(fmt.Sprintf("other valid r1 from %d", j), w.AltFirst(j)), sim.Enc(fmt.Sprintf("wrong r2 from %d", j), w.WrongSecond(j, i, 1)))
			}
		}
		return out
	}, func(w *sim.World, o sim.Order, k, menu int) []sim.Event {
		n := len(w.IDs)
		if k%(n/3) != 0 && k != n-2 && k != 2*n-3 {
			return nil
		}
		// repeat everything accepted so far, in the other direction
		var ev []sim.Event
		for x := k - 1; x >= 0; x-- {
			p := o.Seq[x]
			j, r := p%(n-1), p/(n-1)
			ev = append(ev, sim.Event{Kind: 'd', I: 2*(n-1) + 2*j + r}, sim.Event{Kind: 'd', I: p})
		}
		return ev
	})
	if !c.Quick() {
		for _, w := range []*sim.World{kg(1, 1, 2, 3), sg(ids(1, 2, 3, 4), 2, 1, 2, 4)} {
			explore(c, w, w.IDs[1], 2, 1)
		}
		for _, w := range []*sim.World{kg(2, 1, 2, 3, 4), sg(ids(1, 2, 3, 4), 2, 1, 2, 3, 4)} {
			explore(c, w, w.IDs[2], 1, 3)
		}
	}
}

// explore splits the strays over cases: each case offers one stray as the first (and, with budget 2,
// all strays listed no earlier as the second).
func explore(c *lib.Ctx, w *sim.World, id party.ID, budget, perm int) {
	n := 0
	c.Case(fmt.Sprintf("%s/party %d/catalogue", w.Name, id), func() {
		c.Note("strays", len(w.Strays(id)))
		if len(w.Strays(id)) > sim.StrayCount(w) {
			panic("stray count")
		}
	})
	n = sim.StrayCount(w)
	for x := 0; x < n; x++ {
		x := x
		c.Case(fmt.Sprintf("%s/party %d/budget %d/stray %d", w.Name, id, budget, x), func() {
			strays := w.Strays(id)
			if x >= len(strays) {
				return
			}
			menu := append(w.Honest(id), strays[x])
			if budget > 1 {
				menu = append(menu, strays[x:]...)
			}
			e := &sim.Explorer{C: c, P: w.Proto(id, 0), Menu: menu, Budget: budget, Perm: perm}
			e.Run()
			c.Sample("%s party %d, strays from %q, budget %d: %d states, %d transitions", w.Name, id, strays[x].Name, budget, e.States, e.Transitions)
		})
	}
}
