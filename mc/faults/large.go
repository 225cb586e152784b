//go:build go1.21

package faults

import (
	"fmt"
	"strings"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

// Large runs a big group against party number at of the list: every other party in turn (every one
// of them, or every step-th and the ones at the ends) sends one faulty message of each kind, and pairs
// of parties send second-round messages whose errors cancel out.
func Large(c *lib.Ctx, w *sim.World, at, step int) {
	const parts = 8
	n := len(w.IDs)
	i := w.IDs[at]
	for part := 0; part < parts; part++ {
		part := part
		key := fmt.Sprintf("large/%d parties t=%d keygen %v/party %d/part %d", n, w.T, w.Keygen, i, part)
		c.Case(key, func() {
			short := *w
			short.Name = fmt.Sprintf("%d parties t=%d keygen %v", n, w.T, w.Keygen)
			short.Synthetic(i)
			w := &short
			honest := w.Honest(i)
			if part == 0 {
				one(c, w, i, sim.Combo{Name: "nothing", Faulty: map[party.ID]bool{}, Menu: honest}, 1, false)
			}
			for x, j := range w.IDs {
				if j == i || x%parts != part || x%step != 0 && x > 2 && x < n-3 {
					continue
				}
				if c.Expired() {
					c.Cap(key)
					return
				}
				run := func(name string, repl ...sim.Msg) {
					m := append([]sim.Msg(nil), honest...)
					faulty := map[party.ID]bool{}
					for _, r := range repl {
						faulty[r.From] = true
						for k := range m {
							if m[k].From == r.From && m[k].Type == r.Type {
								r.After = m[k].After
								m[k] = r
							}
						}
					}
					one(c, w, i, sim.Combo{Name: name, Faulty: faulty, Menu: m}, 1, false)
				}
				for _, f := range w.FaultyFirst(j) {
					if w.Keygen && (strings.HasSuffix(f.Name, "response+1") || strings.HasSuffix(f.Name, "degree too high") || strings.HasSuffix(f.Name, "degree too low") || strings.HasSuffix(f.Name, "top coefficient replaced")) ||
						strings.HasSuffix(f.Name, ": D identity") || strings.HasSuffix(f.Name, ": E identity") {
						run(f.Name, f)
					}
				}
				wrong := func(j party.ID, d int64) sim.Msg {
					return sim.Enc(fmt.Sprintf("r2 from %d: %+d", j, d), w.WrongSecond(j, i, d))
				}
				run(fmt.Sprintf("r2 from %d: +1", j), wrong(j, 1))
				for _, k := range []party.ID{w.IDs[(x+1)%n], w.IDs[(x+n/2)%n]} {
					if k != i && k != j {
						run(fmt.Sprintf("r2 from %d: +1, from %d: -1", j, k), wrong(j, 1), wrong(k, -1))
					}
				}
			}
		})
	}
}
