//go:build go1.21

// C02: no signature is released unless it verifies, and t or fewer cannot sign.
package main

import (
	"fmt"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vclock"
)

func ids(v ...party.ID) []party.ID { return v }

func main() {
	lib.Run(lib.Config{
		ID: "C02", Level: "model_checking",
		Rule:        "(a) every (n,t) and every signer subset of at most t members runs complete real sessions; (b) every combination in which each signer's session is given its own message, signer set, public data and key share out of a catalogue; (c) breadth-first search over all delivery and processing orders of honest, faulty and cancelling messages and timeouts; after every single call on every session: a signature is exposed only if the session is over without error, and then it verifies (crypto/ed25519 and library) for that session's message and group key; sessions with at most t signers end with an error",
		Bounds:      "(a) n <= 5 (thorough 7) and 4 identifier spreads, and t = n signers for n up to 130 (thorough 300); (b) 2 and 3 signers, 7 variants each; (c) 2 and 3 signers, at most 2 faulty messages",
		Assumptions: []string{"the computational hardness behind 't or fewer cannot sign' is not addressed: what is decided is that the code refuses"},
	}, run)
}

// setup is what one session is given.
type setup struct {
	ids party.IDSlice
	sec *eddsa.SecretShare
	pub *eddsa.Public
	msg []byte
}

// released checks the rule on one session after every call.
func released(c *lib.Ctx, what string, s *sim.Sess, g setup) {
	c.State(1)
	if s.SG.Signature == nil {
		return
	}
	if !s.St.IsFinished() || s.St.Err() != nil {
		c.Failf("%s: signer %d exposes a signature although the session is finished=%v with error %v", what, s.ID, s.St.IsFinished(), s.St.Err())
	}
	if err := sim.CheckSig(g.pub, g.msg, s.SG.Signature); err != nil {
		c.Failf("%s: signer %d released a signature: %v", what, s.ID, err)
	}
	c.Note("signatures released and verified", 1)
}

// loose runs sessions in lockstep, going on whatever happens.
func loose(c *lib.Ctx, what string, gs []setup, label string) []*sim.Sess {
	vclock.Reset()
	var sess []*sim.Sess
	var live []setup
	for _, g := range gs {
		s, err := sim.NewSign(g.ids, g.sec, g.pub, g.msg, 0, rnd.New(fmt.Sprint("c02", label, g.sec.ID)))
		if err != nil {
			c.Note("sessions refused at creation", 1)
			continue
		}
		sess = append(sess, s)
		live = append(live, g)
	}
	all := func() {
		for i, s := range sess {
			released(c, what, s, live[i])
		}
	}
	var pending [][]byte
	for step := 0; step < 4; step++ {
		var next [][]byte
		for _, s := range sess {
			for _, m := range pending {
				if sim.From(m) != s.ID {
					_ = s.Handle(m)
					all()
					c.Trans(1)
				}
			}
			next = append(next, s.Process()...)
			c.Trans(1)
			all()
		}
		pending = next
	}
	c.Eval(1)
	c.Trace(1)
	return sess
}

func run(c *lib.Ctx) {
	text := []byte("message")
	for n := 2; n <= c.Pick(5, 7); n++ {
		for t := 1; t < n; t++ {
			for _, set := range []party.IDSlice{sim.Seq(n), sim.Spread(n), shift(n, 254), shift(n, 65535-n+1)} {
				set, t := set, t
				c.Case(fmt.Sprintf("few/%v t=%d", set, t), func() {
					k := sim.Deal(set, t, fmt.Sprint("c02", set, t))
					for _, s := range sim.Sub(set, 1, t) {
						var gs []setup
						for _, id := range s {
							gs = append(gs, setup{s, k.Secret[id], k.Public, text})
						}
						what := fmt.Sprintf("t=%d, only %v sign", t, s)
						for _, x := range loose(c, what, gs, fmt.Sprint(set, t, s)) {
							if !x.St.IsFinished() || x.St.Err() == nil || x.SG.Signature != nil {
								c.Failf("%s: signer %d ends with finished=%v error=%v signature=%v", what, x.ID, x.St.IsFinished(), x.St.Err(), x.SG.Signature != nil)
							}
						}
						c.Distinct("few", s, t)
					}
					c.Sample("%v t=%d: %d subsets of at most t", set, t, len(sim.Sub(set, 1, t)))
				})
			}
		}
	}
	// as many signers as the threshold, however many that is
	sizes := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130}
	if !c.Quick() {
		sizes = append(sizes, 100, 191, 192, 254, 255, 256, 257, 258, 300)
	}
	for _, n := range sizes {
		for _, at := range []int{0, n - 1} {
			n, at := n, at
			c.Case(fmt.Sprintf("few/%d signers/number %d", n, at), func() {
				w, i := sim.BigWorld(false, n, n, at, "c02 few")
				w.NoRun()
				h := w.Honest(i)
				e := &sim.Explorer{C: c, P: w.Proto(i, 0), Menu: h}
				s, m := e.Replay(sim.Orders(n - 1)[0].Deliver(false, nil))
				c.Check(m.Err, "%s: the reference expects no error", w.Name)
				if !s.St.IsFinished() || s.St.Err() == nil || s.SG.Signature != nil {
					c.Failf("%s: only %d sign, but signer %d ends with finished=%v error=%v signature=%v", w.Name, n, i, s.St.IsFinished(), s.St.Err(), s.SG.Signature != nil)
				}
				c.Distinct("few", n, at)
			})
		}
	}
	// everything a session can be given wrongly
	for _, x := range []struct {
		all, s party.IDSlice
		t      int
	}{{ids(1, 2, 3), ids(1, 3), 1}, {ids(1, 2, 3, 4), ids(1, 2, 4), 1}, {ids(2, 256, 65535), ids(2, 256, 65535), 2}} {
		x := x
		const variants = 8
		var sizes []int
		for range x.s {
			sizes = append(sizes, variants)
		}
		for first := 0; first < variants; first++ {
			first := first
			c.Case(fmt.Sprintf("inconsistent/%v of %v t=%d first %d", x.s, x.all, x.t, first), func() {
				k := sim.Deal(x.all, x.t, "c02 base")
				lib.Tuples(sizes[1:], func(v []int) {
					v = append([]int{first}, v...)
					var gs []setup
					for i, id := range x.s {
						gs = append(gs, variant(k, x.s, id, text, v[i]))
					}
					loose(c, fmt.Sprintf("sessions of %v with variants %v", x.s, v), gs, fmt.Sprint(x.s, v))
					c.Distinct("inconsistent", x.s, v)
				})
			})
		}
	}
	// all orders, faults, timeouts
	sg := func(all []party.ID, t int, v ...party.ID) *sim.World {
		return sim.SignWorld(sim.Deal(all, t, "c02"), v, text, fmt.Sprint("c02", v, t))
	}
	few := sg(ids(1, 2, 3), 2, 1, 3)
	few.NoRun()
	few3 := sg(ids(1, 2, 3, 4), 3, 1, 2, 4)
	few3.NoRun()
	for _, w := range []*sim.World{sg(ids(1, 2, 3), 1, 1, 2), few, sg(ids(1, 2, 3, 4), 2, 1, 3, 4), few3} {
		w := w
		i := w.IDs[len(w.IDs)-1]
		const parts = 4
		for part := 0; part < parts; part++ {
			part := part
			c.Case(fmt.Sprintf("orders/%s/party %d/part %d", w.Name, i, part), func() {
				n := 0
				do := func(x sim.Combo) {
					n++
					if n%parts != part || c.Expired() {
						return
					}
					e := &sim.Explorer{C: c, P: w.Proto(i, time.Second), Menu: x.Menu, Advances: []int64{1e9}, MaxTime: 1e9}
					g := setup{w.IDs, w.Keys.Secret[i], w.Keys.Public, text}
					e.Each = func(s *sim.Sess, m *sim.Model, h []sim.Event) {
						released(c, w.Name+" with "+x.Name+": "+e.Show(h), s, g)
						if len(w.IDs) <= w.T && s.St.IsFinished() && s.St.Err() == nil {
							c.Failf("%s: %d signers with t=%d finish without error after %s", w.Name, len(w.IDs), w.T, e.Show(h))
						}
					}
					if len(w.IDs) > 2 && x.Name != "honest" {
						e.Advances = nil // faults in every order, timeouts on the honest runs
					}
					e.Run()
					c.Distinct(w.Name, x.Name)
				}
				do(sim.Combo{Name: "honest", Menu: w.Honest(i)})
				if len(w.IDs) == 2 {
					w.Combos(i, 2, 0, do)
				} else {
					w.Combos(i, 1, c.Pick(2, 0), do)
					cancel(w, i, do)
				}
			})
		}
	}
}

// cancel offers pairs of second-round errors that add up to zero.
func cancel(w *sim.World, i party.ID, do func(sim.Combo)) {
	peers := w.Proto(i, 0).Others()
	for _, d := range []int64{1, 2, 1 << 32} {
		menu := w.Honest(i)[:len(peers)]
		for k, j := range peers {
			v := []int64{d, -d, 0}[k%3]
			h := w.Second(j, i)
			x := sim.Enc(fmt.Sprintf("r2 from %d %+d", j, v), sim.Cat(h[:5], ref.LE(ref.Add(ref.FromLE(h[5:37]), ref.Int(v)))))
			x.After = 1
			menu = append(menu, x)
		}
		do(sim.Combo{Name: fmt.Sprintf("cancelling by %d", d), Menu: menu})
	}
}

func shift(n, by int) party.IDSlice {
	var out party.IDSlice
	for i := 0; i < n; i++ {
		out = append(out, party.ID(by+i))
	}
	return out
}

// variant gives a session something else than the others.
func variant(k *sim.Keys, s party.IDSlice, id party.ID, msg []byte, v int) setup {
	g := setup{s, k.Secret[id], k.Public, msg}
	copyPub := func() *eddsa.Public {
		p := *k.Public
		p.Shares = map[party.ID]*ristretto.Element{}
		for i, e := range k.Public.Shares {
			p.Shares[i] = e
		}
		return &p
	}
	other := func() *sim.Keys { return sim.Deal(k.IDs, int(k.T), "c02 other") }
	switch v {
	case 1:
		g.msg = append(append([]byte(nil), msg...), '!')
	case 2: // another key share, everything else right
		g.sec = eddsa.NewSecretShare(id, sim.Sc(ref.Add(k.Share[id], ref.Int(1))))
	case 3: // another key altogether
		o := other()
		g.sec, g.pub = o.Secret[id], o.Public
	case 4: // another group key over the same shares
		g.pub = copyPub()
		g.pub.GroupKey = other().Public.GroupKey
	case 5: // another public share, of itself
		g.pub = copyPub()
		g.pub.Shares[id] = other().Public.Shares[id]
	case 6: // another public share, of somebody else
		g.pub = copyPub()
		for _, j := range s {
			if j != id {
				g.pub.Shares[j] = other().Public.Shares[j]
				break
			}
		}
	case 7: // all holders as signers
		g.ids = k.IDs
	}
	return g
}
