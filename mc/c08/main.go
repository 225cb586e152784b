//go:build go1.21

// C08: no bytes received from the network can crash or wedge a party.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func ids(v ...party.ID) []party.ID { return v }

func main() {
	lib.Run(lib.Config{
		ID: "C08", Level: "fault_enumeration",
		Rule:   "every mutant of every message kind (every truncation, extensions, all kind bytes, identifier and degree alphabets, special values in every field, every bit flip) and all byte strings up to length 2 are decoded; the verdict of decoding is compared with a reference grammar; every mutant that decodes (and every message object lacking its content) is handed to a session in every reachable state of a catalogue (before start, each partial collection, between rounds, finished, aborted) and processed, then the session is driven to its end with the remaining honest messages; everything observable is compared with the reference model. Non-trivial: distinct mutants that decode or reach a session",
		Bounds: "2-3 parties, both protocols; degree up to 65534 (and 65535, which must be refused)",
	}, run)
}

func run(c *lib.Ctx) {
	kg := func(t int, v ...party.ID) *sim.World { return sim.KeygenWorld(v, t, fmt.Sprint("c08", v, t)) }
	sg := func(all []party.ID, t int, v ...party.ID) *sim.World {
		return sim.SignWorld(sim.Deal(all, t, "c08"), v, []byte("message"), fmt.Sprint("c08", v, t))
	}
	worlds := []*sim.World{kg(1, 1, 2, 3), sg(ids(1, 2, 3, 4), 1, 1, 2, 3), kg(1, 1, 2), sg(ids(1, 2, 3), 1, 1, 2)}
	c.Case("short strings", func() {
		for _, m := range sim.Short(c.Pick(2, 2)) {
			decode(c, m)
		}
	})
	c.Case("headers without body", func() {
		for t := 0; t < 256; t++ {
			for _, f := range []party.ID{0, 1, 65535} {
				for _, to := range []party.ID{0, 1, 2} {
					decode(c, sim.Mutant{Name: fmt.Sprintf("header %d %d %d", t, f, to), B: sim.Head(t, f, to)})
				}
			}
		}
	})
	c.Case("largest degrees with all their points", func() { huge(c) })
	for wi, w := range worlds {
		w := w
		i := w.IDs[1]
		for k := 0; k < 4; k++ {
			for part := 0; part < 4; part++ {
				k, part := k, part
				c.Case(fmt.Sprintf("%s/mutants of message %d/part %d", w.Name, k, part), func() {
					mutants(c, w, i, k, part, 4, wi < 2 || !c.Quick())
				})
			}
		}
		c.Case(w.Name+"/objects without content", func() {
			for _, h := range states(w, i) {
				for _, x := range w.Malformed(i) {
					drive(c, w, i, h, x)
				}
			}
		})
	}
}

// decode checks decoding alone and reports whether it succeeded.
func decode(c *lib.Ctx, m sim.Mutant) bool {
	c.Eval(1)
	var msg messages.Message
	err := msg.UnmarshalBinary(append([]byte(nil), m.B...))
	if want := sim.Canonical(m.B); (err == nil) != want {
		c.Failf("decoding %q (%s): error %v, but by the reference grammar the bytes are valid: %v", fmt.Sprintf("%.80x", m.B), m.Name, err, want)
	}
	if err == nil {
		c.Distinct(m.B)
	}
	return err == nil
}

func mutants(c *lib.Ctx, w *sim.World, i party.ID, k, part, parts int, bits bool) {
	// message k: first or second round of this world's protocol, from the first peer; or of the other
	j := w.IDs[0]
	var b []byte
	switch k {
	case 0:
		b = w.First(j)
	case 1:
		b = w.Second(j, i)
	case 2:
		b = w.Strays(i)[5].B
	case 3:
		b = w.Strays(i)[6].B
	}
	alphabet := []party.ID{0, i, j, 9, 255, 256, 65535}
	hs := states(w, i)
	for n, m := range sim.Mutants(b, alphabet, bits) {
		if n%parts != part || c.Expired() {
			continue
		}
		ok := decode(c, m)
		x := sim.Msg{Name: m.Name, B: m.B, Malformed: !ok}
		if ok {
			x.From, x.To, x.Type = sim.From(m.B), sim.To(m.B), sim.Typ(m.B)
		}
		for s, h := range hs {
			if !ok && (n+s)%len(hs) != 0 {
				continue // refused by decoding: the session never sees it; one state each
			}
			drive(c, w, i, h, x)
		}
	}
}

// states are histories over the honest menu (and one faulty message appended to it) that leave the
// session in different states.
type start struct {
	name string
	menu []sim.Msg
	h    []sim.Event
}

func states(w *sim.World, i party.ID) []start {
	menu := w.Honest(i)
	n := len(menu) / 2
	d := func(k int) sim.Event { return sim.Event{Kind: 'd', I: k} }
	p := sim.Event{Kind: 'p'}
	var out []start
	add := func(name string, evs ...sim.Event) { out = append(out, start{name, menu, evs}) }
	add("before start")
	add("before start, peer's message waiting", d(n-1))
	add("started", p)
	add("partly received", p, d(n-1))
	if n == 2 {
		add("first peer's received", p, d(0))
	}
	first := []sim.Event{p}
	for k := 0; k < n; k++ {
		first = append(first, d(k))
	}
	add("all of round 1 waiting", first...)
	second := append(append([]sim.Event{}, first...), p)
	add("round 2", second...)
	add("round 2, partly received", append(append([]sim.Event{}, second...), d(2*n-1))...)
	add("early round 2 message", p, d(2*n-1))
	all := append([]sim.Event{}, second...)
	for k := n; k < 2*n; k++ {
		all = append(all, d(k))
	}
	add("all of round 2 waiting", all...)
	add("finished", append(append([]sim.Event{}, all...), p)...)
	bad := append(append([]sim.Msg{}, menu...), sim.Enc("wrong", w.WrongSecond(w.IDs[0], i, 1)))
	out = append(out, start{"aborted", bad, append(append(append([]sim.Event{}, second...), d(len(menu))), p)})
	if n > 1 {
		out[len(out)-1].h = append(append([]sim.Event{}, second...), d(len(menu)), d(2*n-1), p)
	}
	return out
}

func drive(c *lib.Ctx, w *sim.World, i party.ID, st start, x sim.Msg) {
	menu := append(append([]sim.Msg{}, st.menu...), x)
	e := &sim.Explorer{C: c, P: proto(w, i), Menu: menu}
	h := append(append([]sim.Event{}, st.h...), sim.Event{Kind: 'd', I: len(menu) - 1}, sim.Event{Kind: 'p'})
	used := map[int]bool{}
	for _, ev := range st.h {
		if ev.Kind == 'd' {
			used[ev.I] = true
		}
	}
	honest := w.Honest(i)
	for k := range honest {
		if !used[k] {
			h = append(h, sim.Event{Kind: 'd', I: k}, sim.Event{Kind: 'p'})
		}
	}
	_, m := e.Replay(h)
	c.Eval(1)
	if len(x.B)%7 == 3 {
		c.Sample("%s, %s: %s", w.Name, st.name, e.Show(h)+fmt.Sprintf(" => error %v round %d", m.Err, m.ErrRound))
	}
	c.Distinct(w.Name, st.name, x.Name)
}

var protos = map[string]*sim.Proto{}

// proto shares the baselines between cases.
func proto(w *sim.World, i party.ID) *sim.Proto {
	k := fmt.Sprint(w.Name, i)
	if protos[k] == nil {
		protos[k] = w.Proto(i, 0)
	}
	return protos[k]
}

func huge(c *lib.Ctx) {
	w := sim.KeygenWorld(ids(1, 2), 1, "c08h")
	pt := sim.BaseEnc(big.NewInt(3))
	b := append([]byte(nil), w.First(1)[:69]...)
	b = append(b, 0xff, 0xfe)
	for i := 0; i < 65535; i++ {
		b = append(b, pt...)
	}
	start := time.Now()
	var m messages.Message
	err := m.UnmarshalBinary(b)
	c.Check(err == nil, "a commitment of degree 65534 with all its points does not decode: %v", err)
	c.Note("decoding the largest message took ms", int(time.Since(start).Milliseconds()))
	out, err := m.MarshalBinary()
	c.Check(err == nil && len(out) == len(b) && m.Size() == len(b), "the largest message does not encode to itself: %v, %d bytes", err, len(out))
	s := w.Proto(2, 0).New()
	s.Process()
	if err := s.St.HandleMessage(&m); err != nil {
		c.Failf("refused: %v", err)
	}
	s.Process()
	c.Check(s.St.IsFinished() && s.St.Err() != nil, "a commitment of degree 65534 is accepted for threshold 1")
	b[70] = 0xff
	b = append(b, pt...)
	var m2 messages.Message
	if err := m2.UnmarshalBinary(b); err == nil {
		s := w.Proto(2, 0).New()
		s.Process()
		s.St.HandleMessage(&m2)
		s.Process()
		c.Check(s.St.IsFinished() && s.St.Err() != nil, "a commitment of degree 65535 is accepted for threshold 1")
	}
	c.Eval(2)
	c.Distinct("huge")
}
