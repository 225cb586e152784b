//go:build go1.21

// C30: a key keeps working through any history of sessions.
package main

import (
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vclock"
)

func main() {
	lib.Run(lib.Config{
		ID: "C30", Level: "model_checking",
		Rule:   "a history is a sequence of operations of the holders of a key in one process: signings by every allowed set of signers (also twice the same, and with two sessions overlapping in both ways), signings that a cheater aborts in either round, that time out, that are abandoned and perhaps taken up again later, refused creations, storing and loading the key, verifications of bad signatures, further key generations by the same parties (successful, aborted, abandoned, taken up again) whose keys then sign. Every sequence up to the depth is executed on the real code; after every operation the key material must be exactly what it was, every signing by honest allowed signers must give all of them one signature that standard Ed25519 accepts under the key's own group key, every faulty one must end in the way of its fault, and no nonce commitment may occur twice in a history",
		Bounds: "3 and 4 holders, thresholds 1 and 2, keys from key generation and from a dealer; up to 23 operations, all sequences of 3 of a generated key and of 2 of a dealt one (thorough: one more), each followed by a signing of every allowed set; all pairs of signer sets of 5 and 6 holders",
	}, run)
}

func run(c *lib.Ctx) {
	depth := c.Pick(3, 4)
	for _, cfg := range []struct {
		t    int
		ids  party.IDSlice
		deal bool
	}{{1, party.IDSlice{1, 2, 3}, false}, {2, party.IDSlice{5, 256, 65535}, true}, {1, party.IDSlice{1, 2, 3, 4}, true}} {
		cfg := cfg
		os := operations(cfg.ids, cfg.t)
		d := depth
		if cfg.deal {
			d--
		}
		sizes := []int{}
		for i := 0; i < d-1; i++ {
			sizes = append(sizes, len(os))
		}
		lib.Tuples(sizes, func(first []int) {
			pre := append([]int(nil), first...)
			var names []string
			for _, i := range pre {
				names = append(names, os[i].name)
			}
			c.Case(fmt.Sprintf("%v t=%d: %s; then any", cfg.ids, cfg.t, strings.Join(names, "; ")), func() {
				for last := range os {
					history(c, cfg.ids, cfg.t, cfg.deal, os, append(append([]int(nil), pre...), last))
					if c.Expired() {
						return
					}
				}
			})
		})
	}
	pairs(c, sim.Seq(5), 1)
	pairs(c, sim.Seq(6), 2)
	pairs(c, party.IDSlice{1, 3, 255, 256, 257, 65535}, c.Pick(3, 1))
}

// pairs lets every allowed set of signers sign after every other.
func pairs(c *lib.Ctx, ids party.IDSlice, t int) {
	sets := sim.Sub(ids, t+1, len(ids))
	for _, a := range sets {
		a := a
		c.Case(fmt.Sprintf("%v t=%d: signing by %v, then by any", ids, t, a), func() {
			for _, b := range sets {
				where := fmt.Sprintf("%v t=%d: signing by %v, then by %v", ids, t, a, b)
				g := dealt(c, where, ids, t, where)
				rnd.Use(rnd.New("c30 " + where))
				g.sign(a)
				g.sign(b)
				g.intact()
				rnd.Use(nil)
				c.Distinct(where)
				c.Trace(1)
				c.Eval(1)
				c.Beat()
				if c.Expired() {
					return
				}
			}
		})
	}
}

func dealt(c *lib.Ctx, where string, ids party.IDSlice, t int, label string) *group {
	g := &group{c: c, where: where, ids: ids, t: t, pub: map[party.ID]*eddsa.Public{}, sec: map[party.ID]*eddsa.SecretShare{}, want: map[party.ID]string{}, nonces: map[string]string{}}
	k := sim.Deal(ids, t, label)
	for _, id := range ids {
		g.pub[id], g.sec[id] = k.Public, k.Secret[id]
	}
	g.note()
	return g
}

// ---- the group

type group struct {
	c      *lib.Ctx
	where  string
	ids    party.IDSlice
	t      int
	pub    map[party.ID]*eddsa.Public
	sec    map[party.ID]*eddsa.SecretShare
	want   map[party.ID]string
	key    []byte
	nonces map[string]string
	open   *signing // abandoned after its first round
	openKG *making
}

func (g *group) check(ok bool, format string, args ...interface{}) {
	if !ok {
		g.c.Failf("%s: "+format, append([]interface{}{g.where}, args...)...)
	}
}

func material(p *eddsa.Public, s *eddsa.SecretShare) string {
	return sim.PublicKey(p) + fmt.Sprintf(" secret id=%d s=%x p=%x", s.ID, s.Secret.Bytes(), s.Public.Bytes())
}

func (g *group) intact() {
	for _, id := range g.ids {
		m := material(g.pub[id], g.sec[id])
		g.check(m == g.want[id], "the key material of party %d has become %s, it was %s", id, m, g.want[id])
	}
}

type signing struct {
	g       *group
	signers party.IDSlice
	text    []byte
	st      map[party.ID]*state.State
	out     map[party.ID]*sign.Output
	r1, r2  map[party.ID][]byte
}

// The operations sign one and the same text, so that whatever is kept per text meets all of them.
func (g *group) start(signers party.IDSlice, timeout time.Duration) *signing {
	return g.startText(signers, []byte("text"), timeout)
}

func (g *group) startText(signers party.IDSlice, text []byte, timeout time.Duration) *signing {
	s := &signing{g: g, signers: signers, text: text, st: map[party.ID]*state.State{}, out: map[party.ID]*sign.Output{}, r1: map[party.ID][]byte{}, r2: map[party.ID][]byte{}}
	for _, id := range signers {
		st, out, err := frost.NewSignState(signers, g.sec[id], g.pub[id], text, timeout)
		g.check(err == nil, "signing by %v is refused: %v", signers, err)
		s.st[id], s.out[id] = st, out
		ms := sim.Encode(st.ProcessAll())
		g.check(len(ms) == 1 && sim.Typ(ms[0]) == sim.S1, "party %d sends %d messages at the start of a signing", id, len(ms))
		s.r1[id] = ms[0]
		for _, n := range [][]byte{ms[0][5:37], ms[0][37:69]} {
			by := fmt.Sprintf("party %d signing %q", id, text)
			g.check(g.nonces[string(n)] == "", "a nonce commitment occurs twice: %s and %s", g.nonces[string(n)], by)
			g.nonces[string(n)] = by
		}
	}
	return s
}

func (s *signing) deliver(to, from party.ID, b []byte) error {
	m, err := sim.Decode(append([]byte(nil), b...))
	s.g.check(err == nil, "a message of party %d cannot be decoded: %v", from, err)
	return s.st[to].HandleMessage(m)
}

func (s *signing) round(in map[party.ID][]byte) {
	for _, id := range s.signers {
		for _, j := range s.signers {
			if j != id {
				err := s.deliver(id, j, in[j])
				s.g.check(err == nil, "party %d refuses the message of party %d in signing %q by %v: %v", id, j, s.text, s.signers, err)
			}
		}
	}
}

func (s *signing) second() {
	s.round(s.r1)
	for _, id := range s.signers {
		ms := sim.Encode(s.st[id].ProcessAll())
		if len(s.signers) > 1 {
			s.g.check(len(ms) == 1 && sim.Typ(ms[0]) == sim.S2, "party %d sends %d messages in the second round of signing %q by %v (error %v)", id, len(ms), s.text, s.signers, s.st[id].Err())
			s.r2[id] = ms[0]
		}
	}
}

func (s *signing) finish() {
	s.round(s.r2)
	g := s.g
	var first []byte
	for _, id := range s.signers {
		s.st[id].ProcessAll()
		g.check(s.st[id].IsFinished() && s.st[id].Err() == nil, "party %d does not finish signing %q by %v: %v", id, s.text, s.signers, s.st[id].Err())
		sig := s.out[id].Signature
		g.check(sig != nil, "party %d has no signature", id)
		b := sig.ToEd25519()
		g.check(ed25519.Verify(g.key, s.text, b), "the signature of %q by %v is not valid under the group key", s.text, s.signers)
		g.check(g.pub[id].GroupKey.Verify(s.text, sig), "the library does not accept the signature of %q by %v", s.text, s.signers)
		g.check(first == nil || string(first) == string(b), "the signers %v have different signatures", s.signers)
		first = b
	}
	r := string(first[:32])
	g.check(g.nonces[r] == "", "two signatures have the same R")
	g.nonces[r] = fmt.Sprintf("signature of %q", s.text)
}

func (g *group) sign(signers party.IDSlice) {
	s := g.start(signers, 0)
	s.second()
	s.finish()
}

// ends checks that a party's session has been aborted.
func (s *signing) ends(id party.ID, culprit party.ID) {
	err := s.st[id].Err()
	s.g.check(s.st[id].IsFinished() && err != nil && s.out[id].Signature == nil, "party %d: the session with a fault has not been aborted (error %v)", id, err)
	if culprit != 0 {
		e, ok := err.(*state.Error)
		s.g.check(ok && e.PartyID == culprit, "party %d blames %v, the culprit is party %d", id, err, culprit)
	}
}

// ---- key generation

type making struct {
	g   *group
	st  map[party.ID]*state.State
	out map[party.ID]*keygen.Output
	r1  map[party.ID][]byte
	r2  map[party.ID]map[party.ID][]byte
}

func (g *group) make(timeout time.Duration) *making {
	k := &making{g: g, st: map[party.ID]*state.State{}, out: map[party.ID]*keygen.Output{}, r1: map[party.ID][]byte{}, r2: map[party.ID]map[party.ID][]byte{}}
	for _, id := range g.ids {
		st, out, err := frost.NewKeygenState(id, g.ids, party.Size(g.t), timeout)
		g.check(err == nil, "key generation is refused: %v", err)
		k.st[id], k.out[id] = st, out
		ms := sim.Encode(st.ProcessAll())
		g.check(len(ms) == 1 && sim.Typ(ms[0]) == sim.K1, "party %d sends %d messages at the start of key generation", id, len(ms))
		k.r1[id] = ms[0]
		for _, n := range sim.Commitments(ms[0]) {
			g.check(g.nonces[string(n)] == "", "a coefficient occurs twice: %s", g.nonces[string(n)])
			g.nonces[string(n)] = fmt.Sprintf("key generation of party %d", id)
		}
	}
	return k
}

func (k *making) deliver(to, from party.ID, b []byte) {
	m, err := sim.Decode(append([]byte(nil), b...))
	k.g.check(err == nil, "a message of party %d cannot be decoded: %v", from, err)
	err = k.st[to].HandleMessage(m)
	k.g.check(err == nil, "party %d refuses the message of party %d in key generation: %v", to, from, err)
}

func (k *making) second() {
	for _, id := range k.g.ids {
		for _, j := range k.g.ids {
			if j != id {
				k.deliver(id, j, k.r1[j])
			}
		}
		k.r2[id] = map[party.ID][]byte{}
		for _, b := range sim.Encode(k.st[id].ProcessAll()) {
			k.r2[id][sim.To(b)] = b
		}
		k.g.check(len(k.r2[id]) == len(k.g.ids)-1, "party %d sends %d shares (error %v)", id, len(k.r2[id]), k.st[id].Err())
	}
}

func (k *making) finish() *group {
	g := k.g
	for _, id := range g.ids {
		for _, j := range g.ids {
			if j != id {
				k.deliver(id, j, k.r2[j][id])
			}
		}
		k.st[id].ProcessAll()
	}
	h := &group{c: g.c, where: g.where, ids: g.ids, t: g.t, pub: map[party.ID]*eddsa.Public{}, sec: map[party.ID]*eddsa.SecretShare{}, want: map[party.ID]string{}, nonces: g.nonces}
	for _, id := range g.ids {
		g.check(k.st[id].IsFinished() && k.st[id].Err() == nil && k.out[id].Public != nil && k.out[id].SecretKey != nil, "party %d does not finish key generation: %v", id, k.st[id].Err())
		h.pub[id], h.sec[id] = k.out[id].Public, k.out[id].SecretKey
	}
	h.note()
	g.check(string(h.key) != string(g.key), "another key generation has given the same key")
	return h
}

// note remembers the key material and checks it against the reference.
func (g *group) note() {
	g.key = append([]byte(nil), g.pub[g.ids[0]].GroupKey.ToEd25519()...)
	x := map[uint16]*big.Int{}
	for _, id := range g.ids {
		g.want[id] = material(g.pub[id], g.sec[id])
		x[uint16(id)] = sim.Big(&g.sec[id].Secret)
		g.check(sim.PublicKey(g.pub[id]) == sim.PublicKey(g.pub[g.ids[0]]), "party %d has other public data than party %d", id, g.ids[0])
	}
	y := map[uint16]*big.Int{}
	for _, id := range g.ids[:g.t+1] {
		y[uint16(id)] = x[uint16(id)]
	}
	g.check(string(ref.BaseMul(ref.Interpolate0(y)).EncodeEd()) == string(g.key), "the shares do not belong to the group key")
}

// ---- operations

type operation struct {
	name string
	f    func(g *group)
}

func operations(ids party.IDSlice, t int) []operation {
	var out []operation
	add := func(name string, f func(g *group)) { out = append(out, operation{name, f}) }
	sets := sim.Sub(ids, t+1, len(ids))
	for _, s := range sets {
		s := s
		add(fmt.Sprintf("sign %v", s), func(g *group) { g.sign(s) })
	}
	small, other := sets[0], sets[len(sets)-1]
	if len(sets) > 1 {
		other = sets[1]
	}
	all := ids
	wrong := func(b []byte) []byte { // a scalar increased by one
		return sim.Cat(b[:5], ref.LE(ref.Add(ref.FromLE(b[5:37]), ref.Int(1))))
	}

	add("the same signing twice", func(g *group) {
		text := []byte("twice")
		for i := 0; i < 2; i++ {
			s := g.startText(small, text, 0)
			s.second()
			s.finish()
		}
	})
	add("two signings, nested", func(g *group) {
		a := g.start(small, 0)
		b := g.start(other, 0)
		b.second()
		b.finish()
		a.second()
		a.finish()
	})
	add("two signings, in step", func(g *group) {
		a, b := g.start(all, 0), g.start(other, 0)
		a.second()
		b.second()
		a.finish()
		b.finish()
	})
	add("wrong signature share", func(g *group) {
		s := g.start(small, 0)
		s.second()
		cheater, victim := small[0], small[1]
		for _, j := range small {
			if j == victim {
				continue
			}
			b := s.r2[j]
			if j == cheater {
				b = wrong(b)
			}
			g.check(s.deliver(victim, j, b) == nil, "a message is refused")
		}
		s.st[victim].ProcessAll()
		s.ends(victim, cheater)
	})
	add("identity as commitment", func(g *group) {
		s := g.start(small, 0)
		cheater, victim := small[1], small[0]
		bad := sim.MakeS1(cheater, make([]byte, 32), s.r1[cheater][37:69])
		for _, j := range small {
			if j == victim {
				continue
			}
			b := s.r1[j]
			if j == cheater {
				b = bad
			}
			g.check(s.deliver(victim, j, b) == nil, "a message is refused")
		}
		s.st[victim].ProcessAll()
		s.ends(victim, cheater)
	})
	add("signing times out", func(g *group) {
		s := g.start(small, 10)
		vclock.Advance(20)
		for _, id := range small {
			s.ends(id, 0)
		}
	})
	add("signing times out in its second round", func(g *group) {
		s := g.start(small, 10)
		vclock.Advance(5)
		s.second()
		vclock.Advance(20)
		for _, id := range small {
			s.ends(id, 0)
		}
	})
	add("signing abandoned", func(g *group) { g.open = g.start(small, 0) })
	add("abandoned signing taken up", func(g *group) {
		if s := g.open; s != nil {
			g.open = nil
			s.second()
			s.finish()
		}
	})
	add("refused signings", func(g *group) {
		for _, id := range ids {
			for _, set := range []party.IDSlice{{}, {id, id}, {0, id}, append(ids.Copy(), 65535, 65535), {65535 - 1, 65535}} {
				_, out, err := frost.NewSignState(set, g.sec[id], g.pub[id], []byte("m"), 0)
				g.check(err != nil && out == nil, "signers %v are accepted", set)
			}
		}
	})
	add("store and load", func(g *group) {
		for _, id := range ids {
			b, err := json.Marshal(g.pub[id])
			g.check(err == nil, "public data cannot be stored: %v", err)
			s, err := json.Marshal(g.sec[id])
			g.check(err == nil, "a share cannot be stored: %v", err)
			g.pub[id], g.sec[id] = new(eddsa.Public), new(eddsa.SecretShare)
			g.check(json.Unmarshal(b, g.pub[id]) == nil, "stored public data is refused: %s", b)
			g.check(json.Unmarshal(s, g.sec[id]) == nil, "a stored share is refused: %s", s)
		}
	})
	add("bad signatures", func(g *group) {
		s := g.start(small, 0)
		s.second()
		s.finish()
		sig := *s.out[small[0]].Signature
		for _, id := range ids {
			g.check(!g.pub[id].GroupKey.Verify([]byte("other"), &sig), "a signature is valid for another message")
		}
		bad := sig
		bad.S.Add(&bad.S, sim.Sc(ref.Int(1)))
		g.check(!g.pub[ids[0]].GroupKey.Verify(s.text, &bad), "a changed signature is valid")
	})
	add("another key", func(g *group) {
		k := g.make(0)
		k.second()
		h := k.finish()
		h.sign(other)
		h.intact()
	})
	add("aborted key generation", func(g *group) {
		k := g.make(0)
		k.second()
		victim, cheater := ids[1], ids[2]
		for _, j := range ids {
			if j != victim {
				b := k.r2[j][victim]
				if j == cheater {
					b = wrong(b)
				}
				k.deliver(victim, j, b)
			}
		}
		k.st[victim].ProcessAll()
		err, ok := k.st[victim].Err().(*state.Error)
		g.check(ok && err.PartyID == cheater && k.out[victim].Public == nil && k.out[victim].SecretKey == nil, "key generation with a wrong share ends with %v", k.st[victim].Err())
	})
	add("key generation abandoned", func(g *group) {
		g.openKG = g.make(0)
		g.openKG.second()
	})
	add("abandoned key generation taken up", func(g *group) {
		if k := g.openKG; k != nil {
			g.openKG = nil
			h := k.finish()
			h.sign(small)
			h.intact()
		}
	})
	return out
}

func history(c *lib.Ctx, ids party.IDSlice, t int, deal bool, os []operation, seq []int) {
	vclock.Reset()
	var names []string
	for _, i := range seq {
		names = append(names, os[i].name)
	}
	where := fmt.Sprintf("%v t=%d: %s", ids, t, strings.Join(names, "; "))
	rnd.Use(rnd.New(fmt.Sprintf("c30 %v %d %v", ids, t, seq)))
	defer rnd.Use(nil)
	var g *group
	if deal {
		g = dealt(c, where, ids, t, "c30")
	} else {
		g = &group{c: c, where: where, ids: ids, t: t, nonces: map[string]string{}}
		k := g.make(0)
		k.second()
		g = k.finish()
	}
	for i, o := range seq {
		g.where = fmt.Sprintf("%s: operation %d (%s)", where, i+1, os[o].name)
		os[o].f(g)
		g.intact()
		c.Trans(1)
	}
	g.where = where + ": afterwards"
	sets := sim.Sub(ids, t+1, len(ids))
	g.sign(sets[len(seq)%len(sets)])
	for i, s := range sets {
		if i != len(seq)%len(sets) {
			x := g.startText(s, []byte(fmt.Sprintf("text %d", i)), 0)
			x.second()
			x.finish()
		}
	}
	g.intact()
	c.Distinct(fmt.Sprint(ids, t, seq))
	c.Trace(1)
	c.Eval(1)
	c.State(len(seq))
	c.Beat()
}
