//go:build go1.21

// C23: invalid configurations are refused up front and valid ones always work.
package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C23", Level: "exploration",
		Rule:   "every list of identifiers to a length over an alphabet with zero and edge values, in every order and with every repetition, times every self identifier and threshold of the alphabet: creation must fail with an error and without a panic exactly if the configuration is invalid; the same for signer lists against holder sets and key shares; every single disturbance (swap, repetition, zero, removal, replacement) at every position of longer lists; every accepted configuration is then run to the end with honest peers: key generation must succeed, signing must succeed with more than t signers and must end (without a signature) otherwise, and no call may panic or leave a session unfinished",
		Bounds: "lists to length 4 over 6 identifiers (thorough: 5 over 7); disturbed lists of 8, 33 and 200; groups run to 40 parties (thorough 120); a list of all 65535 identifiers is created only",
	}, run)
}

func valid(ids []party.ID) bool {
	for i, id := range ids {
		if id == 0 || (i > 0 && ids[i-1] >= id) {
			return false
		}
	}
	return true
}

func has(ids []party.ID, x party.ID) bool {
	for _, id := range ids {
		if id == x {
			return true
		}
	}
	return false
}

func subset(a, b []party.ID) bool {
	for _, id := range a {
		if !has(b, id) {
			return false
		}
	}
	return true
}

// keygen tries one configuration of key generation.
func keygen(c *lib.Ctx, self party.ID, ids []party.ID, t party.Size, timeout time.Duration) bool {
	want := valid(ids) && has(ids, self) && t >= 1 && int(t) <= len(ids)-1
	in := append(party.IDSlice(nil), ids...)
	if len(ids) == 0 && t%2 == 0 {
		in = party.IDSlice{}
	}
	var got bool
	p := lib.Catch(func() {
		st, out, err := frost.NewKeygenState(self, in, t, timeout)
		got = err == nil
		c.Check(got == (st != nil) && got == (out != nil), "key generation %s self=%d t=%d: session %v, output %v, error %v", show(ids), self, t, st != nil, out != nil, err)
		if got {
			c.Check(!st.IsFinished() && st.Err() == nil, "key generation %s self=%d t=%d: the new session is already over", show(ids), self, t)
		}
	})
	c.Check(p == nil, "key generation %s self=%d t=%d: creating the session panics: %v", show(ids), self, t, p)
	c.Check(got == want, "key generation %s self=%d t=%d timeout=%v: accepted=%v, valid=%v", show(ids), self, t, timeout, got, want)
	c.Eval(1)
	if want {
		c.Note("accepted", 1)
	} else {
		c.Note("refused", 1)
	}
	return want
}

func show(ids []party.ID) string {
	s := fmt.Sprint(ids)
	if len(s) > 120 {
		s = s[:120] + fmt.Sprintf("...(%d)", len(ids))
	}
	return s
}

// signing tries one configuration of signing.
func signing(c *lib.Ctx, k *sim.Keys, sec *eddsa.SecretShare, ids []party.ID, msg []byte, timeout time.Duration) bool {
	want := valid(ids) && has(ids, sec.ID) && subset(ids, k.IDs)
	in := append(party.IDSlice(nil), ids...)
	var got bool
	p := lib.Catch(func() {
		st, out, err := frost.NewSignState(in, sec, k.Public, msg, timeout)
		got = err == nil
		c.Check(got == (st != nil) && got == (out != nil), "signing %s self=%d holders %s: session %v, output %v, error %v", show(ids), sec.ID, show(k.IDs), st != nil, out != nil, err)
		if got {
			c.Check(!st.IsFinished() && st.Err() == nil, "signing %s self=%d: the new session is already over", show(ids), sec.ID)
		}
	})
	c.Check(p == nil, "signing %s self=%d holders %s: creating the session panics: %v", show(ids), sec.ID, show(k.IDs), p)
	c.Check(got == want, "signing %s self=%d holders %s: accepted=%v, valid=%v", show(ids), sec.ID, show(k.IDs), got, want)
	c.Eval(1)
	if want {
		c.Note("accepted", 1)
	} else {
		c.Note("refused", 1)
	}
	return want
}

// runKeygen runs an accepted configuration to the end.
func runKeygen(c *lib.Ctx, ids []party.ID, t int) {
	r, err := sim.RunKeygen(ids, t, fmt.Sprint("c23", ids, t))
	c.Check(err == nil, "key generation %s t=%d with honest peers: %v", show(ids), t, err)
	c.Check(r.Sess[ids[0]].KG.Public.Threshold == party.Size(t), "key generation %s t=%d: threshold of the key", show(ids), t)
	c.Trace(1)
	c.Distinct("kg", show(ids), t)
}

// runSign runs an accepted configuration to the end.
func runSign(c *lib.Ctx, k *sim.Keys, ids []party.ID, msg []byte) {
	r, err := sim.RunSign(ids, k.Public, k.Secret, msg, fmt.Sprint("c23", ids, len(msg)))
	c.Trace(1)
	c.Distinct("sg", show(k.IDs), k.T, show(ids), len(msg))
	if len(ids) > int(k.T) {
		c.Check(err == nil, "signing %s of %s t=%d with honest peers: %v", show(ids), show(k.IDs), k.T, err)
		err = r.SameSigs(k.Public, msg)
		c.Check(err == nil, "signing %s of %s t=%d with honest peers: %v", show(ids), show(k.IDs), k.T, err)
		return
	}
	c.Check(err != nil, "signing %s of %s t=%d succeeds with too few signers", show(ids), show(k.IDs), k.T)
	for _, id := range ids {
		s := r.Sess[id]
		// the lockstep run stops at the first problem, which must be the final error
		c.Check(s.St.IsFinished() && s.DoneClosed(), "signing %s of %s t=%d: party %d is stuck: %v", show(ids), show(k.IDs), k.T, id, err)
		c.Check(s.St.Err() != nil && s.OutKey() == "", "signing %s of %s t=%d: party %d: error %v, output %q", show(ids), show(k.IDs), k.T, id, s.St.Err(), s.OutKey())
	}
}

// lists yields every list over the alphabet of a length.
func lists(alpha []party.ID, n int, f func([]party.ID)) {
	sizes := make([]int, n)
	for i := range sizes {
		sizes[i] = len(alpha)
	}
	lib.Tuples(sizes, func(t []int) {
		ids := make([]party.ID, n)
		for i, x := range t {
			ids[i] = alpha[x]
		}
		f(ids)
	})
}

// disturb yields every single disturbance of a sorted list.
func disturb(ids []party.ID, f func(name string, ids []party.ID)) {
	cp := func() []party.ID { return append([]party.ID(nil), ids...) }
	f("none", cp())
	for i := range ids {
		x := cp()
		x[i] = 0
		f(fmt.Sprint("zero at ", i), x)
		f(fmt.Sprint("zero inserted at ", i), append(append(append([]party.ID{}, ids[:i]...), 0), ids[i:]...))
		f(fmt.Sprint("twice ", i), append(append(append([]party.ID{}, ids[:i+1]...), ids[i]), ids[i+1:]...))
		f(fmt.Sprint("without ", i), append(append([]party.ID{}, ids[:i]...), ids[i+1:]...))
		x = cp()
		x[i]++
		f(fmt.Sprint("incremented ", i), x)
		for _, j := range []int{i + 1, len(ids) - 1, (i + len(ids)/2) % len(ids)} {
			if j > i && j < len(ids) {
				x = cp()
				x[i], x[j] = x[j], x[i]
				f(fmt.Sprint("swap ", i, " ", j), x)
				x = cp()
				x[j] = x[i]
				f(fmt.Sprint("copied ", i, " to ", j), x)
			}
		}
	}
	x := cp()
	for i := range ids {
		x[i] = ids[len(ids)-1-i]
	}
	f("reversed", x)
	f("end zero", append(cp(), 0))
}

func run(c *lib.Ctx) {
	alpha := []party.ID{0, 1, 2, 3, 256, 65535}
	maxLen := 4
	if !c.Quick() {
		alpha = []party.ID{0, 1, 2, 3, 256, 32768, 65535}
		maxLen = 5
	}
	thr := []party.Size{0, 1, 2, 3, 4, 5, 255, 32768, 65534, 65535}
	for n := 0; n <= maxLen; n++ {
		firsts := []int{-1}
		if n > 0 {
			firsts = nil
			for i := range alpha {
				firsts = append(firsts, i)
			}
		}
		for _, fi := range firsts {
			n, fi := n, fi
			c.Case(fmt.Sprintf("keygen lists of %d starting with %d", n, fi), func() {
				rest := n
				var head []party.ID
				if fi >= 0 {
					rest, head = n-1, []party.ID{alpha[fi]}
				}
				lists(alpha, rest, func(tail []party.ID) {
					ids := append(append([]party.ID{}, head...), tail...)
					for _, self := range append([]party.ID{7}, alpha...) {
						for _, t := range thr {
							if keygen(c, self, ids, t, 0) && self == ids[0] {
								runKeygen(c, ids, int(t))
							}
						}
					}
					c.State(1)
				})
			})
		}
	}
	c.Case("keygen timeouts", func() {
		for _, d := range []time.Duration{0, -1, -time.Hour, time.Hour, 1<<63 - 1, -1 << 63} {
			keygen(c, 1, []party.ID{1, 2}, 1, d)
			keygen(c, 1, []party.ID{1, 1}, 1, d)
		}
	})
	for _, n := range []int{8, 33, 200} {
		n := n
		for _, base := range []party.IDSlice{sim.Seq(n), sim.Spread(n)} {
			base := base
			c.Case(fmt.Sprintf("keygen disturbed list of %d ending with %d", n, base[n-1]), func() {
				disturb(base, func(name string, ids []party.ID) {
					for _, self := range []party.ID{base[0], base[n/2], base[n-1]} {
						for _, t := range []party.Size{1, party.Size(len(ids) - 1), party.Size(len(ids))} {
							keygen(c, self, ids, t, 0)
						}
					}
				})
			})
			c.Case(fmt.Sprintf("signing disturbed list of %d ending with %d", n, base[n-1]), func() {
				if n > 33 {
					// creating a signing session takes a quadratic number of inversions; only invalid
					// lists and a few others are tried
					coeffs := []*big.Int{sim.RandScalar("a"), sim.RandScalar("b")}
					k := sim.DealCoeffs(base, coeffs)
					i := 0
					disturb(base, func(name string, ids []party.ID) {
						i++
						if !valid(ids) || !subset(ids, base) || i%40 == 1 {
							if strings.HasPrefix(name, "twice") || strings.HasPrefix(name, "zero") || strings.HasPrefix(name, "incr") || i%11 == 0 {
								signing(c, k, k.Secret[base[0]], ids, nil, 0)
							}
						}
					})
					return
				}
				k := sim.Deal(base, 2, fmt.Sprint("c23", n))
				disturb(base, func(name string, ids []party.ID) {
					for _, self := range []party.ID{base[0], base[n/2], base[n-1]} {
						signing(c, k, k.Secret[self], ids, []byte("m"), 0)
					}
				})
			})
		}
	}
	for _, n := range []int{65535} {
		n := n
		c.Case("keygen of every identifier", func() {
			ids := sim.Seq(n)
			keygen(c, 1, ids, 1, 0)
			keygen(c, 65535, ids, 65534, 0)
			keygen(c, 65535, ids, 65535, 0)
			keygen(c, 30000, append(append([]party.ID{}, ids...), 65535), 2, 0)
			keygen(c, 30000, append([]party.ID{0}, ids...), 2, 0)
			ids[40000] = 0
			keygen(c, 30000, ids, 2, 0)
			for _, m := range []int{65536, 65537, 65538, 131072, 131074} {
				ids := make([]party.ID, m)
				for i := range ids {
					ids[i] = party.ID(1 + i%65535)
				}
				for _, t := range []party.Size{0, 1, 2, 65535} {
					keygen(c, 1, ids, t, 0)
					keygen(c, 2, ids, t, 0)
				}
			}
		})
	}
	// larger groups are run
	for _, n := range []int{6, 9, 17, c.Pick(40, 120)} {
		for _, t := range []int{1, n / 2, n - 1} {
			n, t := n, t
			c.Case(fmt.Sprintf("group of %d t=%d", n, t), func() {
				runKeygen(c, sim.Spread(n), t)
				k := sim.Deal(sim.Spread(n), t, "c23")
				runSign(c, k, k.IDs, []byte("m"))
				runSign(c, k, k.IDs[:t+1], []byte("m"))
				runSign(c, k, k.IDs[n-t:], []byte("m"))
			})
		}
	}
	c.Case("missing key material", func() { missing(c) })
	// signing
	type hold struct {
		ids []party.ID
		t   int
	}
	for _, h := range []hold{{[]party.ID{1, 2, 3}, 1}, {[]party.ID{1, 2, 3}, 2}, {[]party.ID{2, 256, 65535}, 1}, {[]party.ID{1, 256}, 1}, {[]party.ID{1, 2, 256, 65535}, 2}, {[]party.ID{3}, 0}, {[]party.ID{1, 65535}, 0}} {
		k := sim.Deal(h.ids, h.t, fmt.Sprint("c23", h.ids, h.t))
		secrets := map[party.ID]*eddsa.SecretShare{}
		for _, id := range alpha {
			secrets[id] = k.Secret[id]
			if secrets[id] == nil {
				secrets[id] = eddsa.NewSecretShare(id, sim.Sc(big.NewInt(5)))
			}
		}
		for n := 0; n <= maxLen; n++ {
			n, h, k := n, h, k
			c.Case(fmt.Sprintf("signing lists of %d holders %v t=%d", n, h.ids, h.t), func() {
				lists(alpha, n, func(ids []party.ID) {
					for _, self := range alpha {
						if signing(c, k, secrets[self], ids, []byte("m"), 0) && self == ids[0] {
							runSign(c, k, ids, []byte("m"))
						}
					}
					c.State(1)
				})
			})
		}
		h, k := h, k
		c.Case(fmt.Sprintf("signing messages holders %v t=%d", h.ids, h.t), func() {
			for _, n := range []int{-1, 0, 1, 63, 64, 65, 4096, 1 << 20} {
				var m []byte
				if n >= 0 {
					m = rnd.Bytes("c23", n)
				}
				signing(c, k, k.Secret[k.IDs[0]], k.IDs, m, time.Hour)
				signing(c, k, k.Secret[k.IDs[0]], append([]party.ID{0}, k.IDs...), m, -1)
				runSign(c, k, k.IDs, m)
			}
		})
	}
	// keys of key generation and of the library's dealer serve signing in every valid configuration
	for n := 2; n <= c.Pick(4, 6); n++ {
		for t := 1; t < n; t++ {
			n, t := n, t
			c.Case(fmt.Sprintf("generated key %d of %d", t, n), func() {
				ids := sim.Spread(n)
				r, err := sim.RunKeygen(ids, t, fmt.Sprint("c23 gen", n, t))
				c.Check(err == nil, "key generation: %v", err)
				k := &sim.Keys{IDs: ids, T: party.Size(t), Public: r.Sess[ids[0]].KG.Public, Secret: map[party.ID]*eddsa.SecretShare{}}
				for _, id := range ids {
					k.Secret[id] = r.Sess[id].KG.SecretKey
				}
				for _, s := range sim.Sub(ids, 1, n) {
					signing(c, k, k.Secret[s[0]], s, nil, 0)
					runSign(c, k, s, nil)
				}
			})
		}
	}
	for n := 1; n <= 5; n++ {
		for t := 0; t < n; t++ {
			n, t := n, t
			c.Case(fmt.Sprintf("library dealer %d of %d", t, n), func() {
				rnd.Use(rnd.New(fmt.Sprint("c23 dealer", n, t)))
				ids := helpers.GenerateSet(party.Size(n))
				_, sec := helpers.GenerateSecrets(ids, party.Size(t))
				pub := helpers.GeneratePublic(party.Size(t), sec)
				rnd.Use(nil)
				k := &sim.Keys{IDs: ids, T: party.Size(t), Public: pub, Secret: sec}
				for _, s := range sim.Sub(ids, 1, n) {
					signing(c, k, k.Secret[s[0]], s, nil, 0)
					runSign(c, k, s, nil)
				}
			})
		}
	}
}

// missing: key material with any part missing is refused when a session is created.
func missing(c *lib.Ctx) {
	for _, n := range []int{1, 2, 3, 4} {
		for t := 0; t < n; t++ {
			all := sim.Spread(n)
			try := func(what string, sec func(*eddsa.SecretShare) *eddsa.SecretShare, pub func(*eddsa.Public) *eddsa.Public, gone party.ID) {
				for _, ids := range sim.Sub(all, 1, n) {
					for _, self := range ids {
						k := sim.Deal(all, t, fmt.Sprint("c23 missing", n, t))
						s, p := sec(k.Secret[self]), pub(k.Public)
						want := what == "nothing" || gone != 0 && !ids.Contains(gone)
						var err error
						pn := lib.Catch(func() {
							var st interface{ IsFinished() bool }
							x, out, e := frost.NewSignState(ids, s, p, []byte("m"), 0)
							err = e
							if x != nil {
								st = x
							}
							c.Check((e == nil) == (st != nil) && (e == nil) == (out != nil), "%s: session %v, output %v, error %v", what, st != nil, out != nil, e)
						})
						c.Check(pn == nil, "signing %s self=%d of %s without %s: creating the session panics: %v", show(ids), self, show(all), what, pn)
						c.Check((err == nil) == want, "signing %s self=%d of %s without %s: error %v", show(ids), self, show(all), what, err)
						c.Eval(1)
					}
				}
				c.Distinct("missing", n, t, what)
			}
			same := func(s *eddsa.SecretShare) *eddsa.SecretShare { return s }
			keep := func(p *eddsa.Public) *eddsa.Public { return p }
			try("nothing", same, keep, 0)
			try("the secret share", func(*eddsa.SecretShare) *eddsa.SecretShare { return nil }, keep, 0)
			try("the public data", same, func(*eddsa.Public) *eddsa.Public { return nil }, 0)
			try("both", func(*eddsa.SecretShare) *eddsa.SecretShare { return nil }, func(*eddsa.Public) *eddsa.Public { return nil }, 0)
			try("the group key", same, func(p *eddsa.Public) *eddsa.Public { q := *p; q.GroupKey = nil; return &q }, 0)
			try("the public shares", same, func(p *eddsa.Public) *eddsa.Public { q := *p; q.Shares = nil; return &q }, 0)
			try("the list of parties", same, func(p *eddsa.Public) *eddsa.Public { q := *p; q.PartyIDs = nil; return &q }, 0)
			for _, id := range all {
				id := id
				for _, null := range []bool{true, false} {
					null := null
					try(fmt.Sprintf("the public share of %d (null: %v)", id, null), same, func(p *eddsa.Public) *eddsa.Public {
						if null {
							p.Shares[id] = nil
						} else {
							delete(p.Shares, id)
						}
						return p
					}, id)
				}
			}
		}
	}
}
