//go:build go1.21

// C17: signature shares are bound to message, signers and all nonce commitments.
package main

import (
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vrt"
)

func ids(v ...party.ID) []party.ID { return v }

func main() {
	lib.Run(lib.Config{
		ID: "C17", Level: "model_checking",
		Rule:        "for a base session and every single deviation from it (every bit of the message and of its length, the signer set, each half of the commitment of each signer, swapped and exchanged commitments) the real session of every signer produces its share, from which its binding factor rho = (z - d - lambda*s*c)/e is recovered with reference arithmetic (lambda*c from a second run with the key share plus one); factors must differ between signers and between sessions, be the same in every order of arrival and of map iteration, be the ones the co-signers use to accept the share, and a share must be refused in every other session",
		Bounds:      "2, 3 and 4 signers with identifiers that collide in one byte, messages of 0..200 bytes bit by bit and of 5000 bytes at 40 places, all arrival orders for 3 and 4 signers; each half of each commitment among up to 100 signers (thorough 300); messages to 2 MB (thorough 32 MB) at the ends, the middle and powers of two",
		Assumptions: []string{"collision resistance of the hash is not addressed"},
	}, run)
}

// session is what determines the factors.
type session struct {
	k       *sim.Keys
	signers party.IDSlice
	msg     []byte
	first   map[party.ID][]byte // first-round messages of the others
	nonce   map[party.ID]string // label of a signer's own randomness
}

func (s session) clone() session {
	f := map[party.ID][]byte{}
	for id, b := range s.first {
		f[id] = append([]byte(nil), b...)
	}
	n := map[party.ID]string{}
	for id, l := range s.nonce {
		n[id] = l
	}
	s.first, s.nonce = f, n
	s.msg = append([]byte(nil), s.msg...)
	return s
}

func base(k *sim.Keys, signers party.IDSlice, msg []byte) session {
	s := session{k: k, signers: signers, msg: msg, first: map[party.ID][]byte{}, nonce: map[party.ID]string{}}
	for _, id := range signers {
		s.nonce[id] = fmt.Sprint("c17 nonce ", id)
		x, err := sim.NewSign(signers, k.Secret[id], k.Public, msg, 0, rnd.New(s.nonce[id]))
		if err != nil {
			panic(err)
		}
		s.first[id] = x.Process()[0]
	}
	return s
}

// share runs signer i up to its share.
func share(c *lib.Ctx, s session, i party.ID, order []party.ID) (x *sim.Sess, own, z []byte) {
	x, err := sim.NewSign(s.signers, s.k.Secret[i], s.k.Public, s.msg, 0, rnd.New(s.nonce[i]))
	if err != nil {
		c.Failf("signer %d of %v: %v", i, s.signers, err)
	}
	out := x.Process()
	if len(out) != 1 {
		c.Failf("signer %d of %v starts with %d messages", i, s.signers, len(out))
	}
	own = out[0]
	if order == nil {
		order = s.signers
	}
	for _, j := range order {
		if j != i {
			if err := x.Handle(s.first[j]); err != nil {
				c.Failf("signer %d refuses the commitment of %d: %v", i, j, err)
			}
		}
	}
	out = x.Process()
	if len(out) != 1 {
		c.Failf("signer %d sends %d messages after all commitments (error %v)", i, len(out), x.St.Err())
	}
	c.Eval(1)
	c.Trans(len(s.signers) + 2)
	return x, own, out[0]
}

// factor recovers the binding factor from a share: the same session run with the key share plus one
// gives lambda*c as the difference of the two signature shares, whatever the factors are.
func factor(c *lib.Ctx, s session, i party.ID, x *sim.Sess, own, zb []byte) *big.Int {
	return factorWith(c, s, i, x, own, zb, func() *rnd.Stream { return rnd.New(s.nonce[i]) })
}

func factorWith(c *lib.Ctx, s session, i party.ID, x *sim.Sess, own, zb []byte, stream func() *rnd.Stream) *big.Int {
	d, e := sim.FindScalar(x.Rnd.Out, own[5:37]), sim.FindScalar(x.Rnd.Out, own[37:69])
	if d == nil || e == nil {
		c.Note("nonces not found in the randomness", 1)
		return nil
	}
	y, err := sim.NewSign(s.signers, eddsa.NewSecretShare(i, sim.Sc(ref.Add(s.k.Share[i], ref.Int(1)))), s.k.Public, s.msg, 0, stream())
	if err != nil {
		c.Note("second key share refused", 1)
		return nil
	}
	y.Process()
	for _, j := range s.signers {
		if j != i {
			_ = y.Handle(s.first[j])
		}
	}
	out := y.Process()
	if len(out) != 1 {
		c.Note("second key share refused", 1)
		return nil
	}
	z := ref.FromLE(zb[5:37])
	lc := ref.Sub(ref.FromLE(out[0][5:37]), z)
	rho := ref.Sub(ref.Sub(z, d), ref.Mul(lc, s.k.Share[i]))
	return ref.Mul(rho, ref.Inv(e))
}

func factors(c *lib.Ctx, s session, what string) map[party.ID]*big.Int {
	out := map[party.ID]*big.Int{}
	for _, i := range s.signers {
		x, own, z := share(c, s, i, nil)
		out[i] = factor(c, s, i, x, own, z)
	}
	for _, i := range s.signers {
		for _, j := range s.signers {
			if i < j && out[i] != nil && out[j] != nil && out[i].Cmp(out[j]) == 0 {
				c.Failf("%s: signers %d and %d have the same binding factor", what, i, j)
			}
		}
	}
	c.State(len(s.signers))
	return out
}

// differ: every common signer has another factor in the other session.
func differ(c *lib.Ctx, b, v session, fb map[party.ID]*big.Int, what string) {
	fv := factors(c, v, what)
	for id, x := range fb {
		if y := fv[id]; x != nil && y != nil && x.Cmp(y) == 0 {
			c.Failf("signers %v: the binding factor of signer %d does not change with %s", b.signers, id, what)
		}
	}
	c.Distinct(b.signers, len(b.msg), what)
	c.Trace(1)
}

func run(c *lib.Ctx) {
	sets := []struct {
		all party.IDSlice
		t   int
		s   party.IDSlice
	}{
		{ids(1, 2, 3), 1, ids(1, 2)},
		{ids(1, 2, 3, 257, 513), 1, ids(1, 257, 513)},
		{ids(1, 255, 256, 512, 65535), 2, ids(255, 256, 512, 65535)},
	}
	for _, x := range sets {
		k := sim.Deal(x.all, x.t, "c17")
		for _, n := range []int{0, 1, 33, 64, 65, 128, 200, 5000} {
			n := n
			if n > 33 && len(x.s) > 2 && n != 200 && c.Quick() {
				continue
			}
			const parts = 4
			for part := 0; part < parts; part++ {
				part := part
				c.Case(fmt.Sprintf("message/%v %d bytes part %d", x.s, n, part), func() {
					b := base(k, x.s, rnd.Bytes("c17 message", n))
					fb := factors(c, b, "base")
					try := 0
					with := func(what string, f func(s *session)) {
						try++
						if try%parts != part || c.Expired() {
							return
						}
						v := b.clone()
						f(&v)
						differ(c, b, v, fb, what)
					}
					for bit := 0; bit < 8*n; bit++ {
						bit := bit
						if n == 5000 && bit%999 != 0 && bit < 8*n-3 {
							continue
						}
						if c.Quick() && n == 200 && len(x.s) > 2 && bit%8 != (bit/8)%8 {
							continue
						}
						with(fmt.Sprintf("bit %d of a %d byte message", bit, n), func(s *session) { s.msg[bit/8] ^= 1 << (bit % 8) })
					}
					for _, m := range []int{1, 2, 31, 63, 64, 65, 128} {
						m := m
						with(fmt.Sprintf("%d zero bytes appended", m), func(s *session) { s.msg = append(s.msg, make([]byte, m)...) })
						with(fmt.Sprintf("%d zero bytes in front", m), func(s *session) { s.msg = append(make([]byte, m), s.msg...) })
						if m <= n {
							with(fmt.Sprintf("%d bytes cut off", m), func(s *session) { s.msg = s.msg[:n-m] })
							with(fmt.Sprintf("%d bytes cut off in front", m), func(s *session) { s.msg = s.msg[m:] })
						}
					}
					c.Sample("%v, %d byte message: %d deviations", x.s, n, try)
				})
			}
		}
		c.Case(fmt.Sprintf("commitments/%v", x.s), func() {
			b := base(k, x.s, []byte("message"))
			fb := factors(c, b, "base")
			B := ref.LE(ref.FromLE(sim.BaseEnc(ref.Int(7))))
			for _, j := range x.s {
				for half := 0; half < 2; half++ {
					o := 5 + 32*half
					for name, enc := range map[string][]byte{"7B": B, "its negative": sim.MulEnc(ref.Sub(ref.Int(0), ref.Int(1)), b.first[j][o:o+32]), "its double": sim.MulEnc(ref.Int(2), b.first[j][o:o+32])} {
						v := b.clone()
						copy(v.first[j][o:], enc)
						others(c, b, v, fb, j, fmt.Sprintf("half %d of the commitment of %d replaced by %s", half, j, name))
					}
				}
				v := b.clone()
				copy(v.first[j][5:], b.first[j][37:69])
				copy(v.first[j][37:], b.first[j][5:37])
				others(c, b, v, fb, j, fmt.Sprintf("the halves of the commitment of %d exchanged", j))
				// its own commitment: other randomness
				for half := 0; half < 2; half++ {
					v := b.clone()
					v.nonce[j] = fmt.Sprint("c17 other nonce", half)
					x, err := sim.NewSign(v.signers, k.Secret[j], k.Public, v.msg, 0, mixed(b.nonce[j], v.nonce[j], half))
					if err != nil {
						panic(err)
					}
					v.first[j] = x.Process()[0]
					own(c, b, v, fb, j, half)
				}
				for _, i := range x.s {
					if i < j {
						v := b.clone()
						copy(v.first[j][5:], b.first[i][5:])
						copy(v.first[i][5:], b.first[j][5:])
						both(c, b, v, fb, i, j, fmt.Sprintf("the commitments of %d and %d exchanged", i, j))
					}
				}
			}
			c.Sample("%v: all commitments", x.s)
		})
		c.Case(fmt.Sprintf("signers/%v", x.s), func() {
			b := base(k, x.s, []byte("message"))
			fb := factors(c, b, "base")
			for _, s := range sim.Sub(x.all, 2, len(x.all)) {
				if s.Equal(x.s) {
					continue
				}
				v := b.clone()
				v.signers = s
				o := base(k, s, []byte("message"))
				for _, id := range s {
					v.nonce[id] = o.nonce[id]
					v.first[id] = o.first[id]
				}
				// everybody keeps the commitment it has in the base session
				fv := factors(c, v, fmt.Sprintf("signers %v", s))
				for id, f := range fb {
					if g := fv[id]; f != nil && g != nil && f.Cmp(g) == 0 {
						c.Failf("the binding factor of signer %d is the same with signers %v and %v", id, x.s, s)
					}
				}
				c.Distinct(x.s, s)
				// the same commitments under another name
				if len(s) == len(x.s) {
					for a := range s {
						if s[a] != x.s[a] {
							w := b.clone()
							w.signers = s
							for q, id := range s {
								w.first[id] = sim.Cat(sim.Head(sim.S1, id, 0), b.first[x.s[q]][5:])
								if w.nonce[id] == "" {
									w.nonce[id] = "c17 nonce x"
								}
							}
							for _, id := range s {
								if fb[id] != nil && x.s.Contains(id) && position(x.s, id) == position(s, id) {
									y, ownb, z := share(c, w, id, nil)
									if g := factor(c, w, id, y, ownb, z); g != nil && g.Cmp(fb[id]) == 0 {
										c.Failf("the binding factor of signer %d is the same with signers %v and %v making the same commitments", id, x.s, s)
									}
								}
							}
							break
						}
					}
				}
			}
		})
		for i := range x.s {
			id := x.s[i]
			c.Case(fmt.Sprintf("orders/%v signer %d", x.s, id), func() {
				b := base(k, x.s, []byte("message"))
				var first []byte
				lib.Perms(len(x.s), func(p []int) {
					var order []party.ID
					for _, a := range p {
						order = append(order, x.s[a])
					}
					for m := 0; m < 3; m++ {
						vrt.SetPerm(m)
						_, _, z := share(c, b, id, order)
						vrt.SetPerm(0)
						if first == nil {
							first = z
						}
						c.Check(string(first) == string(z), "signers %v: the share of %d depends on the order %v of arrival or on map order %d", x.s, id, order, m)
						c.Distinct(x.s, id, order, m)
					}
				})
			})
		}
	}
	large(c)
	// a share is useless in any other session, and valid in its own
	c.Case("replay", func() {
		k := sim.Deal(ids(1, 2, 3), 1, "c17")
		type sh struct {
			name string
			z    map[party.ID][]byte
			s    session
		}
		var all []sh
		mk := func(name string, s session) {
			m := map[party.ID][]byte{}
			for _, id := range s.signers {
				_, _, m[id] = share(c, s, id, nil)
			}
			all = append(all, sh{name, m, s})
		}
		b := base(k, ids(1, 2, 3), []byte("message"))
		mk("base", b)
		mk("other message", base(k, ids(1, 2, 3), []byte("messagf")))
		mk("signers 1 2", base(k, ids(1, 2), []byte("message")))
		mk("signers 1 3", base(k, ids(1, 3), []byte("message")))
		for _, j := range b.signers {
			v := b.clone()
			v.nonce[j] = "c17 fresh"
			x, _ := sim.NewSign(v.signers, k.Secret[j], k.Public, v.msg, 0, rnd.New(v.nonce[j]))
			v.first[j] = x.Process()[0]
			mk(fmt.Sprintf("fresh nonces of %d", j), v)
		}
		for a, x := range all {
			for o, y := range all {
				for _, i := range y.s.signers {
					for _, j := range y.s.signers {
						if i == j || x.z[j] == nil {
							continue
						}
						s, _, _ := share(c, y.s, i, nil)
						for _, l := range y.s.signers {
							if l == j {
								_ = s.Handle(x.z[j])
							} else if l != i {
								_ = s.Handle(y.z[l])
							}
						}
						s.Process()
						bad := s.St.Err() != nil
						if bad != (a != o) {
							c.Failf("the share signer %d made in session %q is accepted=%v by signer %d in session %q (error %v)", j, x.name, !bad, i, y.name, s.St.Err())
						}
						c.Distinct("replay", a, o, i, j)
					}
				}
			}
		}
	})
}

func position(s party.IDSlice, id party.ID) int {
	for i := range s {
		if s[i] == id {
			return i
		}
	}
	return -1
}

// others: the factors of everybody but j.
func others(c *lib.Ctx, b, v session, fb map[party.ID]*big.Int, j party.ID, what string) {
	for _, i := range b.signers {
		if i != j {
			compare(c, b, v, fb, i, what)
		}
	}
}

func both(c *lib.Ctx, b, v session, fb map[party.ID]*big.Int, j, l party.ID, what string) {
	for _, i := range b.signers {
		if i != j && i != l {
			compare(c, b, v, fb, i, what)
		}
	}
}

func compare(c *lib.Ctx, b, v session, fb map[party.ID]*big.Int, i party.ID, what string) {
	x, ownb, z := share(c, v, i, nil)
	f := factor(c, v, i, x, ownb, z)
	if f != nil && fb[i] != nil && f.Cmp(fb[i]) == 0 {
		c.Failf("signers %v: the binding factor of signer %d does not change with %s", b.signers, i, what)
	}
	c.Distinct(b.signers, i, what)
	c.State(1)
}

// own: signer j draws one other nonce; its own factor and everybody's change.
func own(c *lib.Ctx, b, v session, fb map[party.ID]*big.Int, j party.ID, half int) {
	what := fmt.Sprintf("nonce %d of %d", half, j)
	others(c, b, v, fb, j, what)
	x, err := sim.NewSign(v.signers, v.k.Secret[j], v.k.Public, v.msg, 0, mixed(b.nonce[j], v.nonce[j], half))
	if err != nil {
		panic(err)
	}
	o := x.Process()[0]
	for _, l := range v.signers {
		if l != j {
			if err := x.Handle(v.first[l]); err != nil {
				c.Failf("signer %d refuses the commitment of %d: %v", j, l, err)
			}
		}
	}
	z := x.Process()
	c.Check(len(z) == 1, "signer %d sends %d messages after all commitments", j, len(z))
	if string(o) == string(b.first[j]) {
		c.Failf("the commitment of %d does not depend on its randomness %d", j, half)
	}
	if f := factorWith(c, v, j, x, o, z[0], func() *rnd.Stream { return mixed(b.nonce[j], v.nonce[j], half) }); f != nil && fb[j] != nil && f.Cmp(fb[j]) == 0 {
		c.Failf("signers %v: the binding factor of signer %d does not change with its own nonce %d", b.signers, j, half)
	}
}

// mixed is stream a with its half-th 64 bytes replaced by those of stream b.
func mixed(a, b string, half int) *rnd.Stream {
	p := rnd.Bytes(a, 128)
	copy(p[64*half:64*half+64], rnd.Bytes(b, 64))
	return rnd.Fixed(a, p)
}
