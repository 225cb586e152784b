//go:build go1.21

// C25: each round sends exactly the prescribed messages, and shares only to their owner.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C25", Level: "model_checking",
		Rule:   "(1) complete runs over every group of the bound: everything each party sends, as objects and as bytes, must be exactly the prescribed sequence (kind, sender, recipient, number, order); the share for each recipient must be the value of the committed polynomial at the recipient in reference arithmetic; and every 32-byte window of everything sent is compared with every secret of the sender (nonces, proof nonce, coefficients, shares of every participant, key share plain and weighted, sums, their negatives, in both byte orders), and every 16-byte window with its randomness, only the share for the recipient itself excepted; (2) breadth-first search over every history of one session (delivery orders, processing steps, a timeout, one or two strays or one faulty message at every point), in which after every step everything sent so far must be a prefix of that sequence and pass the same comparison",
		Bounds: "groups: all thresholds, n <= 6 and all identifier sets of size 2 and 3 of a 14-value alphabet; signing: all signer sets of n <= 4; one party of groups of up to 129 (thorough 258) of lowest and highest threshold; histories: groups of 2 and 3 (thorough: n <= 8, signing n <= 6, groups of 4)",
	}, run)
}

func run(c *lib.Ctx) {
	for n := 2; n <= c.Pick(6, 8); n++ {
		for _, ids := range []party.IDSlice{sim.Seq(n), sim.Spread(n)} {
			for t := 1; t < n; t++ {
				keygen(c, ids, t)
			}
		}
	}
	for n := 2; n <= 3; n++ {
		for i, ids := range sim.IDSets(sim.IDAlphabet, n) {
			if n == 3 && c.Quick() && i%3 != 0 {
				continue
			}
			keygen(c, ids, 1+i%(n-1))
		}
	}
	for n := 1; n <= c.Pick(4, 6); n++ {
		for t := 0; t < n; t++ {
			k := sim.Deal(sim.Spread(n), t, fmt.Sprint("c25", n, t))
			for _, s := range sim.Sub(k.IDs, 1, n) {
				signing(c, k, s)
			}
		}
	}
	for _, n := range []int{9, 17, 33, 65, 129} {
		for _, t := range []int{1, n - 1} {
			large(c, n, t)
		}
	}
	if !c.Quick() {
		for _, n := range []int{16, 18, 64, 66, 128, 130, 255, 256, 257, 258} {
			large(c, n, 2)
			large(c, n, n/2)
		}
	}
	histories(c)
}

// large runs one party of a group of n through key generation and signing, against synthetic peers.
func large(c *lib.Ctx, n, t int) {
	for _, keygen := range []bool{true, false} {
		for _, at := range []int{0, n - 1} {
			keygen, at := keygen, at
			c.Case(fmt.Sprintf("big/%d parties t=%d keygen %v number %d", n, t, keygen, at), func() {
				w, i := sim.BigWorld(keygen, n, t, at, "c25 big")
				s := w.Proto(i, 0).New()
				kinds := [2]int{sim.S1, sim.S2}
				if keygen {
					kinds = [2]int{sim.K1, sim.K2}
				}
				var sent [3][][]byte
				for step := 0; step < 3; step++ {
					who := fmt.Sprintf("%s party %d step %d", w.Name, i, step)
					if step > 0 {
						for _, m := range w.Honest(i)[(step-1)*(n-1) : step*(n-1)] {
							if err := s.Handle(m.B); err != nil {
								c.Failf("%s: a message is refused: %v", who, err)
							}
						}
					}
					left := map[party.ID]bool{}
					switch {
					case step == 2:
					case keygen && step == 1:
						for _, to := range w.IDs {
							if to != i {
								left[to] = true
							}
						}
					default:
						left[0] = true
					}
					ms := s.ProcessMsgs()
					c.Check(len(ms) == len(left), "%s: %d messages are sent, expected %d", who, len(ms), len(left))
					for _, m := range ms {
						c.Check(left[m.To], "%s: a message to %d is sent twice or not expected", who, m.To)
						delete(left, m.To)
						object(c, who, i, m, kinds[step], m.To)
					}
					sent[step] = sim.Encode(ms)
					c.Check(len(s.ProcessMsgs()) == 0, "%s: processing again sends messages again", who)
				}
				c.Check(s.St.IsFinished() && s.St.Err() == nil, "%s: party %d does not finish: %v", w.Name, i, s.St.Err())
				var sec map[string]*big.Int
				shares := map[party.ID]*big.Int{}
				if keygen {
					for _, k2 := range sent[1] {
						shares[sim.To(k2)] = ref.FromLE(k2[5:])
					}
					var coeffs []*big.Int
					sec, coeffs = keygenSecrets(c, w.IDs, sent[0][0], s.Rnd.Out, func(to party.ID) *big.Int { return shares[to] })
					for _, k2 := range sent[1] {
						to := sim.To(k2)
						if coeffs != nil { // the polynomial is known
							c.Check(shares[to].Cmp(ref.Eval(coeffs, ref.Int(int64(to)))) == 0, "%s: the share party %d sends to %d is not the value of its polynomial", w.Name, i, to)
						} else {
							c.Check(!sim.JudgeK2(to, sent[0][0], k2), "%s: the share party %d sends to %d is not on its committed polynomial", w.Name, i, to)
						}
					}
				} else {
					sec = signSecrets(w.Keys, i, w.IDs, sent[0][0], s.Rnd.Out)
				}
				sc := newScanner(c, fmt.Sprintf("%s party %d", w.Name, i), sec, s.Rnd.Out)
				for to, x := range shares {
					sc.own[to] = string(ref.LE(x))
				}
				for _, step := range sent {
					for _, b := range step {
						sc.scan(b)
					}
				}
				c.Trace(1)
				c.Distinct(w.Name, i)
			})
		}
	}
}

// named is a secret.
type named struct {
	name string
	le   []byte
}

// scanner looks for secrets in what is sent.
type scanner struct {
	c    *lib.Ctx
	find map[string]string // 32-byte string -> name
	raw  map[string]int    // 16-byte windows of the randomness
	who  string
	// own[to] is the share that may be sent to that participant
	own map[party.ID]string
}

func newScanner(c *lib.Ctx, who string, secrets map[string]*big.Int, stream []byte) *scanner {
	s := &scanner{c: c, find: map[string]string{}, raw: map[string]int{}, who: who, own: map[party.ID]string{}}
	for n, x := range secrets {
		if ref.Mod(x).Cmp(big.NewInt(1<<20)) < 0 {
			continue // trivial values match anything
		}
		for _, v := range []struct {
			n string
			x *big.Int
		}{{n, x}, {"minus " + n, ref.Sub(big.NewInt(0), x)}} {
			le := ref.LE(ref.Mod(v.x))
			be := make([]byte, 32)
			for i := range le {
				be[31-i] = le[i]
			}
			s.find[string(le)] = v.n
			s.find[string(be)] = v.n + " (big-endian)"
		}
	}
	for o := 0; o+16 <= len(stream); o++ {
		s.raw[string(stream[o:o+16])] = o
	}
	return s
}

func (s *scanner) scan(b []byte) {
	to := sim.To(b)
	for o := 0; o+16 <= len(b); o++ {
		if at, ok := s.raw[string(b[o:o+16])]; ok {
			s.c.Failf("%s: message kind %d to %d contains its randomness from byte %d on: %x", s.who, sim.Typ(b), to, at, b)
		}
		if o+32 > len(b) {
			continue
		}
		w := string(b[o : o+32])
		if n, ok := s.find[w]; ok && !(sim.Typ(b) == sim.K2 && o == 5 && to != 0 && s.own[to] == w) {
			s.c.Failf("%s: message kind %d to %d contains %s: %x", s.who, sim.Typ(b), to, n, b)
		}
		s.c.Eval(1)
	}
}

// keygenSecrets reconstructs the secrets of a key generation session from its randomness.
func keygenSecrets(c *lib.Ctx, ids party.IDSlice, k1 []byte, stream []byte, shareOf func(to party.ID) *big.Int) (map[string]*big.Int, []*big.Int) {
	sec := map[string]*big.Int{}
	for o := 0; o+64 <= len(stream); o++ {
		if o%32 == 0 {
			sec[fmt.Sprintf("the scalar drawn at byte %d", o)] = ref.Wide(stream[o : o+64])
		}
	}
	var coeffs []*big.Int
	for i, e := range sim.Commitments(k1) {
		x := sim.FindScalar(stream, e)
		if x == nil {
			c.Note("coefficient not found in the randomness", 1)
			coeffs = nil
			break
		}
		coeffs = append(coeffs, x)
		sec[fmt.Sprintf("coefficient %d", i)] = x
	}
	if coeffs != nil {
		for _, id := range ids {
			sec[fmt.Sprintf("the share of %d", id)] = ref.Eval(coeffs, big.NewInt(int64(id)))
		}
	}
	for _, id := range ids {
		if x := shareOf(id); x != nil {
			sec[fmt.Sprintf("the share sent to %d", id)] = x
		}
	}
	return sec, coeffs
}

// objects checks the messages as objects: the content must be of the kind of the header and nothing else.
func object(c *lib.Ctx, who string, self party.ID, m *messages.Message, kind int, to party.ID) {
	c.Check(int(m.Type) == kind && m.From == self && m.To == to, "%s: message kind %d from %d to %d, expected kind %d from %d to %d", who, m.Type, m.From, m.To, kind, self, to)
	c.Check(m.IsBroadcast() == (kind != sim.K2), "%s: kind %d, broadcast is %v", who, kind, m.IsBroadcast())
	has := [5]bool{false, m.KeyGen1 != nil, m.KeyGen2 != nil, m.Sign1 != nil, m.Sign2 != nil}
	for i, h := range has {
		c.Check(h == (i == kind), "%s: a message of kind %d carries content of kind %d: %v", who, kind, i, h)
	}
}

// lockstep runs the sessions with objects checked on the way.
func lockstep(c *lib.Ctx, name string, ids party.IDSlice, sess map[party.ID]*sim.Sess, keygen bool) map[party.ID][3][][]byte {
	sent := map[party.ID][3][][]byte{}
	var pending [][]byte
	kinds := [2]int{sim.S1, sim.S2}
	if keygen {
		kinds = [2]int{sim.K1, sim.K2}
	}
	for step := 0; step < 3; step++ {
		var next [][]byte
		for _, id := range ids {
			who := fmt.Sprintf("%s party %d step %d", name, id, step)
			for _, m := range pending {
				if sim.From(m) == id || (sim.To(m) != 0 && sim.To(m) != id) {
					continue
				}
				if err := sess[id].Handle(m); err != nil {
					c.Failf("%s: a message is refused: %v", who, err)
				}
				if step == 0 {
					continue
				}
			}
			ms := sess[id].ProcessMsgs()
			var want []party.ID // recipients, 0 for a broadcast
			switch {
			case step == 2:
			case keygen && step == 1:
				for _, to := range ids {
					if to != id {
						want = append(want, to)
					}
				}
			default:
				want = []party.ID{0}
			}
			c.Check(len(ms) == len(want), "%s: %d messages are sent, expected %d", who, len(ms), len(want))
			left := map[party.ID]bool{}
			for _, to := range want {
				left[to] = true
			}
			for _, m := range ms {
				c.Check(left[m.To], "%s: a message to %d is sent twice or not expected", who, m.To)
				delete(left, m.To)
				object(c, who, id, m, kinds[step], m.To)
			}
			enc := sim.Encode(ms)
			x := sent[id]
			x[step] = enc
			sent[id] = x
			next = append(next, enc...)
			// processing again sends nothing again
			c.Check(len(sess[id].ProcessMsgs()) == 0 || len(ids) == 1, "%s: processing again sends messages again", who)
		}
		pending = next
	}
	for _, id := range ids {
		c.Check(sess[id].St.IsFinished(), "%s: party %d does not finish", name, id)
	}
	c.Trace(1)
	return sent
}

func keygen(c *lib.Ctx, ids party.IDSlice, t int) {
	name := fmt.Sprintf("keygen%v t=%d", ids, t)
	c.Case(name, func() {
		sess := map[party.ID]*sim.Sess{}
		for _, id := range ids {
			s, err := sim.NewKeygen(id, ids, party.Size(t), 0, rnd.New(fmt.Sprint("c25", ids, t, id)))
			c.Check(err == nil, "a valid configuration is refused: %v", err)
			sess[id] = s
		}
		sent := lockstep(c, name, ids, sess, true)
		for _, id := range ids {
			all := sent[id]
			k1 := all[0][0]
			stream := sess[id].Rnd.Out
			shares := map[party.ID]*big.Int{}
			for _, k2 := range all[1] {
				c.Check(!sim.JudgeK2(sim.To(k2), k1, k2), "%s: the share party %d sends to %d is not on its committed polynomial", name, id, sim.To(k2))
				shares[sim.To(k2)] = ref.FromLE(k2[5:])
			}
			sec, _ := keygenSecrets(c, ids, k1, stream, func(to party.ID) *big.Int { return shares[to] })
			if o := sess[id].KG; o.SecretKey != nil {
				sec["the final key share"] = sim.Big(&o.SecretKey.Secret)
			}
			s := newScanner(c, fmt.Sprintf("%s party %d", name, id), sec, stream)
			for to, x := range shares {
				s.own[to] = string(ref.LE(x))
			}
			for _, step := range all {
				for _, b := range step {
					s.scan(b)
				}
			}
			c.Distinct(name, id)
		}
		// no share that was sent to one participant appears in what anyone sends to others
		for _, a := range ids {
			for _, k2 := range sent[a][1] {
				for _, b := range ids {
					for _, step := range sent[b] {
						for _, m := range step {
							if !bytes.Equal(m, k2) && bytes.Contains(m, k2[5:]) {
								c.Failf("%s: the share %d sends to %d also appears in a message of %d to %d", name, a, sim.To(k2), b, sim.To(m))
							}
						}
					}
				}
			}
		}
	})
}

func signSecrets(k *sim.Keys, id party.ID, signers party.IDSlice, s1 []byte, stream []byte) map[string]*big.Int {
	sec := map[string]*big.Int{"the key share": k.Share[id], "the group secret": k.Coeffs[0]}
	lam := ref.Lagrange(uint16(id), sim.U(signers))
	sec["the weighted key share"] = ref.Mul(lam, k.Share[id])
	for o := 0; o+64 <= len(stream); o += 32 {
		sec[fmt.Sprintf("the scalar drawn at byte %d", o)] = ref.Wide(stream[o : o+64])
	}
	d, e := sim.FindScalar(stream, s1[5:37]), sim.FindScalar(stream, s1[37:69])
	if d != nil && e != nil {
		sec["nonce d"], sec["nonce e"], sec["d+e"] = d, e, ref.Add(d, e)
	}
	return sec
}

func signing(c *lib.Ctx, k *sim.Keys, signers party.IDSlice) {
	name := fmt.Sprintf("sign%v of %v t=%d", signers, k.IDs, k.T)
	c.Case(name, func() {
		sess := map[party.ID]*sim.Sess{}
		for _, id := range signers {
			s, err := sim.NewSign(signers, k.Secret[id], k.Public, []byte("message"), 0, rnd.New(fmt.Sprint("c25", name, id)))
			c.Check(err == nil, "a valid configuration is refused: %v", err)
			sess[id] = s
		}
		if len(signers) == 1 {
			// a single signer needs no messages; all its rounds are processed in one call
			s := sess[signers[0]]
			ms := s.ProcessMsgs()
			c.Check(len(ms) == 2, "%s: a single signer sends %d messages", name, len(ms))
			for i, m := range ms {
				object(c, name, signers[0], m, []int{sim.S1, sim.S2}[i], 0)
			}
			sc := newScanner(c, name, signSecrets(k, signers[0], signers, sim.Encode(ms)[0], s.Rnd.Out), s.Rnd.Out)
			for _, b := range sim.Encode(ms) {
				sc.scan(b)
			}
			c.Trace(1)
			return
		}
		sent := lockstep(c, name, signers, sess, false)
		for _, id := range signers {
			sc := newScanner(c, fmt.Sprintf("%s party %d", name, id), signSecrets(k, id, signers, sent[id][0][0], sess[id].Rnd.Out), sess[id].Rnd.Out)
			for _, step := range sent[id] {
				for _, b := range step {
					sc.scan(b)
				}
			}
			c.Distinct(name, id)
		}
	})
}

// histories explores one session; the explorer compares what is sent with the reference model after
// every step, and here everything sent is scanned in every state.
func histories(c *lib.Ctx) {
	const second = int64(1e9)
	kg := func(t int, v ...party.ID) *sim.World { return sim.KeygenWorld(v, t, fmt.Sprint("c25", v, t)) }
	sg := func(all []party.ID, t int, v ...party.ID) *sim.World {
		return sim.SignWorld(sim.Deal(all, t, "c25"), v, []byte("message"), fmt.Sprint("c25", v, t))
	}
	worlds := []*sim.World{kg(1, 1, 2), kg(1, 1, 2, 3), kg(2, 2, 256, 65535), sg([]party.ID{1, 2, 3}, 1, 1, 3), sg([]party.ID{3, 256, 65535}, 2, 3, 256, 65535)}
	if !c.Quick() {
		worlds = append(worlds, kg(1, 1, 2, 3, 4), kg(3, 5, 6, 7, 8), sg([]party.ID{1, 2, 3, 4}, 1, 1, 2, 3, 4))
	}
	for _, w := range worlds {
		for k, id := range w.IDs {
			w, id, k := w, id, k
			first := -len(w.IDs) // negative: faulty messages of one peer; thorough: lastly of all peers
			if !c.Quick() {
				first--
			}
			for x := first; x < sim.StrayCount(w); x++ {
				x := x
				if x < 0 && -x <= len(w.IDs) && w.IDs[-x-1] == id {
					continue
				}
				c.Case(fmt.Sprintf("%s/party %d/history/%d", w.Name, id, x), func() {
					strays := append([]sim.Msg{}, w.Strays(id)...)
					menu := w.Honest(id)
					if x >= 0 {
						if x >= len(strays) {
							return
						}
						menu = append(menu, strays[x])
					} else {
						for y, j := range w.IDs {
							if j != id && (y == -x-1 || -x > len(w.IDs)) {
								f := w.FaultyFirst(j)
								g := w.FaultySecond(j, id)
								menu = append(menu, f[len(f)/2], g[0])
							}
						}
					}
					e := &sim.Explorer{C: c, P: w.Proto(id, 10e9), Menu: menu, Budget: 1, Perm: k % 2, MaxProc: 2, AfterEnd: 2, Repeats: 1}
					if len(w.IDs) == 2 {
						e.Repeats = 2
					}
					e.Advances, e.MaxTime, e.MaxSteps = []int64{10 * second}, 10*second, 1
					p := e.P
					scanned := map[string]bool{} // what was sent, with the randomness it was made from
					e.Each = func(s *sim.Sess, m *sim.Model, hist []sim.Event) {
						if len(m.Emit[0]) == 0 {
							return
						}
						if len(hist) > 0 && hist[len(hist)-1].Kind != 'p' {
							return
						}
						var sec map[string]*big.Int
						own := map[party.ID]string{}
						stream := s.Rnd.Out
						key := fmt.Sprintf("%x %x", m.Emit, stream)
						if scanned[key] {
							return
						}
						scanned[key] = true
						if p.Keygen {
							shares := map[party.ID]*big.Int{}
							for _, b := range m.Emit[1] {
								shares[sim.To(b)] = ref.FromLE(b[5:])
								own[sim.To(b)] = string(b[5:])
							}
							sec, _ = keygenSecrets(c, w.IDs, m.Emit[0][0], stream, func(to party.ID) *big.Int { return shares[to] })
						} else {
							sec = signSecrets(w.Keys, id, w.IDs, m.Emit[0][0], stream)
						}
						sc := newScanner(c, fmt.Sprintf("%s party %d after %s", w.Name, id, e.Show(hist)), sec, stream)
						sc.own = own
						for _, st := range m.Emit {
							for _, b := range st {
								sc.scan(b)
							}
						}
					}
					e.Run()
				})
			}
		}
	}
}
