//go:build go1.21

// C03: key generation gives all parties consistent shares of one key with threshold t.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C03", Level: "exploration",
		Rule:   "complete real key generation runs (messages as bytes) over every (n,t), an enumeration of identifier sets and of randomness streams; on each result every t- and every (t+1)-subset of the secret shares is interpolated with reference arithmetic, public shares and group key are recomputed with the reference curve, and the group key is compared with the sum of the contributions broadcast",
		Bounds: "n <= 5 with all t (thorough n <= 7), all identifier sets of size 2 and 3 from a 14-value alphabet, 8 kinds of randomness per party for n = 2, 3, every (n,t) for n <= 13 (thorough 20), single larger groups (n = 66, thorough n = 130); one real party among up to 3000 (thorough 33000) others, t to 257 (thorough 600)",
	}, run)
}

func keygen(c *lib.Ctx, ids party.IDSlice, t int, streams map[party.ID]*rnd.Stream, degenerate bool, all bool) {
	sess := map[party.ID]*sim.Sess{}
	for _, id := range ids {
		s, err := sim.NewKeygen(id, ids, party.Size(t), 0, streams[id])
		if err != nil {
			c.Failf("keygen %v t=%d party %d: %v", ids, t, id, err)
		}
		sess[id] = s
	}
	r, err := sim.Lockstep(ids, sess)
	if err != nil {
		c.Failf("keygen %v t=%d: %v", ids, t, err)
	}
	name := fmt.Sprintf("keygen %v t=%d", ids, t)
	// one public part
	p0 := r.Sess[ids[0]].KG.Public
	k0 := sim.PublicKey(p0)
	share := map[uint16]*big.Int{}
	for _, id := range ids {
		o := r.Sess[id].KG
		if k := sim.PublicKey(o.Public); k != k0 {
			c.Failf("%s: parties %d and %d hold different public data:\n%s\n%s", name, ids[0], id, k0, k)
		}
		c.Check(o.Public.Equal(p0) && p0.Equal(o.Public), "%s: public data not Equal", name)
		c.Check(o.SecretKey.ID == id, "%s: secret share of %d carries identifier %d", name, id, o.SecretKey.ID)
		share[uint16(id)] = sim.Big(&o.SecretKey.Secret)
	}
	c.Check(p0.PartyIDs.Equal(ids) && len(p0.Shares) == len(ids) && int(p0.Threshold) == t, "%s: public data are for parties %v, t=%d, %d shares", name, p0.PartyIDs, p0.Threshold, len(p0.Shares))
	for _, id := range ids {
		want := sim.BaseEnc(share[uint16(id)])
		for _, j := range ids {
			pub := r.Sess[j].KG.Public.Shares[id]
			c.Check(pub != nil && bytes.Equal(pub.Bytes(), want), "%s: secret share of %d does not match its public share held by %d", name, id, j)
		}
		c.Check(bytes.Equal(r.Sess[id].KG.SecretKey.Public.Bytes(), want), "%s: secret share of %d carries another public value", name, id)
	}
	group := []byte(p0.GroupKey.ToEd25519())
	// contributions
	var sum [][]byte
	seen := map[string]party.ID{}
	for _, id := range ids {
		k := string(sim.Commitments(r.Sent[id][0][0])[0])
		if o, dup := seen[k]; dup && !degenerate {
			c.Failf("%s: parties %d and %d made the same contribution", name, o, id)
		}
		seen[k] = id
		sum = append(sum, []byte(k))
	}
	c.Check(bytes.Equal(sim.Pt(sim.AddEnc(sum...)).Clean().EncodeEd(), group), "%s: the group key is not the sum of the contributions", name)
	// interpolation
	sets := []party.IDSlice{ids[:t+1], ids[len(ids)-t-1:]}
	if all {
		sets = sim.Sub(ids, t+1, t+1)
	}
	var secret *big.Int
	for _, s := range sets {
		v := interpolate(s, share)
		if secret == nil {
			secret = v
			c.Check(bytes.Equal(ref.BaseMul(v).EncodeEd(), group), "%s: the shares of %v do not interpolate to the group key", name, s)
		}
		c.Check(secret.Cmp(v) == 0, "%s: the shares of %v interpolate to another secret than those of %v", name, s, sets[0])
		c.Eval(1)
	}
	if !degenerate {
		small := []party.IDSlice{ids[:t], ids[len(ids)-t:]}
		if all {
			small = sim.Sub(ids, 1, t)
		}
		for _, s := range small {
			if interpolate(s, share).Cmp(secret) == 0 {
				c.Failf("%s: only %d shares (of %v) interpolate to the group secret", name, len(s), s)
			}
			c.Eval(1)
		}
	}
	c.Trace(1)
	c.State(3 * len(ids))
	c.Trans(2*len(ids)*(len(ids)-1) + 3*len(ids))
	c.Distinct(name, k0)
}

func interpolate(s party.IDSlice, share map[uint16]*big.Int) *big.Int {
	m := map[uint16]*big.Int{}
	for _, id := range s {
		m[uint16(id)] = share[uint16(id)]
	}
	return ref.Interpolate0(m)
}

func streams(ids party.IDSlice, label string) map[party.ID]*rnd.Stream {
	m := map[party.ID]*rnd.Stream{}
	for _, id := range ids {
		m[id] = rnd.New(fmt.Sprint("c03", ids, label, id))
	}
	return m
}

// kinds of randomness: the first 64-byte windows replaced by special scalars
func special(kind int, label string) *rnd.Stream {
	w := func(x *big.Int) []byte { return append(ref.LE(x), make([]byte, 32)...) }
	ones := bytes.Repeat([]byte{0xff}, 64)
	qm1 := new(big.Int).Sub(ref.Q, big.NewInt(1))
	switch kind {
	case 0:
		return rnd.New(label)
	case 1:
		return rnd.Fixed(label, w(big.NewInt(0)))
	case 2:
		return rnd.Fixed(label, make([]byte, 256))
	case 3:
		return rnd.Fixed(label, bytes.Repeat(ones, 4))
	case 4:
		return rnd.Fixed(label, sim.Cat(w(qm1), w(big.NewInt(1))))
	case 5:
		return rnd.Fixed(label, sim.Cat(w(big.NewInt(1)), w(qm1), w(qm1)))
	case 6:
		return rnd.Fixed(label, sim.Cat(w(ref.Q), w(big.NewInt(2)), w(big.NewInt(0))))
	}
	return rnd.New("the same for everybody")
}

func run(c *lib.Ctx) {
	for n := 2; n <= c.Pick(5, 7); n++ {
		for t := 1; t < n; t++ {
			for k, ids := range []party.IDSlice{sim.Seq(n), sim.Spread(n)} {
				t, ids, k := t, ids, k
				c.Case(fmt.Sprintf("size/%v t=%d", ids, t), func() {
					for rep := 0; rep < 3; rep++ {
						keygen(c, ids, t, streams(ids, fmt.Sprint(t, k, rep)), false, true)
					}
					c.Sample("%v t=%d", ids, t)
				})
			}
		}
	}
	for n := 2; n <= 3; n++ {
		sets := sim.IDSets(sim.IDAlphabet, n)
		for i := 0; i < len(sets); i += 13 {
			n, i := n, i
			c.Case(fmt.Sprintf("identifiers/size %d from %d", n, i), func() {
				for j := i; j < i+13 && j < len(sets) && !c.Expired(); j++ {
					for t := 1; t < n; t++ {
						if c.Quick() && n == 3 && j%3 != t {
							continue
						}
						keygen(c, sets[j], t, streams(sets[j], fmt.Sprint(t)), false, true)
					}
				}
				c.Sample("identifier sets %v..", sets[i])
			})
		}
	}
	for n := 2; n <= 3; n++ {
		for t := 1; t < n; t++ {
			ids := sim.Seq(n)
			sizes := []int{8, 8, 8}[:n]
			for first := 0; first < 8; first++ {
				n, t, first := n, t, first
				c.Case(fmt.Sprintf("randomness/n=%d t=%d first %d", n, t, first), func() {
					lib.Tuples(sizes[1:], func(x []int) {
						if c.Quick() && n == 3 && x[0] > x[1] {
							return
						}
						kinds := append([]int{first}, x...)
						m := map[party.ID]*rnd.Stream{}
						same := 0
						for i, id := range ids {
							m[id] = special(kinds[i], fmt.Sprint("c03 special", id))
							same += kinds[i]
						}
						keygen(c, ids, t, m, same > 0, true)
					})
				})
			}
		}
	}
	for n := 6; n <= c.Pick(13, 20); n++ {
		for t := 1; t < n; t++ {
			n, t := n, t
			c.Case(fmt.Sprintf("grid/n=%d t=%d", n, t), func() {
				ids := sim.Seq(n)
				if (n+t)%2 == 1 {
					ids = sim.Spread(n)
				}
				keygen(c, ids, t, streams(ids, fmt.Sprint("grid", t)), false, false)
			})
		}
	}
	for _, x := range [][3]int{{300, 3, 0}, {1000, 1, 999}, {2100, 1, 0}, {260, 257, 130}, {c.Pick(3000, 33000), 1, 5}, {c.Pick(520, 1100), c.Pick(100, 600), 7}} {
		x := x
		c.Case(fmt.Sprintf("huge/n=%d t=%d party %d", x[0], x[1], x[2]), func() {
			ids := sim.Seq(x[0])
			huge(c, ids, ids[x[2]], x[1])
		})
	}
	big := [][2]int{{33, 2}, {33, 32}, {66, 1}, {20, 7}, {12, 11}}
	if !c.Quick() {
		big = append(big, [2]int{64, 3}, [2]int{40, 39}, [2]int{130, 1})
	}
	for _, b := range big {
		b := b
		c.Case(fmt.Sprintf("large/n=%d t=%d", b[0], b[1]), func() {
			ids := sim.Spread(b[0])
			keygen(c, ids, b[1], streams(ids, "large"), false, false)
		})
	}
}
