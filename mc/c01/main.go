//go:build go1.21

// C01: any quorum of t+1 or more signers produces one valid Ed25519 signature.
package main

import (
	"bytes"
	"fmt"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C01", Level: "exploration",
		Rule:   "every threshold, every signer subset with more than t members, over an enumeration of identifier sets and key origins (reference dealer, library dealer, key generation); messages from an alphabet of lengths around every hash block boundary; each run executes complete real sessions with all messages as bytes, and checks outcome, equality of the signatures, crypto/ed25519 and the library verifier, and for dealer keys the group key against the reference",
		Bounds: "n <= 5 completely (thorough: n <= 7), all identifier sets of size 2 and 3 from a 14-value alphabet (thorough: size 4), 29 message lengths, sequences of 3 signings with one key, 300 (thorough 3000) signings with one key; every (n,t) and number of signers for n <= 14 (thorough 30) with selected signers; single larger groups (up to 130 signers, thorough 300); one real signer among up to 1100 (thorough 3000) signers played by the reference",
	}, run)
}

// Key is a shared key from any origin.
type key struct {
	name string
	ids  party.IDSlice
	t    int
	pub  *eddsa.Public
	sec  map[party.ID]*eddsa.SecretShare
}

func dealt(ids party.IDSlice, t int) *key {
	k := sim.Deal(ids, t, fmt.Sprint("c01", ids, t))
	return &key{fmt.Sprintf("dealer%v t=%d", ids, t), ids, t, k.Public, k.Secret}
}

func helper(ids party.IDSlice, t int) *key {
	rnd.Use(rnd.New(fmt.Sprint("c01 helper", ids, t)))
	defer rnd.Use(nil)
	_, sec := helpers.GenerateSecrets(ids, party.Size(t))
	return &key{fmt.Sprintf("library dealer%v t=%d", ids, t), ids, t, helpers.GeneratePublic(party.Size(t), sec), sec}
}

func generated(c *lib.Ctx, ids party.IDSlice, t int) *key {
	r, err := sim.RunKeygen(ids, t, fmt.Sprint("c01", ids, t))
	if err != nil {
		c.Failf("key generation among %v with t=%d: %v", ids, t, err)
	}
	k := &key{fmt.Sprintf("keygen%v t=%d", ids, t), ids, t, r.Sess[ids[0]].KG.Public, map[party.ID]*eddsa.SecretShare{}}
	for _, id := range ids {
		k.sec[id] = r.Sess[id].KG.SecretKey
	}
	return k
}

func sign(c *lib.Ctx, k *key, signers party.IDSlice, msg []byte, label string) {
	r, err := sim.RunSign(signers, k.pub, k.sec, msg, label)
	if err == nil {
		err = r.SameSigs(k.pub, msg)
	}
	if err != nil {
		c.Failf("%s: signers %v, message of %d bytes: %v", k.name, signers, len(msg), err)
	}
	c.Eval(1)
	c.State(3 * len(signers))
	c.Trans(2*len(signers)*(len(signers)-1) + 3*len(signers))
	c.Trace(1)
	c.Distinct(k.name, signers, msg)
}

func msg(n int) []byte {
	if n < 0 {
		return nil
	}
	return rnd.Bytes(fmt.Sprint("message", n), n)
}

var lengths = []int{-1, 0, 1, 2, 31, 32, 33, 47, 48, 55, 56, 63, 64, 65, 111, 112, 113, 127, 128, 129, 191, 192, 239, 240, 255, 256, 257, 4096, 70000}

func groupKey(c *lib.Ctx, ids party.IDSlice, t int) {
	k := sim.Deal(ids, t, fmt.Sprint("c01", ids, t))
	want := ref.BaseMul(k.Coeffs[0]).EncodeEd()
	got := k.Public.GroupKey.ToEd25519()
	c.Check(bytes.Equal(want, got), "dealer%v t=%d: group key is %x, the secret's is %x", ids, t, got, want)
}

func run(c *lib.Ctx) {
	// every (n,t), every quorum, every origin
	for n := 2; n <= c.Pick(5, 7); n++ {
		for t := 1; t < n; t++ {
			for _, ids := range []party.IDSlice{sim.Seq(n), sim.Spread(n)} {
				n, t, ids := n, t, ids
				for origin := 0; origin < 3; origin++ {
					origin := origin
					c.Case(fmt.Sprintf("quorums/%v t=%d origin %d", ids, t, origin), func() {
						var k *key
						switch origin {
						case 0:
							k = dealt(ids, t)
							groupKey(c, ids, t)
						case 1:
							k = helper(ids, t)
						default:
							k = generated(c, ids, t)
						}
						for i, s := range sim.Sub(ids, t+1, n) {
							if n > 5 && origin != 0 && i%4 != 0 {
								continue
							}
							sign(c, k, s, msg(i), fmt.Sprint(k.name, s))
						}
						c.Sample("%s: all %d quorums", k.name, len(sim.Sub(ids, t+1, n)))
					})
				}
			}
		}
	}
	// identifier sets
	for n := 2; n <= c.Pick(3, 4); n++ {
		sets := sim.IDSets(sim.IDAlphabet, n)
		for i := 0; i < len(sets); i += 13 {
			n, i := n, i
			c.Case(fmt.Sprintf("identifiers/size %d from %d", n, i), func() {
				for j := i; j < i+13 && j < len(sets) && !c.Expired(); j++ {
					ids := sets[j]
					for t := 1; t < n; t++ {
						k := dealt(ids, t)
						if j%4 == 0 {
							groupKey(c, ids, t)
						}
						for _, s := range sim.Sub(ids, t+1, n) {
							sign(c, k, s, msg(40), fmt.Sprint(k.name, s))
						}
					}
				}
				c.Sample("identifier sets %v..", sets[i])
			})
		}
	}
	// messages
	for _, n := range lengths {
		n := n
		c.Case(fmt.Sprintf("message/%d bytes", n), func() {
			for _, k := range []*key{dealt(sim.Seq(3), 1), dealt(sim.Spread(3), 2)} {
				for _, s := range sim.Sub(k.ids, k.t+1, 3) {
					sign(c, k, s, msg(n), fmt.Sprint(k.name, s, n))
					if n > 0 {
						sign(c, k, s, make([]byte, n), fmt.Sprint(k.name, s, n, "zero"))
						sign(c, k, s, bytes.Repeat([]byte{0xff}, n), fmt.Sprint(k.name, s, n, "ones"))
					}
				}
			}
			c.Sample("message of %d bytes", n)
		})
	}
	// repeated use of one key: sequences of signings over quorums and messages
	for seq := 0; seq < 27; seq++ {
		seq := seq
		c.Case(fmt.Sprintf("repeated/%d", seq), func() {
			k := dealt(sim.Seq(3), 1)
			if seq%2 == 1 {
				k = generated(c, sim.Seq(3), 1)
			}
			quorums := sim.Sub(k.ids, 2, 3)
			for i, v := 0, seq; i < 3; i, v = i+1, v/3 {
				for j := range quorums {
					sign(c, k, quorums[(j+v)%len(quorums)], msg(v%3), fmt.Sprint(k.name, seq, i, j))
				}
			}
		})
	}
	// every (n,t) of middle-sized groups
	for n := 6; n <= c.Pick(14, 30); n++ {
		for t := 1; t < n; t++ {
			n, t := n, t
			c.Case(fmt.Sprintf("grid/n=%d t=%d", n, t), func() {
				for i, ids := range []party.IDSlice{sim.Seq(n), sim.Spread(n)} {
					k := dealt(ids, t)
					if n <= c.Pick(8, 16) && i == t%2 {
						k = generated(c, ids, t)
					}
					sign(c, k, ids[:t+1], msg(n), fmt.Sprint(k.name, "low"))
					sign(c, k, ids[n-t-1:], msg(t), fmt.Sprint(k.name, "high"))
					var s party.IDSlice // every size in between once
					for size := t + 2; size <= n; size++ {
						from := (size * 7) % (n - size + 1)
						s = append(append(party.IDSlice{}, ids[from:from+size-1]...), ids[n-1])
						if from+size-1 == n {
							s = ids
						}
						sign(c, k, s, msg(size), fmt.Sprint(k.name, size))
					}
				}
			})
		}
	}
	// one key used again and again, by changing quorums and for changing messages
	for i, n := range []int{2, 3, 5} {
		for origin := 0; origin < 2; origin++ {
			n, i, origin := n, i, origin
			c.Case(fmt.Sprintf("long use/n=%d origin %d", n, origin), func() {
				k := dealt(sim.Spread(n), 1+i/2)
				if origin == 1 {
					k = generated(c, sim.Spread(n), 1+i/2)
				}
				qs := sim.Sub(k.ids, k.t+1, n)
				for u := 0; u < c.Pick(300, 3000); u++ {
					sign(c, k, qs[(u*5)%len(qs)], msg(u%7+u/70), fmt.Sprint(k.name, "use", u))
				}
			})
		}
	}
	// very large groups: one real signer among signers played by the reference
	for _, n := range []int{500, 993, c.Pick(1100, 3000)} {
		for k := 0; k < 2; k++ {
			n, k := n, k
			c.Case(fmt.Sprintf("huge/%d signers, %d", n, k), func() {
				ids := sim.Seq(n)
				huge(c, ids, ids[k*(n-1)])
			})
		}
	}
	// larger groups
	big := [][3]int{{9, 4, 5}, {16, 8, 9}, {17, 16, 17}, {33, 2, 33}, {64, 20, 21}, {130, 128, 130}, {260, 1, 2}, {300, 3, 6}}
	if !c.Quick() {
		big = append(big, [3]int{129, 64, 65}, [3]int{256, 255, 256}, [3]int{257, 255, 256}, [3]int{300, 2, 300})
	}
	for _, b := range big {
		for _, spread := range []bool{false, true} {
			b, spread := b, spread
			if b[2] > 100 && spread && c.Quick() {
				continue
			}
			c.Case(fmt.Sprintf("large/n=%d t=%d signers=%d spread=%v", b[0], b[1], b[2], spread), func() {
				ids := sim.Seq(b[0])
				if spread {
					ids = sim.Spread(b[0])
				}
				k := dealt(ids, b[1])
				sign(c, k, ids[len(ids)-b[2]:], msg(32), k.name)
				if b[2] < 40 {
					sign(c, k, ids[:b[2]], msg(32), k.name)
				}
				c.Sample("%s: %d signers", k.name, b[2])
			})
		}
	}
	for _, b := range [][2]int{{7, 3}, {12, 6}, {16, 15}} {
		b := b
		c.Case(fmt.Sprintf("large keygen/n=%d t=%d", b[0], b[1]), func() {
			k := generated(c, sim.Spread(b[0]), b[1])
			sign(c, k, k.ids[b[0]-b[1]-1:], msg(32), k.name)
			sign(c, k, k.ids, msg(33), k.name)
		})
	}
}
