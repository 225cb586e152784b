//go:build go1.21

// C10: a proof of knowledge is valid only for its own prover, context and key.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C10", Level: "exploration",
		Rule:        "proofs over the product of identifiers, contexts, secrets and nonces verify; each is then verified under every other of the 65536 identifiers (sampled base cases), every one-bit change of the context, every one-bit change and every special value of the proof, every public value of an alphabet; challenges made with the same nonce are compared across every single deviation; proofs assembled without the secret from every pair of values of an alphabet (and from challenges of chosen nonces) are refused",
		Bounds:      "14 identifiers x 6 contexts x 8 secrets x 4 nonces; 65536 identifiers for 2 base proofs (thorough 8); 256 context bits, 512 proof bits; 24x24 chosen proof values x 6 public values",
		Assumptions: []string{"the context is 32 bytes long", "hardness assumptions are not addressed"},
	}, run)
}

type base struct {
	id     party.ID
	ctx    []byte
	secret *big.Int
	nonce  *rnd.Stream
	name   string
}

func el(enc []byte) *ristretto.Element {
	var e ristretto.Element
	if _, err := e.SetCanonicalBytes(enc); err != nil {
		panic(err)
	}
	return &e
}

func pub(x *big.Int) *ristretto.Element { return el(sim.BaseEnc(ref.Mod(x))) }

func prove(id party.ID, ctx []byte, public *ristretto.Element, secret *big.Int, nonce *rnd.Stream) *zk.Schnorr {
	rnd.Use(nonce)
	defer rnd.Use(nil)
	return zk.NewSchnorrProof(id, public, ctx, sim.Sc(secret))
}

func contexts() [][]byte {
	out := [][]byte{make([]byte, 32), bytes.Repeat([]byte{0xff}, 32), rnd.Bytes("context", 32)}
	a := make([]byte, 32)
	a[0] = 1
	b := make([]byte, 32)
	b[31] = 1
	d := make([]byte, 32)
	d[31] = 0x80
	return append(out, a, b, d)
}

func secrets() []*big.Int {
	m1 := new(big.Int).Sub(ref.Q, big.NewInt(1))
	return []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), m1, new(big.Int).Rsh(ref.Q, 1), sim.RandScalar("s1"), sim.RandScalar("s2"), sim.RandScalar("s3")}
}

func nonces(k int) *rnd.Stream {
	switch k {
	case 0:
		return rnd.New("nonce a")
	case 1:
		return rnd.New("nonce b")
	case 2:
		return rnd.Fixed("", append([]byte{1}, make([]byte, 63)...))
	}
	return rnd.Fixed("", bytes.Repeat([]byte{0xff}, 64))
}

func run(c *lib.Ctx) {
	for i := range sim.IDAlphabet {
		id := sim.IDAlphabet[i]
		c.Case(fmt.Sprintf("complete/identifier %d", id), func() {
			for ci, ctx := range contexts() {
				for si, s := range secrets() {
					for k := 0; k < 4; k++ {
						p := prove(id, ctx, pub(s), s, nonces(k))
						if !p.Verify(id, pub(s), ctx) {
							c.Failf("the proof of %d for secret %d, context %d, nonce %d does not verify", id, si, ci, k)
						}
						b, err := p.MarshalBinary()
						var q zk.Schnorr
						if err != nil || q.UnmarshalBinary(b) != nil || !q.Verify(id, pub(s), ctx) {
							c.Failf("the proof of %d for secret %d, context %d, nonce %d does not verify after encoding", id, si, ci, k)
						}
						// single deviations over the alphabets
						for _, o := range sim.IDAlphabet {
							if k == 0 && si > 3 && o != id && p.Verify(o, pub(s), ctx) {
								c.Failf("the proof of %d (secret %d, context %d) verifies for %d", id, si, ci, o)
							}
						}
						for oi, o := range secrets() {
							if k == 1 && ci < 3 && oi != si && p.Verify(id, pub(o), ctx) {
								c.Failf("the proof of %d for secret %d verifies for the public value of secret %d", id, si, oi)
							}
						}
						for oi, o := range contexts() {
							if k < 2 && si%2 == 1 && oi != ci && p.Verify(id, pub(s), o) {
								c.Failf("the proof of %d (secret %d) in context %d verifies in context %d", id, si, ci, oi)
							}
						}
						c.Eval(3)
						c.Distinct("complete", id, ci, si, k)
					}
				}
			}
			c.Sample("identifier %d: 6 contexts x 8 secrets x 4 nonces", id)
		})
	}
	bases := []base{{1, make([]byte, 32), sim.RandScalar("b1"), nonces(0), "a"}, {258, rnd.Bytes("context", 32), sim.RandScalar("b2"), nonces(1), "b"}}
	if !c.Quick() {
		for k, id := range []party.ID{0, 65535, 256, 32768, 255, 4660} {
			bases = append(bases, base{id, rnd.Bytes(fmt.Sprint("context", k), 32), sim.RandScalar(fmt.Sprint("b", k+3)), rnd.New(fmt.Sprint("n", k)), fmt.Sprint(k)})
		}
	}
	for _, b := range bases {
		b := b
		P := pub(b.secret)
		p := prove(b.id, b.ctx, P, b.secret, b.nonce)
		enc, _ := p.MarshalBinary()
		S := enc[:32]
		for part := 0; part < 16; part++ {
			part := part
			c.Case(fmt.Sprintf("identifiers/%s part %d", b.name, part), func() {
				for o := part; o < 65536; o += 16 {
					if party.ID(o) != b.id && p.Verify(party.ID(o), P, b.ctx) {
						c.Failf("the proof of %d verifies for %d", b.id, o)
					}
					c.Eval(1)
				}
				c.Distinct("ids", b.name, part)
			})
		}
		c.Case("context bits/"+b.name, func() {
			for bit := 0; bit < 256; bit++ {
				ctx := append([]byte(nil), b.ctx...)
				ctx[bit/8] ^= 1 << (bit % 8)
				if p.Verify(b.id, P, ctx) {
					c.Failf("the proof verifies although bit %d of the context differs", bit)
				}
				q := prove(b.id, ctx, P, b.secret, rewind(b))
				if qe, _ := q.MarshalBinary(); bytes.Equal(qe[:32], S) {
					c.Failf("the challenge does not depend on bit %d of the context", bit)
				}
				c.Eval(2)
				c.Distinct("ctx", b.name, bit)
			}
		})
		c.Case("proof changes/"+b.name, func() {
			n := 0
			try := func(what string, e []byte) {
				if bytes.Equal(e, enc) {
					return
				}
				var q zk.Schnorr
				if err := q.UnmarshalBinary(e); err != nil {
					c.Note("changed proofs that do not decode", 1)
					return
				}
				n++
				if q.Verify(b.id, P, b.ctx) {
					c.Failf("the proof verifies after %s", what)
				}
				c.Eval(1)
			}
			for bit := 0; bit < 512; bit++ {
				e := append([]byte(nil), enc...)
				e[bit/8] ^= 1 << (bit % 8)
				try(fmt.Sprintf("flipping bit %d", bit), e)
			}
			vals := chosen()
			for x := range vals {
				try(fmt.Sprintf("replacing S by value %d", x), sim.Cat(ref.LE(vals[x]), enc[32:]))
				try(fmt.Sprintf("replacing R by value %d", x), sim.Cat(enc[:32], ref.LE(vals[x])))
				sv, rv := ref.FromLE(enc[:32]), ref.FromLE(enc[32:])
				try(fmt.Sprintf("adding value %d to S", x), sim.Cat(ref.LE(ref.Add(sv, vals[x])), enc[32:]))
				try(fmt.Sprintf("adding value %d to R", x), sim.Cat(enc[:32], ref.LE(ref.Add(rv, vals[x]))))
				try(fmt.Sprintf("adding value %d to both", x), sim.Cat(ref.LE(ref.Add(sv, vals[x])), ref.LE(ref.Add(rv, vals[x]))))
				try(fmt.Sprintf("moving value %d from S to R with the key", x), sim.Cat(ref.LE(ref.Sub(sv, vals[x])), ref.LE(ref.Add(rv, ref.Mul(vals[x], b.secret)))))
				try(fmt.Sprintf("scaling both by value %d", x), sim.Cat(ref.LE(ref.Mul(sv, vals[x])), ref.LE(ref.Mul(rv, vals[x]))))
			}
			try("exchanging S and R", sim.Cat(enc[32:], enc[:32]))
			c.Distinct("changes", b.name, n)
			c.Sample("%d changed proofs of base %s decode and are refused", n, b.name)
		})
		c.Case("challenge inputs/"+b.name, func() {
			differs := func(what string, q *zk.Schnorr) {
				qe, _ := q.MarshalBinary()
				if bytes.Equal(qe[:32], S) {
					c.Failf("the challenge does not depend on %s", what)
				}
				c.Eval(1)
				c.Distinct("challenge", b.name, what)
			}
			for bit := 0; bit < 16; bit++ {
				differs(fmt.Sprintf("bit %d of the identifier", bit), prove(b.id^1<<bit, b.ctx, P, b.secret, rewind(b)))
			}
			for x, s := range append(chosen(), ref.Add(b.secret, ref.Int(1)), ref.Sub(ref.Int(0), b.secret)) {
				differs(fmt.Sprintf("the public value (alternative %d)", x), prove(b.id, b.ctx, pub(s), b.secret, rewind(b)))
			}
			for k := 0; k < 512; k++ {
				n := rnd.Bytes(b.nonce.Label, 64)
				n[k/8] ^= 1 << (k % 8)
				if len(b.nonce.Label) > 0 {
					differs(fmt.Sprintf("bit %d of the nonce", k), prove(b.id, b.ctx, P, b.secret, rnd.Fixed("", n)))
				}
			}
		})
		c.Case("forged/"+b.name, func() {
			// Without the secret: values chosen freely, and responses to the challenge of a chosen nonce
			vals := chosen()
			for _, x := range vals {
				vals = append(vals, ref.FromLE(challengeOf(b, P, x)))
			}
			for pi, target := range []*ristretto.Element{P, pub(sim.RandScalar("other")), pub(big.NewInt(1)), pub(big.NewInt(2)), ristretto.NewIdentityElement()} {
				for i, s := range vals {
					if pi > 1 && i >= 12 {
						break
					}
					for j, r := range vals {
						var q zk.Schnorr
						if err := q.UnmarshalBinary(sim.Cat(ref.LE(s), ref.LE(r))); err != nil {
							c.Failf("canonical values refused: %v", err)
						}
						if q.Verify(b.id, target, b.ctx) {
							c.Failf("a proof for public value %d made of the chosen values %d and %d verifies", pi, i, j)
						}
						c.Eval(1)
					}
				}
				c.Distinct("forged", b.name, pi)
			}
			c.Sample("base %s: %d x %d chosen values", b.name, len(vals), len(vals))
		})
	}
	c.Case("same secret, fresh nonces", func() {
		// proofs of the same statement with different randomness have different challenges
		seen := map[string]int{}
		for k := 0; k < 64; k++ {
			p := prove(7, make([]byte, 32), pub(big.NewInt(5)), big.NewInt(5), rnd.New(fmt.Sprint("fresh", k)))
			e, _ := p.MarshalBinary()
			if o, dup := seen[string(e[:32])]; dup {
				c.Failf("proofs %d and %d with different randomness have the same challenge", o, k)
			}
			seen[string(e[:32])] = k
			c.Eval(1)
		}
	})
}

func rewind(b base) *rnd.Stream { return rnd.New(b.nonce.Label) }

// challengeOf is the challenge the library computes for nonce x (any secret will do).
func challengeOf(b base, P *ristretto.Element, x *big.Int) []byte {
	p := prove(b.id, b.ctx, P, big.NewInt(3), rnd.Fixed("", append(ref.LE(x), make([]byte, 32)...)))
	e, _ := p.MarshalBinary()
	return e[:32]
}

func chosen() []*big.Int {
	m := func(x int64) *big.Int { return ref.Mod(big.NewInt(x)) }
	out := []*big.Int{m(0), m(1), m(2), m(3), m(-1), m(-2), m(8), new(big.Int).Rsh(ref.Q, 1), ref.Inv(ref.Int(2)), ref.Inv(ref.Int(8)), sim.RandScalar("c1"), sim.RandScalar("c2")}
	return out
}
