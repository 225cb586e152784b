//go:build go1.21

// C19: the library's verifier and standard Ed25519 agree.
package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C19", Level: "exploration",
		Rule:   "all combinations of key, nonce (each in several internal representations, every torsion coset), message and alteration (response off by edge amounts, replaced by edge values; nonce, key or message replaced; nonce or key negated; challenge computed for other inputs): library verdict, standard Ed25519 verdict and the verification equation in reference arithmetic must be the same three times; the Ed25519 form of every element of the alphabet in every representation, computed or transported as bytes, text, JSON or in key data, against RFC 8032; challenges against the hash",
		Bounds: "quick: 7 keys, 5 nonces, 8 messages (0 to 1024 bytes), valid and invalid signatures for every message length to 300 and around every power of two to 1 MB; thorough: 26 keys, 12 nonces, 16 messages (to 1 MB), lengths to 2200 and around powers of two to 32 MB",
	}, run)
}

func messages(c *lib.Ctx) [][]byte {
	sizes := []int{0, 1, 32, 63, 64, 128, 300, 1024}
	if !c.Quick() {
		sizes = append(sizes, 47, 48, 111, 112, 127, 4096, 65536, 1<<20)
	}
	var out [][]byte
	for _, n := range sizes {
		out = append(out, rnd.Bytes("msg", n))
	}
	return out
}

// sizes are all message lengths to a bound, and those around the powers of two above.
func sizes(c *lib.Ctx) []int {
	var out []int
	for n := 0; n <= c.Pick(300, 2200); n++ {
		out = append(out, n)
	}
	for p := 256; p <= c.Pick(1<<20, 1<<25); p *= 2 {
		for _, d := range []int{-65, -64, -63, -1, 0, 1, 7} {
			if p+d > out[len(out)-1] {
				out = append(out, p+d)
			}
		}
	}
	return out
}

func pick(ks []*big.Int, n int) []*big.Int {
	idx := []int{1, 0, 2, 12, 5, 7, 13, 3, 4, 6, 8, 9, 10, 11, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25}
	var out []*big.Int
	for _, i := range idx[:n] {
		out = append(out, ks[i])
	}
	return out
}

func run(c *lib.Ctx) {
	all := sim.Scalars()
	keys, nonces := pick(all, c.Pick(7, 26)), pick(all, c.Pick(5, 12))
	msgs := messages(c)
	for i, k := range all {
		i, k := i, k
		c.Case(fmt.Sprintf("form %d", i), func() {
			for _, r := range sim.Reps(k) {
				form(c, r)
				c.Distinct("form", i, r.Name)
			}
		})
	}
	for part := 0; part < 8; part++ {
		part := part
		c.Case(fmt.Sprintf("small multiples %d", part), func() {
			// chains: every multiple is reached through addition, decoding and doubling
			var acc ristretto.Element
			acc.Set(ristretto.NewIdentityElement())
			n := c.Pick(240, 4000)
			step := big.NewInt(int64(part + 1))
			for i := 1; i <= n; i++ {
				switch i % 3 {
				case 0:
					acc.Add(&acc, sim.FromEnc(step))
				case 1:
					acc.Subtract(&acc, sim.FromEnc(ref.Sub(big.NewInt(0), step)))
				default:
					var t ristretto.Element
					t.ScalarBaseMult(sim.Sc(step))
					acc.Add(&t, &acc)
				}
				k := ref.Mul(step, big.NewInt(int64(i)))
				want := ref.BaseMul(k).EncodeEd()
				c.Check(bytes.Equal(acc.BytesEd25519(), want), "the Ed25519 form of %s times the base point, reached by adding %s, is %x, want %x", k, step, acc.BytesEd25519(), want)
				if i%5 == 0 {
					if _, err := acc.SetCanonicalBytes(acc.Bytes()); err != nil {
						c.Failf("an encoding is refused: %v", err)
					}
					c.Check(bytes.Equal(acc.BytesEd25519(), want), "the Ed25519 form of %s times the base point changes in transport: %x, want %x", k, acc.BytesEd25519(), want)
				}
				c.Eval(1)
			}
		})
	}
	for i, n := range sizes(c) {
		i, n := i, n
		c.Case(fmt.Sprintf("message of %d bytes", n), func() {
			m := rnd.Bytes("long", n)
			k, r := all[(i+7)%len(all)], all[(i+3)%len(all)]
			edK, edR := ref.BaseMul(k).EncodeEd(), ref.BaseMul(r).EncodeEd()
			pk := eddsa.NewPublicKeyFromPoint(sim.FromEnc(k))
			ch := ref.Challenge(edR, edK, m)
			got := eddsa.ComputeChallenge(sim.FromEnc(r), pk, m)
			c.Check(sim.Big(got).Cmp(ch) == 0, "the challenge for a message of %d bytes is not the hash", n)
			sig := &eddsa.Signature{R: *sim.FromEnc(r), S: *sim.Sc(ref.Add(r, ref.Mul(ch, k)))}
			c.Check(pk.Verify(m, sig) && ed25519.Verify(edK, m, sig.ToEd25519()), "a valid signature for a message of %d bytes is rejected", n)
			c.Eval(1)
			zero := ref.Mod(k).Sign() == 0
			for _, at := range []int{0, n / 2, n - 1} {
				if n > 0 && !zero {
					m[at] ^= 1
					c.Check(!pk.Verify(m, sig), "a message of %d bytes: the signature verifies for a message with another byte %d", n, at)
					m[at] ^= 1
					c.Eval(1)
				}
			}
			if !zero {
				c.Check(!pk.Verify(append(m, 0), sig), "a message of %d bytes: the signature verifies for a longer message", n)
			}
			c.Distinct("size", n)
		})
	}
	for ki, k := range keys {
		for ni, r := range nonces {
			for mi, m := range msgs {
				ki, ni, mi, k, r, m := ki, ni, mi, k, r, m
				c.Case(fmt.Sprintf("verify key %d nonce %d message %d", ki, ni, mi), func() {
					verify(c, k, r, m, keys, nonces, msgs)
					c.Distinct("verify", ki, ni, mi)
				})
			}
		}
	}
	for i := 0; i < c.Pick(6, 60); i++ {
		i := i
		c.Case(fmt.Sprintf("standard key %d", i), func() { standard(c, i) })
	}
}

func form(c *lib.Ctx, r sim.Elem) {
	want := ref.BaseMul(r.K).EncodeEd()
	enc := sim.BaseEnc(r.K)
	chk := func(how string, got []byte) {
		c.Check(bytes.Equal(got, want), "the Ed25519 form of %s times the base point (%s, %s) is %x, want %x", r.K, r.Name, how, got, want)
		c.Eval(1)
	}
	chk("element", r.E.BytesEd25519())
	chk("again", r.E.BytesEd25519())
	b := r.E.BytesEd25519()
	b[0] ^= 1
	chk("after writing to the result", r.E.BytesEd25519())
	c.Check(bytes.Equal(r.E.Bytes(), enc), "computing the Ed25519 form changes the element")
	pk := eddsa.NewPublicKeyFromPoint(r.E)
	chk("key", pk.ToEd25519())
	js, err := json.Marshal(pk)
	c.Check(err == nil, "JSON: %v", err)
	var pk2 eddsa.PublicKey
	c.Check(json.Unmarshal(js, &pk2) == nil, "JSON is refused")
	chk("key through JSON", pk2.ToEd25519())
	c.Check(pk.Equal(&pk2) && pk2.Equal(pk), "key does not equal itself after transport")
	// values that were in use before they are loaded
	for _, o := range []int64{1, 5} {
		was := eddsa.NewPublicKeyFromPoint(sim.FromEnc(big.NewInt(o)))
		was.ToEd25519()
		was.Equal(pk)
		was.Verify([]byte("m"), &eddsa.Signature{R: *r.E, S: *sim.Sc(big.NewInt(o))})
		eddsa.ComputeChallenge(r.E, was, nil)
		json.Marshal(was)
		c.Check(json.Unmarshal(js, was) == nil, "JSON is refused by a key in use")
		chk("key in use before", was.ToEd25519())
		c.Check(was.Equal(pk) && pk.Equal(was), "a key loaded over another is not equal to itself")
		c.Check(sim.Big(eddsa.ComputeChallenge(r.E, was, []byte("x"))).Cmp(ref.Challenge(want, want, []byte("x"))) == 0, "challenge for a key loaded over another")
		again, err := json.Marshal(was)
		c.Check(err == nil && bytes.Equal(again, js), "a key loaded over another is stored as %s, want %s", again, js)
		cp := *was
		chk("copy of a key", cp.ToEd25519())
		ws := &eddsa.Signature{R: *sim.FromEnc(big.NewInt(o)), S: *sim.Sc(big.NewInt(o))}
		ws.ToEd25519()
		ws.MarshalBinary()
		was.Verify(nil, ws)
		c.Check(ws.UnmarshalBinary(sim.Cat(enc, ref.LE(big.NewInt(3)))) == nil, "binary form is refused by a signature in use")
		chk("nonce of a signature in use before", ws.ToEd25519()[:32])
		c.Check(bytes.Equal(ws.ToEd25519()[32:], ref.LE(big.NewInt(3))), "response of a signature in use before")
		ws.R.Set(sim.FromEnc(big.NewInt(o)))
		ws.S.Set(sim.Sc(big.NewInt(4)))
		c.Check(bytes.Equal(ws.ToEd25519(), sim.Cat(ref.BaseMul(big.NewInt(o)).EncodeEd(), ref.LE(big.NewInt(4)))), "the form of a signature whose fields were set")
	}
	// the key is a copy
	keep := new(ristretto.Element).Set(r.E)
	r.E.Add(r.E, ristretto.NewGeneratorElement())
	chk("key after the element was changed", pk.ToEd25519())
	r.E.Set(keep)
	for _, other := range []int64{0, 1, 77} {
		d := big.NewInt(other)
		pk3 := eddsa.NewPublicKeyFromPoint(sim.FromEnc(ref.Add(r.K, d)))
		c.Check(pk.Equal(pk3) == (other == 0), "Equal of keys differing by %d", other)
	}
	for _, s := range []*big.Int{big.NewInt(0), big.NewInt(1), ref.Sub(big.NewInt(0), big.NewInt(1)), sim.RandScalar("sig")} {
		sig := &eddsa.Signature{R: *r.E, S: *sim.Sc(s)}
		chk("nonce", sig.ToEd25519()[:32])
		c.Check(len(sig.ToEd25519()) == 64 && bytes.Equal(sig.ToEd25519()[32:], ref.LE(s)), "the response in the Ed25519 form is %x, want %x", sig.ToEd25519()[32:], ref.LE(s))
		bin, err := sig.MarshalBinary()
		c.Check(err == nil && bytes.Equal(bin, sim.Cat(enc, ref.LE(s))), "binary form %x, %v", bin, err)
		var sig2 eddsa.Signature
		c.Check(sig2.UnmarshalBinary(bin) == nil, "binary form is refused")
		chk("nonce through bytes", sig2.ToEd25519()[:32])
		c.Check(bytes.Equal(sig.ToEd25519(), sig2.ToEd25519()), "the Ed25519 form changes in transport")
	}
	for i, m := range [][]byte{nil, {}, {1}, rnd.Bytes("chal", 200)} {
		for _, a := range []*big.Int{big.NewInt(1), sim.RandScalar("chal")} {
			pa := eddsa.NewPublicKeyFromPoint(sim.FromEnc(a))
			got := eddsa.ComputeChallenge(r.E, pa, m)
			c.Check(sim.Big(got).Cmp(ref.Challenge(want, ref.BaseMul(a).EncodeEd(), m)) == 0, "challenge for nonce %s (%s), key %s, message %d is wrong", r.K, r.Name, a, i)
			got = eddsa.ComputeChallenge(sim.FromEnc(a), pk, m)
			c.Check(sim.Big(got).Cmp(ref.Challenge(ref.BaseMul(a).EncodeEd(), want, m)) == 0, "challenge for nonce %s, key %s (%s), message %d is wrong", a, r.K, r.Name, i)
		}
	}
	if r.Name == "decoded" { // as key of a group
		coeffs := []*big.Int{r.K, sim.RandScalar("c1")}
		k := sim.DealCoeffs(party.IDSlice{1, 300, 65535}, coeffs)
		chk("group key interpolated from shares", k.Public.GroupKey.ToEd25519())
		js, err := json.Marshal(k.Public)
		c.Check(err == nil, "JSON: %v", err)
		var p2 eddsa.Public
		err = json.Unmarshal(js, &p2)
		c.Check(err == nil, "stored key data is refused: %v", err)
		chk("group key through stored key data", p2.GroupKey.ToEd25519())
	}
}

// verify compares the three verdicts for one key, nonce and message and all alterations.
func verify(c *lib.Ctx, k, r *big.Int, m []byte, keys, nonces []*big.Int, msgs [][]byte) {
	edK, edR := ref.BaseMul(k).EncodeEd(), ref.BaseMul(r).EncodeEd()
	ch := ref.Challenge(edR, edK, m)
	s := ref.Add(r, ref.Mul(ch, k))
	neg := func(x *big.Int) *big.Int { return ref.Sub(big.NewInt(0), x) }
	try := func(name string, kk, rr, ss *big.Int, mm []byte, rep int) {
		pe, re := sim.Reps(kk), sim.Reps(rr)
		a, b := pe[rep%len(pe)], re[(rep*3+rep/len(pe))%len(re)]
		pk := eddsa.NewPublicKeyFromPoint(a.E)
		sig := &eddsa.Signature{R: *b.E, S: *sim.Sc(ss)}
		e1, e2 := ref.BaseMul(kk).EncodeEd(), ref.BaseMul(rr).EncodeEd()
		cc := ref.Challenge(e2, e1, mm)
		want := ref.Add(rr, ref.Mul(cc, kk)).Cmp(ref.Mod(ss)) == 0
		keep := append([]byte(nil), mm...)
		got := pk.Verify(mm, sig)
		std := ed25519.Verify(ed25519.PublicKey(pk.ToEd25519()), mm, sig.ToEd25519())
		c.Check(got == want && std == want, "%s: key %s (%s), nonce %s (%s), response %s, message of %d bytes: the library says %v, standard Ed25519 %v, the equation %v", name, kk, a.Name, rr, b.Name, ss, len(mm), got, std, want)
		c.Check(bytes.Equal(keep, mm) && bytes.Equal(sig.S.Bytes(), ref.LE(ref.Mod(ss))) && bytes.Equal(sig.R.Bytes(), sim.BaseEnc(rr)) && bytes.Equal(pk.ToEd25519(), e1), "verifying changes its inputs")
		c.Eval(1)
		if want {
			c.Note("valid", 1)
		} else {
			c.Note("invalid", 1)
		}
	}
	n := len(sim.Reps(k))
	for rep := 0; rep < n*c.Pick(1, n); rep++ {
		try("valid", k, r, s, m, rep)
	}
	one := big.NewInt(1)
	for i, x := range []*big.Int{ref.Add(s, one), ref.Sub(s, one), neg(s), big.NewInt(0), one, r, k, ch, ref.Add(s, new(big.Int).Lsh(one, 251)), ref.Mul(s, big.NewInt(8)), ref.Add(ref.Mul(ch, k), neg(r)), ref.Add(r, neg(ref.Mul(ch, k)))} {
		try("response changed", k, r, x, m, i)
	}
	for i, x := range keys {
		try("key changed", x, r, s, m, i)
	}
	for i, x := range nonces {
		try("nonce changed", k, x, s, m, i)
		try("nonce changed, response follows", k, x, ref.Add(x, ref.Mul(ch, k)), m, i)
	}
	try("key negated", neg(k), r, s, m, 1)
	try("nonce negated", k, neg(r), s, m, 2)
	try("both negated", neg(k), neg(r), s, m, 3)
	for i, mm := range msgs {
		try("message changed", k, r, s, mm, i)
	}
	if len(m) > 0 {
		for _, at := range []int{0, len(m) / 2, len(m) - 1} {
			mm := append([]byte(nil), m...)
			mm[at] ^= 1
			try("message bit flipped", k, r, s, mm, at)
		}
		try("message shortened", k, r, s, m[:len(m)-1], 4)
	}
	try("message extended", k, r, s, append(append([]byte(nil), m...), 0), 5)
	for i, cc := range []*big.Int{
		ref.Challenge(sim.BaseEnc(r), sim.BaseEnc(k), m), ref.Challenge(edK, edR, m), ref.Challenge(edR, edK, nil), ref.Challenge(edR, nil, m), ref.Challenge(nil, edK, m), big.NewInt(0)} {
		try("challenge for other inputs", k, r, ref.Add(r, ref.Mul(cc, k)), m, i)
	}
}

// standard makes keys and signatures with crypto/ed25519 and verifies the same values here.
func standard(c *lib.Ctx, i int) {
	priv := ed25519.NewKeyFromSeed(rnd.Bytes(fmt.Sprintf("seed/%d", i), 32))
	pub := priv.Public().(ed25519.PublicKey)
	k := secretOf(priv)
	c.Check(bytes.Equal(ref.BaseMul(k).EncodeEd(), pub), "oracle: the secret of a standard key")
	var e ristretto.Element
	e.ScalarBaseMult(sim.Sc(k))
	pk := eddsa.NewPublicKeyFromPoint(&e)
	c.Check(bytes.Equal(pk.ToEd25519(), pub), "the public key of a standard key has Ed25519 form %x, want %x", pk.ToEd25519(), pub)
	for _, n := range []int{0, 1, 100} {
		m := rnd.Bytes("std", n)
		std := ed25519.Sign(priv, m)
		// the nonce of the standard signature: R = s - ck
		s := ref.FromLE(std[32:])
		r := ref.Sub(s, ref.Mul(ref.Challenge(std[:32], pub, m), k))
		sig := &eddsa.Signature{R: *sim.FromEnc(r), S: *sim.Sc(s)}
		c.Check(bytes.Equal(sig.ToEd25519(), std), "a standard signature, rebuilt, has Ed25519 form %x, want %x", sig.ToEd25519(), std)
		c.Check(pk.Verify(m, sig), "the library rejects a standard signature")
		c.Check(!pk.Verify(append(m, 1), sig), "the library accepts a standard signature for another message")
		c.Eval(2)
	}
}

func secretOf(priv ed25519.PrivateKey) *big.Int {
	h := sha512.Sum512(priv.Seed())
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	return ref.Mod(ref.FromLE(h[:32]))
}
