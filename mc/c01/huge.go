//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

// chain returns the encodings of (k + step*i)B for i = 0..n-1.
func chain(k, step *big.Int, n int) [][]byte {
	p, s := ref.BaseMul(k), ref.BaseMul(step)
	out := make([][]byte, n)
	for i := range out {
		out[i] = p.EncodeRistretto()
		p = p.Add(s)
	}
	return out
}

// huge runs one real session in a signing among n parties; all others are played by the reference.
func huge(c *lib.Ctx, ids party.IDSlice, self party.ID) {
	n := len(ids)
	name := fmt.Sprintf("%d signers, party %d", n, self)
	a0, a1 := sim.RandScalar("huge a0"), sim.RandScalar("huge a1")
	secret := func(id party.ID) *big.Int { return ref.Eval([]*big.Int{a0, a1}, big.NewInt(int64(id))) }
	d0, e0 := sim.RandScalar("huge d"), sim.RandScalar("huge e")
	D, E := chain(d0, ref.Int(1), n), chain(e0, ref.Int(1), n)
	pub := &eddsa.Public{PartyIDs: ids.Copy(), Threshold: 1, Shares: map[party.ID]*ristretto.Element{}, GroupKey: eddsa.NewPublicKeyFromPoint(sim.FromEnc(a0))}
	all := chain(a0, a1, int(ids[n-1])+1)
	for _, id := range ids {
		var e ristretto.Element
		if _, err := e.SetCanonicalBytes(all[id]); err != nil {
			panic(err)
		}
		pub.Shares[id] = &e
	}
	text := []byte("huge")
	s, err := sim.NewSign(ids, eddsa.NewSecretShare(self, sim.Sc(secret(self))), pub, text, 0, rnd.New(name))
	c.Check(err == nil, "%s: %v", name, err)
	first := s.Process()
	c.Check(len(first) == 1, "%s: no commitment", name)
	me := -1
	for i, id := range ids {
		if id == self {
			me = i
			D[i], E[i] = first[0][5:37], first[0][37:69]
			continue
		}
		c.Check(s.Handle(sim.MakeS1(id, D[i], E[i])) == nil, "%s: commitment of party %d is refused", name, id)
	}
	var list []byte
	for i, id := range ids {
		list = append(list, byte(id>>8), byte(id))
		list = append(append(list, D[i]...), E[i]...)
	}
	second := s.Process()
	c.Check(len(second) == 1, "%s: no share after all commitments: %v", name, s.St.Err())
	// R: of all but this party from the scalars, its own from the points
	sum := big.NewInt(0)
	rho := make([]*big.Int, n)
	for i, id := range ids {
		rho[i] = ref.Binding(uint16(id), text, list)
		if i != me {
			sum = ref.Add(sum, ref.Add(ref.Add(d0, ref.Int(int64(i))), ref.Mul(rho[i], ref.Add(e0, ref.Int(int64(i))))))
		}
	}
	R := sim.Pt(D[me]).Add(sim.Pt(E[me]).Mul(rho[me])).Add(ref.BaseMul(sum)).Clean()
	key := ref.BaseMul(a0).EncodeEd()
	ch := ref.Challenge(R.EncodeEd(), key, text)
	us := sim.U(ids)
	for i, id := range ids {
		if i == me {
			continue
		}
		z := ref.Add(ref.Add(d0, ref.Int(int64(i))), ref.Mul(rho[i], ref.Add(e0, ref.Int(int64(i)))))
		z = ref.Add(z, ref.Mul(ref.Mul(ref.Lagrange(uint16(id), us), secret(id)), ch))
		c.Check(s.Handle(sim.MakeS2(id, z)) == nil, "%s: share of party %d is refused", name, id)
	}
	s.Process()
	c.Check(s.St.IsFinished() && s.St.Err() == nil, "%s: does not end with success: %v", name, s.St.Err())
	c.Check(s.SG.Signature != nil, "%s: no signature", name)
	err = sim.CheckSig(pub, text, s.SG.Signature)
	c.Check(err == nil, "%s: %v", name, err)
	c.Check(bytes.Equal(pub.GroupKey.ToEd25519(), key), "%s: group key", name)
	c.Eval(1)
	c.Trace(1)
	c.Distinct(name)
}
