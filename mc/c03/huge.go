//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

// huge runs one real party in a key generation among n; the others' messages are made directly.
func huge(c *lib.Ctx, ids party.IDSlice, self party.ID, t int) {
	n := len(ids)
	name := fmt.Sprintf("key generation among %d with t=%d, party %d", n, t, self)
	s, err := sim.NewKeygen(self, ids, party.Size(t), 0, rnd.New(name))
	c.Check(err == nil, "%s: %v", name, err)
	first := s.Process()
	c.Check(len(first) == 1, "%s: no commitment", name)
	rnd.Use(rnd.New(name + " others"))
	defer rnd.Use(nil)
	coeff := make([]*big.Int, t+1) // sums of the others' coefficients
	for k := range coeff {
		coeff[k] = big.NewInt(0)
	}
	share := map[party.ID]*big.Int{}
	for _, id := range ids {
		if id == self {
			continue
		}
		own := make([]*big.Int, t+1)
		for k := range own {
			own[k] = sim.RandScalar(fmt.Sprint(name, id, k))
			coeff[k] = ref.Add(coeff[k], own[k])
		}
		share[id] = ref.Eval(own, big.NewInt(int64(self)))
		// the committed polynomial as it comes over the wire
		enc := []byte{byte(t >> 8), byte(t)}
		for k := range own {
			var e ristretto.Element
			enc = append(enc, e.ScalarBaseMult(sim.Sc(own[k])).Bytes()...)
		}
		var com polynomial.Exponent
		if err := com.UnmarshalBinary(enc); err != nil {
			panic(err)
		}
		proof := zk.NewSchnorrProof(id, com.Constant(), make([]byte, 32), sim.Sc(own[0]))
		b, err := messages.NewKeyGen1(id, proof, &com).MarshalBinary()
		if err != nil {
			panic(err)
		}
		c.Check(s.Handle(b) == nil, "%s: commitment of party %d is refused", name, id)
	}
	second := s.Process()
	c.Check(len(second) == n-1, "%s: %d shares sent: %v", name, len(second), s.St.Err())
	// this party's polynomial from its shares, checked against its commitment
	vals := map[uint16]*big.Int{}
	for _, b := range second[:t+1] {
		vals[uint16(sim.To(b))] = ref.FromLE(b[5:37])
	}
	c.Check(bytes.Equal(ref.BaseMul(ref.Interpolate0(vals)).EncodeRistretto(), sim.Commitments(first[0])[0]), "%s: the shares sent do not belong to the commitment", name)
	for _, id := range ids {
		if id != self {
			c.Check(s.Handle(sim.MakeK2(id, self, share[id])) == nil, "%s: share of party %d is refused", name, id)
		}
	}
	s.Process()
	c.Check(s.St.IsFinished() && s.St.Err() == nil, "%s: does not end with success: %v", name, s.St.Err())
	pub := s.KG.Public
	c.Check(int(pub.Threshold) == t && pub.PartyIDs.Equal(ids) && len(pub.Shares) == n, "%s: public data of %d parties, t=%d", name, len(pub.Shares), pub.Threshold)
	group := sim.Pt(sim.Commitments(first[0])[0]).Add(ref.BaseMul(coeff[0])).Clean().EncodeEd()
	c.Check(bytes.Equal(pub.GroupKey.ToEd25519(), group), "%s: the group key is not the sum of the contributions", name)
	// every public share: the others' sum at the identifier plus this party's share for it
	for _, b := range second {
		id := sim.To(b)
		want := ref.Add(ref.FromLE(b[5:37]), ref.Eval(coeff, big.NewInt(int64(id))))
		var e ristretto.Element
		e.ScalarBaseMult(sim.Sc(want))
		c.Check(e.Equal(pub.Shares[id]) == 1, "%s: wrong public share of party %d", name, id)
	}
	var e ristretto.Element
	e.ScalarBaseMult(&s.KG.SecretKey.Secret)
	c.Check(e.Equal(pub.Shares[self]) == 1, "%s: the secret share does not match the public share", name)
	c.Eval(n)
	c.Trace(1)
	c.Distinct(name)
}
