//go:build go1.21

package sim

import (
	"crypto/ed25519"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
)

// RefParty plays one participant from the description of the protocol alone, in reference arithmetic: it
// shares no code with the library. It refuses whatever does not follow the description.
type RefParty struct {
	ID     party.ID
	IDs    party.IDSlice
	Keygen bool
	T      int

	poly []*big.Int // key generation

	d, e  *big.Int // signing
	Share *big.Int
	Pub   map[party.ID][]byte
	Group []byte // Ed25519 encoding
	Text  []byte

	first, second map[party.ID][]byte
	step          int
	view          *View

	// Done is set when the results are there: Pub, GroupEnc and Share of key generation, SigR and SigS of
	// signing.
	Done       bool
	GroupEnc   []byte
	SigR, SigS []byte
	SigEd      []byte // Ed25519 form
}

// RefKeygen makes a participant of key generation.
func RefKeygen(id party.ID, ids party.IDSlice, t int, label string) *RefParty {
	p := &RefParty{ID: id, IDs: ids, Keygen: true, T: t, first: map[party.ID][]byte{}, second: map[party.ID][]byte{}}
	for i := 0; i <= t; i++ {
		p.poly = append(p.poly, RandScalar(fmt.Sprintf("ref/%s/%d/%d", label, id, i)))
	}
	return p
}

// RefSign makes a signer.
func RefSign(id party.ID, signers party.IDSlice, share *big.Int, pub map[party.ID][]byte, group, text []byte, label string) *RefParty {
	return &RefParty{ID: id, IDs: signers, Share: share, Pub: pub, Group: group, Text: text, first: map[party.ID][]byte{}, second: map[party.ID][]byte{},
		d: RandScalar(fmt.Sprintf("ref/%s/%d/d", label, id)), e: RandScalar(fmt.Sprintf("ref/%s/%d/e", label, id))}
}

// Handle takes a message another participant sent.
func (p *RefParty) Handle(b []byte) error {
	first, second := S1, S2
	if p.Keygen {
		first, second = K1, K2
	}
	if len(b) < 5 {
		return fmt.Errorf("a message of %d bytes", len(b))
	}
	from, want := From(b), 0
	if from == p.ID || (To(b) != 0 && To(b) != p.ID) {
		return nil
	}
	member := false
	for _, id := range p.IDs {
		member = member || id == from
	}
	if !member {
		return fmt.Errorf("a message from %d", from)
	}
	where := p.first
	switch Typ(b) {
	case first:
		want = 5 + 64
		if p.Keygen {
			want = 5 + 64 + 2 + 32*(p.T+1)
		}
	case second:
		where, want = p.second, 5+32
	default:
		return fmt.Errorf("a message of kind %d", Typ(b))
	}
	if len(b) != want {
		return fmt.Errorf("a message of kind %d with %d bytes instead of %d", Typ(b), len(b), want)
	}
	if where[from] != nil {
		return fmt.Errorf("a second message of kind %d from %d", Typ(b), from)
	}
	if (Typ(b) == K2) != (To(b) == p.ID) {
		return fmt.Errorf("a message of kind %d is addressed to %d", Typ(b), To(b))
	}
	if Typ(b) != K1 && Typ(b) != S1 && ref.FromLE(b[5:37]).Cmp(ref.Q) >= 0 {
		return fmt.Errorf("a scalar of a message of kind %d is not reduced", Typ(b))
	}
	if Typ(b) == S1 {
		for _, x := range [][]byte{b[5:37], b[37:69]} {
			if _, ok := ref.DecodeRistretto(x); !ok || string(x) == string(idEnc) {
				return fmt.Errorf("invalid commitment %x", x)
			}
		}
	}
	if Typ(b) == K1 {
		if d := int(b[69])<<8 | int(b[70]); d != p.T {
			return fmt.Errorf("commitments of degree %d", d)
		}
		for _, x := range Commitments(b) {
			if _, ok := ref.DecodeRistretto(x); !ok {
				return fmt.Errorf("invalid commitment %x", x)
			}
		}
		if JudgeK1(party.Size(p.T), b) {
			return fmt.Errorf("the proof of knowledge from %d does not verify", from)
		}
	}
	where[from] = b
	return nil
}

// Process returns what is to be sent next, if anything.
func (p *RefParty) Process() ([][]byte, error) {
	var out [][]byte
	if p.step == 0 {
		p.step = 1
		if p.Keygen {
			p.first[p.ID] = MakeK1(p.ID, p.ID, p.poly)
		} else {
			p.first[p.ID] = MakeS1(p.ID, BaseEnc(p.d), BaseEnc(p.e))
		}
		out = append(out, p.first[p.ID])
	}
	if p.step == 1 && len(p.first) == len(p.IDs) {
		p.step = 2
		for _, id := range p.IDs {
			switch {
			case p.Keygen && id == p.ID:
				p.second[id] = MakeK2(id, id, ref.Eval(p.poly, ref.Int(int64(id))))
			case p.Keygen:
				out = append(out, MakeK2(p.ID, id, ref.Eval(p.poly, ref.Int(int64(id)))))
			}
		}
		if !p.Keygen {
			p.view = &View{IDs: p.IDs, Msg: p.Text, Group: p.Group, S1: p.first, Pub: p.Pub}
			p.second[p.ID] = MakeS2(p.ID, p.view.Share(p.ID, p.d, p.e, p.Share))
			out = append(out, p.second[p.ID])
		}
	}
	if p.step == 2 && len(p.second) == len(p.IDs) {
		p.step = 3
		return out, p.finish()
	}
	return out, nil
}

func (p *RefParty) finish() error {
	sum := new(big.Int)
	for _, id := range p.IDs {
		if id != p.ID {
			if p.Keygen && JudgeK2(p.ID, p.first[id], p.second[id]) {
				return fmt.Errorf("the share from %d does not fit its commitments", id)
			}
			if !p.Keygen && p.view.JudgeS2(p.second[id]) {
				return fmt.Errorf("the signature share from %d is wrong", id)
			}
		}
		sum = ref.Add(sum, ref.FromLE(p.second[id][5:37]))
	}
	p.Done = true
	if !p.Keygen {
		p.SigR, p.SigS = p.view.R.EncodeRistretto(), ref.LE(sum)
		p.SigEd = Cat(p.view.R.Clean().EncodeEd(), p.SigS)
		if !ed25519.Verify(p.Group, p.Text, p.SigEd) {
			return fmt.Errorf("the signature does not verify")
		}
		return nil
	}
	p.Share = sum
	var coeffs [][]byte
	for k := 0; k <= p.T; k++ {
		var parts [][]byte
		for _, id := range p.IDs {
			parts = append(parts, Commitments(p.first[id])[k])
		}
		coeffs = append(coeffs, AddEnc(parts...))
	}
	p.Pub = map[party.ID][]byte{}
	for _, id := range p.IDs {
		p.Pub[id] = EvalEnc(coeffs, uint16(id))
	}
	p.GroupEnc = coeffs[0]
	p.Group = Pt(coeffs[0]).Clean().EncodeEd()
	return nil
}
