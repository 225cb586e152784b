//go:build go1.21

// Package sim closes the system: parties with their own deterministic randomness, their messages as
// bytes, menus of honest, faulty and stray messages, a reference model of one session and an
// explicit-state explorer over the real implementation.
package sim

import (
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
)

// Keys is a key shared by a reference dealer.
type Keys struct {
	IDs    party.IDSlice
	T      party.Size
	Coeffs []*big.Int // Coeffs[0] is the group secret
	Public *eddsa.Public
	Secret map[party.ID]*eddsa.SecretShare
	Share  map[party.ID]*big.Int
}

// U converts identifiers for the reference package.
func U(ids []party.ID) []uint16 {
	out := make([]uint16, len(ids))
	for i, id := range ids {
		out[i] = uint16(id)
	}
	return out
}

// Sc makes a library scalar.
func Sc(x *big.Int) *ristretto.Scalar {
	s, err := ristretto.NewScalar().SetCanonicalBytes(ref.LE(ref.Mod(x)))
	if err != nil {
		panic(err)
	}
	return s
}

// Big reads a library scalar.
func Big(s *ristretto.Scalar) *big.Int { return ref.FromLE(s.Bytes()) }

// RandScalar derives a scalar from a label.
func RandScalar(label string) *big.Int { return ref.Wide(rnd.Bytes(label, 64)) }

// Deal shares a key.
func Deal(ids []party.ID, t int, label string) *Keys {
	var coeffs []*big.Int
	for i := 0; i <= t; i++ {
		coeffs = append(coeffs, RandScalar(fmt.Sprintf("deal/%s/%d", label, i)))
	}
	return DealCoeffs(ids, coeffs)
}

// DealCoeffs shares a key with a given polynomial.
func DealCoeffs(ids []party.ID, coeffs []*big.Int) *Keys {
	k := &Keys{IDs: party.NewIDSlice(ids), T: party.Size(len(coeffs) - 1), Coeffs: coeffs,
		Secret: map[party.ID]*eddsa.SecretShare{}, Share: map[party.ID]*big.Int{}}
	pub := map[party.ID]*ristretto.Element{}
	for _, id := range ids {
		x := ref.Eval(coeffs, ref.Int(int64(id)))
		k.Share[id] = x
		k.Secret[id] = eddsa.NewSecretShare(id, Sc(x))
		var e ristretto.Element
		if _, err := e.SetCanonicalBytes(ref.BaseMul(x).EncodeRistretto()); err != nil {
			panic(err)
		}
		pub[id] = &e
	}
	p, err := eddsa.NewPublic(pub, k.T)
	if err != nil {
		panic(err)
	}
	k.Public = p
	return k
}

// Sess is one party's session.
type Sess struct {
	ID  party.ID
	St  *state.State
	KG  *keygen.Output
	SG  *sign.Output
	Rnd *rnd.Stream
}

// NewKeygen creates a key generation session.
func NewKeygen(self party.ID, ids party.IDSlice, t party.Size, timeout time.Duration, r *rnd.Stream) (*Sess, error) {
	rnd.Use(r)
	st, out, err := frost.NewKeygenState(self, ids, t, timeout)
	rnd.Use(nil)
	if err != nil {
		return nil, err
	}
	return &Sess{ID: self, St: st, KG: out, Rnd: r}, nil
}

// NewSign creates a signing session.
func NewSign(ids party.IDSlice, sec *eddsa.SecretShare, pub *eddsa.Public, msg []byte, timeout time.Duration, r *rnd.Stream) (*Sess, error) {
	rnd.Use(r)
	st, out, err := frost.NewSignState(ids, sec, pub, msg, timeout)
	rnd.Use(nil)
	if err != nil {
		return nil, err
	}
	return &Sess{ID: sec.ID, St: st, SG: out, Rnd: r}, nil
}

// ProcessMsgs runs ProcessAll with the party's randomness.
func (s *Sess) ProcessMsgs() []*messages.Message {
	rnd.Use(s.Rnd)
	defer rnd.Use(nil)
	return s.St.ProcessAll()
}

// Process runs ProcessAll and encodes what it returns.
func (s *Sess) Process() [][]byte { return Encode(s.ProcessMsgs()) }

// Encode encodes messages.
func Encode(ms []*messages.Message) [][]byte {
	var out [][]byte
	for _, m := range ms {
		b, err := m.MarshalBinary()
		if err != nil {
			panic(fmt.Sprintf("a message returned by a session cannot be encoded: %v", err))
		}
		out = append(out, b)
	}
	return out
}

// Decode decodes one message.
func Decode(b []byte) (*messages.Message, error) {
	var m messages.Message
	if err := m.UnmarshalBinary(b); err != nil {
		return nil, err
	}
	return &m, nil
}

// Handle decodes and hands over a message.
func (s *Sess) Handle(b []byte) error {
	m, err := Decode(append([]byte(nil), b...))
	if err != nil {
		return err
	}
	rnd.Use(s.Rnd)
	defer rnd.Use(nil)
	return s.St.HandleMessage(m)
}

// DoneClosed reports whether the completion signal is set.
func (s *Sess) DoneClosed() bool {
	select {
	case <-s.St.Done():
		return true
	default:
		return false
	}
}

// OutKey renders the outputs of the session canonically ("" if there are none).
func (s *Sess) OutKey() string {
	if s.KG != nil {
		if s.KG.Public == nil && s.KG.SecretKey == nil {
			return ""
		}
		if s.KG.Public == nil || s.KG.SecretKey == nil {
			return "partial"
		}
		return KeygenKey(s.KG)
	}
	if s.SG == nil || s.SG.Signature == nil {
		return ""
	}
	return fmt.Sprintf("sig %x %x", s.SG.Signature.R.Bytes(), s.SG.Signature.S.Bytes())
}

// KeygenKey renders the output of key generation.
func KeygenKey(o *keygen.Output) string {
	return PublicKey(o.Public) + fmt.Sprintf(" secret id=%d s=%x p=%x", o.SecretKey.ID, o.SecretKey.Secret.Bytes(), o.SecretKey.Public.Bytes())
}

// PublicKey renders public data.
func PublicKey(p *eddsa.Public) string {
	s := fmt.Sprintf("ids=%v t=%d group=%x", p.PartyIDs, p.Threshold, []byte(p.GroupKey.ToEd25519()))
	var ids []int
	for id := range p.Shares {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		if p.Shares[party.ID(id)] == nil {
			s += fmt.Sprintf(" %d=nil", id)
			continue
		}
		s += fmt.Sprintf(" %d=%x", id, p.Shares[party.ID(id)].Bytes())
	}
	return s
}

// Header fields of an encoded message.
func Typ(b []byte) int       { return int(b[0]) }
func From(b []byte) party.ID { return party.ID(b[1])<<8 | party.ID(b[2]) }
func To(b []byte) party.ID   { return party.ID(b[3])<<8 | party.ID(b[4]) }

// Head makes an encoded header.
func Head(typ int, from, to party.ID) []byte {
	return []byte{byte(typ), byte(from >> 8), byte(from), byte(to >> 8), byte(to)}
}

// Cat concatenates.
func Cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// Message kinds.
const (
	K1 = 1
	K2 = 2
	S1 = 3
	S2 = 4
)

// Run is a complete lockstep run.
type Run struct {
	IDs   party.IDSlice
	Sess  map[party.ID]*Sess
	Sent  map[party.ID][][][]byte // by party: messages of step 0, 1, 2
	Bad   error
	Group *Keys
}

// Lockstep runs sessions to the end in rounds; every party receives every message through bytes.
func Lockstep(ids party.IDSlice, sess map[party.ID]*Sess) (*Run, error) {
	r := &Run{IDs: ids, Sess: sess, Sent: map[party.ID][][][]byte{}}
	var pending [][]byte
	for step := 0; step < 3; step++ {
		var next [][]byte
		for _, id := range ids {
			for _, m := range pending {
				if From(m) == id || (To(m) != 0 && To(m) != id) {
					continue
				}
				if err := sess[id].Handle(m); err != nil {
					return r, fmt.Errorf("party %d refuses message kind %d from %d in step %d: %v", id, Typ(m), From(m), step, err)
				}
			}
			out := sess[id].Process()
			r.Sent[id] = append(r.Sent[id], out)
			next = append(next, out...)
		}
		pending = next
	}
	for _, id := range ids {
		if !sess[id].St.IsFinished() || !sess[id].DoneClosed() {
			return r, fmt.Errorf("party %d is not finished after all messages were delivered and processed", id)
		}
		if err := sess[id].St.WaitForError(); err != nil {
			return r, fmt.Errorf("party %d ended with error: %v", id, err)
		}
		if sess[id].OutKey() == "" || sess[id].OutKey() == "partial" {
			return r, fmt.Errorf("party %d finished without output", id)
		}
	}
	return r, nil
}

// RunKeygen runs key generation among ids.
func RunKeygen(ids []party.ID, t int, label string) (*Run, error) {
	set := party.NewIDSlice(ids)
	sess := map[party.ID]*Sess{}
	for _, id := range set {
		s, err := NewKeygen(id, set, party.Size(t), 0, rnd.New(fmt.Sprintf("kg/%s/%d", label, id)))
		if err != nil {
			return nil, err
		}
		sess[id] = s
	}
	return Lockstep(set, sess)
}

// RunSign runs signing.
func RunSign(signers []party.ID, pub *eddsa.Public, sec map[party.ID]*eddsa.SecretShare, msg []byte, label string) (*Run, error) {
	set := party.NewIDSlice(signers)
	sess := map[party.ID]*Sess{}
	for _, id := range set {
		s, err := NewSign(set, sec[id], pub, msg, 0, rnd.New(fmt.Sprintf("sg/%s/%d", label, id)))
		if err != nil {
			return nil, err
		}
		sess[id] = s
	}
	return Lockstep(set, sess)
}
