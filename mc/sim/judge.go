//go:build go1.21

package sim

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"
	"sync"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
)

// The judge decides from the bytes of the accepted messages alone, with reference arithmetic,
// whether a message is invalid in the sense of the protocol.

var (
	memoMu sync.Mutex
	memo   = map[[32]byte]interface{}{}
)

func memoize(f func() interface{}, parts ...[]byte) interface{} {
	h := sha256.New()
	for _, p := range parts {
		h.Write([]byte{byte(len(p)), byte(len(p) >> 8), byte(len(p) >> 16)})
		h.Write(p)
	}
	var k [32]byte
	copy(k[:], h.Sum(nil))
	memoMu.Lock()
	v, ok := memo[k]
	memoMu.Unlock()
	if ok {
		return v
	}
	v = f()
	memoMu.Lock()
	memo[k] = v
	memoMu.Unlock()
	return v
}

// Pt decodes a ristretto encoding known to be valid.
func Pt(b []byte) ref.Point {
	return memoize(func() interface{} {
		p, ok := ref.DecodeRistretto(b)
		if !ok {
			panic(fmt.Sprintf("judge: invalid point %x", b))
		}
		return p
	}, []byte("pt"), b).(ref.Point)
}

// MulEnc returns the encoding of k times the point.
func MulEnc(k *big.Int, enc []byte) []byte {
	return memoize(func() interface{} { return Pt(enc).Mul(k).EncodeRistretto() }, []byte("mul"), ref.LE(k), enc).([]byte)
}

// BaseEnc returns the encoding of k times the base point.
func BaseEnc(k *big.Int) []byte {
	k = ref.Mod(k)
	return memoize(func() interface{} { return ref.BaseMul(k).EncodeRistretto() }, []byte("base"), ref.LE(k)).([]byte)
}

// AddEnc adds encodings.
func AddEnc(ps ...[]byte) []byte {
	return memoize(func() interface{} {
		r := ref.Identity()
		for _, p := range ps {
			r = r.Add(Pt(p))
		}
		return r.EncodeRistretto()
	}, append([][]byte{[]byte("add")}, ps...)...).([]byte)
}

// EvalEnc evaluates a committed polynomial.
func EvalEnc(coeffs [][]byte, x uint16) []byte {
	return memoize(func() interface{} {
		r := ref.Identity()
		pw := big.NewInt(1)
		for _, c := range coeffs {
			r = r.Add(Pt(c).Mul(pw))
			pw = ref.Mul(pw, ref.Int(int64(x)))
		}
		return r.EncodeRistretto()
	}, append([][]byte{[]byte("eval"), {byte(x), byte(x >> 8)}}, coeffs...)...).([]byte)
}

// Commitments returns the coefficient encodings of an encoded KeyGen1 message.
func Commitments(k1 []byte) [][]byte {
	var out [][]byte
	for b := k1[5+64+2:]; len(b) >= 32; b = b[32:] {
		out = append(out, b[:32])
	}
	return out
}

// ProofOK verifies the proof in an encoded KeyGen1 message for the given identifier.
func ProofOK(id party.ID, k1 []byte) bool {
	return memoize(func() interface{} {
		S, R := ref.FromLE(k1[5:37]), ref.FromLE(k1[37:69])
		A := Commitments(k1)[0]
		M := ref.BaseMul(R).Add(Pt(A).Mul(S).Neg()).EncodeRistretto()
		return S.Cmp(ref.ZKChallenge(uint16(id), make([]byte, 32), A, M)) == 0
	}, []byte("proof"), []byte{byte(id), byte(id >> 8)}, k1).(bool)
}

// JudgeK1 reports whether a KeyGen1 message is invalid.
func JudgeK1(t party.Size, k1 []byte) bool {
	return len(Commitments(k1)) != int(t)+1 || !ProofOK(From(k1), k1)
}

// JudgeK2 reports whether a share is inconsistent with the commitments of its sender.
func JudgeK2(self party.ID, k1, k2 []byte) bool {
	return string(BaseEnc(ref.FromLE(k2[5:37]))) != string(EvalEnc(Commitments(k1), uint16(self)))
}

var idEnc = make([]byte, 32)

// JudgeS1 reports whether a commitment is the identity.
func JudgeS1(s1 []byte) bool {
	return string(s1[5:37]) == string(idEnc) || string(s1[37:69]) == string(idEnc)
}

// View is what one signer knows after the first round.
type View struct {
	IDs   []party.ID
	Msg   []byte
	Group []byte              // Ed25519 encoding of the group key
	S1    map[party.ID][]byte // encoded first-round messages, own included
	Pub   map[party.ID][]byte // encodings of the public shares (not multiplied)
	rho   map[party.ID]*big.Int
	R     ref.Point
	C     *big.Int
	ready bool
}

func (v *View) prepare() {
	if v.ready {
		return
	}
	ids := append([]party.ID(nil), v.IDs...)
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var list []byte
	for _, id := range ids {
		list = append(list, byte(id>>8), byte(id))
		list = append(list, v.S1[id][5:69]...)
	}
	v.rho = map[party.ID]*big.Int{}
	v.R = ref.Identity()
	for _, id := range ids {
		v.rho[id] = ref.Binding(uint16(id), v.Msg, list)
		v.R = v.R.Add(Pt(v.S1[id][5:37])).Add(Pt(MulEnc(v.rho[id], v.S1[id][37:69])))
	}
	v.C = ref.Challenge(v.R.Clean().EncodeEd(), v.Group, v.Msg)
	v.ready = true
}

// Rho returns the binding factor of a signer.
func (v *View) Rho(id party.ID) *big.Int { v.prepare(); return v.rho[id] }

// Chal returns the challenge.
func (v *View) Chal() *big.Int { v.prepare(); return v.C }

// JudgeS2 reports whether a signature share is invalid in this view.
func (v *View) JudgeS2(s2 []byte) bool {
	v.prepare()
	id := From(s2)
	lam := ref.Lagrange(uint16(id), U(v.IDs))
	want := AddEnc(v.S1[id][5:37], MulEnc(v.rho[id], v.S1[id][37:69]), MulEnc(ref.Mul(v.C, lam), v.Pub[id]))
	return string(BaseEnc(ref.FromLE(s2[5:37]))) != string(want)
}

// Share computes the correct signature share of a signer from its secrets.
func (v *View) Share(id party.ID, d, e, secret *big.Int) *big.Int {
	v.prepare()
	lam := ref.Lagrange(uint16(id), U(v.IDs))
	return ref.Add(ref.Add(d, ref.Mul(e, v.rho[id])), ref.Mul(ref.Mul(lam, secret), v.C))
}
