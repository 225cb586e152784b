//go:build go1.21

// C28: values can be read from any number of goroutines at once.
//
// Every operation of the library that only reads its operands is run together with every other on
// the same values (and on different values) under the controlled scheduler with the race detector on.
package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/scalar"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vclock"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vrt"
)

func main() {
	if s := os.Getenv("VERIF_C28_FIRST"); s != "" {
		firstUse(s)
		return
	}
	lib.Run(lib.Config{
		ID: "C28", Level: "model_checking",
		Rule:   "a case is a pair (or a triple) of operations that only read: verification, signing-side and verification-side derivations, comparisons, encodings, conversions, decodings into values of one's own, group and scalar arithmetic with results of one's own, identifiers and Lagrange coefficients, polynomials and their commitments, proofs, message construction, draws of randomness, creation of sessions, and whole key generations and signings. Each runs in a goroutine of its own, on the same freshly decoded values or on different ones; a depth-first search executes every schedule up to the preemption bound (operations on locks, atomics, channels, randomness and the return of a result are scheduling points) with the race detector on. Every result must be the one the operation gives alone, drawn secrets must be distinct, and no data race may be reported. The same in fresh processes whose first calls these are",
		Bounds: "quick: all pairs, on the same and on different values, and triples of one operation, 2 preemptions; first use of every operation by two goroutines in a process of its own; thorough: 3 preemptions, all triples with two of a kind, first use for all pairs",
		Assumptions: []string{
			"between two scheduling points a thread runs alone; this loses nothing as long as there are no data races, and data races are reported",
			"happens-before edges through pools of the standard library may hide a race between the calls that use them; the pools are emptied before calls that encode or decode JSON or text",
		},
		HangSeconds: 120,
	}, run)
}

// ---- the shared values

// raw is what the values are decoded from.
type raw struct {
	keys           *sim.Keys
	pub            []byte
	sec            map[party.ID][]byte
	sig            []byte
	msgs           [5][]byte
	a, b           []byte
	s, t           []byte
	wide           []byte
	text           []byte
	ids            party.IDSlice
	poly           []*big.Int
	proofS, proofR []byte
}

var raws [2]*raw

func makeRaw(i int) *raw {
	if raws[i] != nil {
		return raws[i]
	}
	label := fmt.Sprint("c28/", i)
	ids := [2]party.IDSlice{{1, 2, 258}, {3, 7, 65535}}[i]
	k := sim.Deal(ids, 1, label)
	r := &raw{keys: k, ids: ids, sec: map[party.ID][]byte{}, text: []byte("message " + label)}
	var err error
	if r.pub, err = json.Marshal(k.Public); err != nil {
		panic(err)
	}
	for _, id := range ids {
		if r.sec[id], err = k.Secret[id].MarshalJSON(); err != nil {
			panic(err)
		}
	}
	x, y := sim.RandScalar(label+"x"), sim.RandScalar(label+"y")
	r.a, r.b = sim.BaseEnc(x), sim.BaseEnc(y)
	r.s, r.t = ref.LE(x), ref.LE(y)
	R := sim.BaseEnc(y)
	ed := func(k *big.Int) []byte { return ref.BaseMul(k).EncodeEd() }
	ch := ref.Challenge(ed(y), ed(k.Coeffs[0]), r.text)
	z := ref.Add(y, ref.Mul(ch, k.Coeffs[0]))
	r.sig = append(append([]byte(nil), R...), ref.LE(z)...)
	r.poly = []*big.Int{x, y, ref.Add(x, y)}
	r.msgs[1] = sim.MakeK1(ids[0], ids[0], r.poly)
	r.msgs[2] = sim.MakeK2(ids[0], ids[1], x)
	r.msgs[3] = sim.MakeS1(ids[1], r.a, r.b)
	r.msgs[4] = sim.MakeS2(ids[2], y)
	r.wide = rnd.Bytes(label+"wide", 64)
	raws[i] = r
	return r
}

// values are fresh values that the goroutines share.
type values struct {
	*raw
	pub, pub2 *eddsa.Public
	pk, pk2   *eddsa.PublicKey
	secs      map[party.ID]*eddsa.SecretShare
	sec, sec2 *eddsa.SecretShare
	sig, sig2 *eddsa.Signature
	e, f      *ristretto.Element
	s, t      *ristretto.Scalar
	es        []*ristretto.Element
	ss        []*ristretto.Scalar
	m, m2     [5]*messages.Message
	poly      *polynomial.Polynomial
	exp, exp2 *polynomial.Exponent
	proof     *zk.Schnorr
	ctx       []byte
	ids       party.IDSlice
	unsorted  []party.ID
	set       party.IDSlice
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// values decodes fresh values: k keys, q their equals, s signatures, m messages and committed
// polynomials, p a secret polynomial.
func (r *raw) values(need string) *values {
	v := &values{raw: r, secs: map[party.ID]*eddsa.SecretShare{}, ctx: make([]byte, 32)}
	v.e, v.f = el(r.a), el(r.b)
	v.s, v.t = sc(r.s), sc(r.t)
	v.es = []*ristretto.Element{v.e, v.f, v.e}
	v.ss = []*ristretto.Scalar{v.s, v.t, v.t}
	v.ids = r.ids.Copy()
	for _, what := range need {
		switch what {
		case 'k':
			v.pub = new(eddsa.Public)
			must(json.Unmarshal(r.pub, v.pub))
			v.pk = v.pub.GroupKey
			for id, b := range r.sec {
				v.secs[id] = new(eddsa.SecretShare)
				must(json.Unmarshal(b, v.secs[id]))
			}
			v.sec = v.secs[r.ids[0]]
			v.ids = v.pub.PartyIDs
		case 'q':
			v.pub2 = new(eddsa.Public)
			must(json.Unmarshal(r.pub, v.pub2))
			v.pk2 = v.pub2.GroupKey
			v.sec2 = new(eddsa.SecretShare)
			must(json.Unmarshal(r.sec[r.ids[0]], v.sec2))
		case 's':
			v.sig, v.sig2 = new(eddsa.Signature), new(eddsa.Signature)
			must(v.sig.UnmarshalBinary(r.sig))
			must(v.sig2.UnmarshalBinary(r.sig))
		case 'm':
			for k := 1; k <= 4; k++ {
				v.m[k], v.m2[k] = new(messages.Message), new(messages.Message)
				must(v.m[k].UnmarshalBinary(r.msgs[k]))
				must(v.m2[k].UnmarshalBinary(r.msgs[k]))
			}
			v.exp, v.exp2 = v.m[1].KeyGen1.Commitments, v.m2[1].KeyGen1.Commitments
			v.proof = v.m[1].KeyGen1.Proof
		case 'p':
			rand.Reader = &sim.Flat{Data: r.wide}
			v.poly = polynomial.NewPolynomial(2, v.s)
		}
	}
	v.unsorted = []party.ID{v.ids[2], v.ids[0], v.ids[1]}
	v.set = party.NewIDSlice(v.ids[:2])
	return v
}

func el(b []byte) *ristretto.Element {
	e, err := new(ristretto.Element).SetCanonicalBytes(b)
	must(err)
	return e
}

func sc(b []byte) *ristretto.Scalar {
	s, err := ristretto.NewScalar().SetCanonicalBytes(b)
	must(err)
	return s
}

// ---- the operations

// thr is what a goroutine draws: these values must not occur twice.
type thr struct{ drawn [][]byte }

func (t *thr) draw(b []byte) { t.drawn = append(t.drawn, append([]byte(nil), b...)) }

type op struct {
	name string
	f    func(v *values, t *thr) func() string
	need string
	pool bool // uses pools of the standard library
	big  bool // a whole protocol run
}

func x(b []byte) string { return hex.EncodeToString(b) }

func yes(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

// render delays making the text of the result, so that others may run before.
func bs(b []byte, err error) func() string {
	return func() string {
		if err != nil {
			return "error " + err.Error()
		}
		return x(b)
	}
}

// spoil is for callers that overwrite what they were given.
func spoil(b []byte) func() string {
	s := x(b)
	for i := range b[:cap(b)] {
		b[:cap(b)][i] ^= 0x55
	}
	return func() string { return s + x(b) }
}

func elem(e *ristretto.Element) func() string { return func() string { return x(e.Bytes()) } }
func scal(s *ristretto.Scalar) func() string  { return func() string { return x(s.Bytes()) } }
func truth(b bool) func() string              { return func() string { return yes(b) } }

func text(parts ...func() string) func() string {
	return func() string {
		var out []string
		for _, p := range parts {
			out = append(out, p())
		}
		return strings.Join(out, " ")
	}
}

func showIDs(ids []party.ID) func() string {
	return func() string {
		var b []byte
		for _, id := range ids {
			b = append(b, byte(id>>8), byte(id))
		}
		return x(b)
	}
}

func showPub(p *eddsa.Public, err error) func() string {
	return func() string {
		if err != nil {
			return "error " + err.Error()
		}
		s := showIDs(p.PartyIDs)() + showIDs([]party.ID{p.Threshold})() + x(p.GroupKey.ToEd25519())
		for _, id := range p.PartyIDs {
			s += x(p.Shares[id].Bytes())
		}
		return s
	}
}

func num(n int) func() string { return showIDs([]party.ID{party.ID(n)}) }

func spare(n int) []byte { return append(make([]byte, 0, n+200), "prefix"...) }

func ops() []op {
	var out []op
	need := "ks"
	add := func(name string, f func(v *values, t *thr) func() string) {
		out = append(out, op{name: name, f: f, need: need})
	}
	pool := func(name string, f func(v *values, t *thr) func() string) {
		out = append(out, op{name: name, f: f, need: need, pool: true})
	}
	whole := func(name string, f func(v *values, t *thr) func() string) {
		out = append(out, op{name: name, f: f, need: need, pool: true, big: true})
	}

	// keys and signatures
	add("Verify", func(v *values, _ *thr) func() string { return truth(v.pk.Verify(v.text, v.sig)) })
	add("Verify of another message", func(v *values, _ *thr) func() string { return truth(v.pk.Verify(v.wide, v.sig)) })
	add("ComputeChallenge", func(v *values, _ *thr) func() string { return scal(eddsa.ComputeChallenge(v.e, v.pk, v.text)) })
	add("PublicKey.ToEd25519", func(v *values, _ *thr) func() string {
		k := v.pk.ToEd25519()
		ok := ed25519.Verify(k, v.text, v.sig.ToEd25519())
		return text(truth(ok), spoil(k))
	})
	need = "kq"
	add("PublicKey.Equal", func(v *values, _ *thr) func() string {
		return truth(v.pk.Equal(v.pk2) && v.pk2.Equal(v.pk) && v.pk.Equal(v.pk))
	})
	need = "k"
	add("NewPublicKeyFromPoint", func(v *values, _ *thr) func() string {
		k := eddsa.NewPublicKeyFromPoint(v.e)
		return func() string { return x(k.ToEd25519()) }
	})
	pool("PublicKey JSON", func(v *values, _ *thr) func() string {
		b, err := v.pk.MarshalJSON()
		k := new(eddsa.PublicKey)
		must(json.Unmarshal(b, k))
		return text(bs(b, err), truth(k.Equal(v.pk)))
	})
	pool("Public.MarshalJSON", func(v *values, _ *thr) func() string { return bs(v.pub.MarshalJSON()) })
	pool("Public.UnmarshalJSON", func(v *values, _ *thr) func() string {
		p := new(eddsa.Public)
		return showPub(p, p.UnmarshalJSON(v.raw.pub))
	})
	need = "kq"
	add("Public.Equal", func(v *values, _ *thr) func() string { return truth(v.pub.Equal(v.pub2) && v.pub2.Equal(v.pub)) })
	need = "k"
	add("NewPublic", func(v *values, _ *thr) func() string {
		p, err := eddsa.NewPublic(v.pub.Shares, v.pub.Threshold)
		return showPub(p, err)
	})
	add("reading Public", func(v *values, _ *thr) func() string { return showPub(v.pub, nil) })
	add("SecretShare encodings", func(v *values, _ *thr) func() string {
		b, err := v.sec.MarshalBinary()
		s := bs(b, err)()
		spoil(b)
		return func() string { return s }
	})
	pool("SecretShare JSON", func(v *values, _ *thr) func() string {
		b, err := v.sec.MarshalJSON()
		k := new(eddsa.SecretShare)
		must(json.Unmarshal(v.raw.sec[v.ids[1]], k))
		return text(bs(b, err), scal(&k.Secret), elem(&k.Public))
	})
	add("SecretShare.UnmarshalBinary", func(v *values, _ *thr) func() string {
		k := new(eddsa.SecretShare)
		err := k.UnmarshalBinary(append([]byte{0, 9}, v.raw.s...))
		must(err)
		bad := new(eddsa.SecretShare).UnmarshalBinary(v.raw.s)
		return text(scal(&k.Secret), elem(&k.Public), truth(bad != nil))
	})
	need = "kq"
	add("SecretShare.Equal", func(v *values, _ *thr) func() string { return truth(v.sec.Equal(v.sec2) && v.sec2.Equal(v.sec)) })
	need = "k"
	add("NewSecretShare", func(v *values, _ *thr) func() string {
		k := eddsa.NewSecretShare(v.ids[1], v.s)
		return text(scal(&k.Secret), elem(&k.Public))
	})
	need = "s"
	add("Signature encodings", func(v *values, _ *thr) func() string {
		b, err := v.sig.MarshalBinary()
		y, err2 := v.sig.BytesAppend(spare(64))
		return text(bs(b, err), bs(y, err2), spoil(v.sig.ToEd25519()), num(v.sig.Size()))
	})
	add("Signature.UnmarshalBinary", func(v *values, _ *thr) func() string {
		s := new(eddsa.Signature)
		err := s.UnmarshalBinary(v.raw.sig)
		must(err)
		bad := new(eddsa.Signature).UnmarshalBinary(v.wide)
		return text(elem(&s.R), scal(&s.S), truth(bad != nil))
	})
	add("Signature.Equal", func(v *values, _ *thr) func() string { return truth(v.sig.Equal(v.sig2) && v.sig.Equal(v.sig)) })

	// group
	type E = ristretto.Element
	need = ""
	add("Add, Subtract, Negate, Set", func(v *values, _ *thr) func() string {
		return text(elem(new(E).Add(v.e, v.f)), elem(new(E).Subtract(v.e, v.f)), elem(new(E).Negate(v.e)), elem(new(E).Set(v.e)))
	})
	add("ScalarMult", func(v *values, _ *thr) func() string { return elem(new(E).ScalarMult(v.s, v.f)) })
	add("ScalarBaseMult", func(v *values, _ *thr) func() string { return elem(new(E).ScalarBaseMult(v.s)) })
	add("MultiScalarMult", func(v *values, _ *thr) func() string { return elem(new(E).MultiScalarMult(v.ss, v.es)) })
	add("VarTimeDoubleScalarBaseMult", func(v *values, _ *thr) func() string {
		return elem(new(E).VarTimeDoubleScalarBaseMult(v.s, v.e, v.t))
	})
	add("VarTimeMultiScalarMult", func(v *values, _ *thr) func() string { return elem(new(E).VarTimeMultiScalarMult(v.ss, v.es)) })
	add("Element.Equal", func(v *values, _ *thr) func() string {
		return num(v.e.Equal(v.f) + 2*v.e.Equal(v.e) + 4*v.f.Equal(v.e))
	})
	add("Element.Bytes", func(v *values, _ *thr) func() string { return text(spoil(v.e.Bytes()), bs(v.e.Bytes(), nil)) })
	add("Element.BytesEd25519", func(v *values, _ *thr) func() string {
		return text(spoil(v.e.BytesEd25519()), bs(v.e.BytesEd25519(), nil))
	})
	pool("Element text", func(v *values, _ *thr) func() string {
		b, err := v.e.MarshalText()
		g := new(E)
		must(g.UnmarshalText(b))
		s := v.f.String()
		return text(bs(b, err), elem(g), func() string { return s })
	})
	add("Element.SetCanonicalBytes", func(v *values, _ *thr) func() string {
		g, err := new(E).SetCanonicalBytes(v.raw.a)
		must(err)
		_, bad := new(E).SetCanonicalBytes(v.wide[:32])
		_, bad2 := new(E).SetCanonicalBytes(v.wide[:31])
		return text(elem(g), truth(bad != nil && bad2 != nil))
	})
	add("Element.SetUniformBytes", func(v *values, _ *thr) func() string {
		g, err := new(E).SetUniformBytes(v.wide)
		must(err)
		_, bad := new(E).SetUniformBytes(v.wide[:32])
		return text(elem(g), truth(bad != nil))
	})
	add("NewGeneratorElement, overwritten", func(v *values, _ *thr) func() string {
		g := ristretto.NewGeneratorElement()
		s := x(g.Bytes())
		g.Add(g, v.e)
		return func() string { return s + x(g.Bytes()) }
	})
	add("NewIdentityElement, overwritten", func(v *values, _ *thr) func() string {
		g := ristretto.NewIdentityElement()
		s := x(g.Bytes())
		g.Add(g, v.e)
		return func() string { return s + x(g.Bytes()) }
	})
	add("NewScalar, overwritten", func(v *values, _ *thr) func() string {
		g := ristretto.NewScalar()
		s := x(g.Bytes())
		g.Add(g, v.s)
		return func() string { return s + x(g.Bytes()) }
	})
	add("small scalars, overwritten", func(v *values, _ *thr) func() string {
		g, h := scalar.NewScalarUInt32(7), scalar.SetScalarUInt32(ristretto.NewScalar(), 1)
		s := x(g.Bytes()) + x(h.Bytes())
		g.Add(g, v.s)
		h.Add(h, v.s)
		return func() string { return s + x(g.Bytes()) + x(h.Bytes()) }
	})
	add("random scalar", func(v *values, t *thr) func() string {
		s := scalar.NewScalarRandom()
		u := scalar.SetScalarRandom(ristretto.NewScalar())
		return func() string { t.draw(s.Bytes()); t.draw(u.Bytes()); return "" }
	})

	// identifiers
	add("ID.Scalar, overwritten", func(v *values, _ *thr) func() string {
		g := v.ids[2].Scalar()
		s := x(g.Bytes())
		g.Add(g, v.s)
		return func() string { return s + x(g.Bytes()) }
	})
	add("Lagrange, overwritten", func(v *values, _ *thr) func() string {
		var parts []func() string
		for _, id := range v.ids {
			l, err := id.Lagrange(v.ids)
			must(err)
			s := x(l.Bytes())
			l.Add(l, v.s)
			parts = append(parts, func() string { return s + x(l.Bytes()) })
		}
		l, err := v.ids[0].Lagrange(v.set)
		must(err)
		_, bad := party.ID(0).Lagrange(v.ids)
		return text(append(parts, scal(l), truth(bad != nil))...)
	})
	add("NewIDSlice, Copy, overwritten", func(v *values, _ *thr) func() string {
		a, b := party.NewIDSlice(v.unsorted), v.ids.Copy()
		s := showIDs(a)() + showIDs(b)()
		a[0], b[1] = 77, 78
		return func() string { return s + showIDs(a)() + showIDs(b)() }
	})
	need = "kq"
	add("IDSlice queries", func(v *values, _ *thr) func() string {
		return text(truth(v.ids.Contains(v.ids[1])), truth(v.ids.Contains(5)), truth(v.ids.Equal(v.set)), truth(v.ids.Equal(v.pub2.PartyIDs)),
			truth(v.set.IsSubsetOf(v.ids)), truth(v.ids.IsSubsetOf(v.set)), num(int(v.ids.N())))
	})
	need = ""
	pool("ID text and bytes", func(v *values, _ *thr) func() string {
		b, err := v.ids[1].MarshalText()
		var id party.ID
		must(id.UnmarshalText(b))
		y := v.ids[2].Bytes()
		z, err2 := party.FromBytes(y)
		must(err2)
		s := v.ids[1].String()
		return text(bs(b, err), spoil(y), showIDs([]party.ID{id, z}), func() string { return s })
	})
	add("GenerateSet", func(v *values, _ *thr) func() string {
		s := helpers.GenerateSet(5)
		t := showIDs(s)()
		s[2] = 99
		return func() string { return t + showIDs(s)() }
	})

	// polynomials and proofs
	need = "p"
	add("Polynomial.Evaluate", func(v *values, _ *thr) func() string {
		return text(scal(v.poly.Evaluate(v.t)), num(int(v.poly.Degree())), num(v.poly.Size()), func() string { return x(v.poly.Constant().Bytes()) })
	})
	add("NewPolynomialExponent", func(v *values, _ *thr) func() string {
		return bs(polynomial.NewPolynomialExponent(v.poly).MarshalBinary())
	})
	need = ""
	add("NewPolynomial", func(v *values, t *thr) func() string {
		p := polynomial.NewPolynomial(2, v.s)
		return func() string {
			t.draw(p.Evaluate(v.t).Bytes())
			return x(p.Constant().Bytes())
		}
	})
	need = "m"
	add("Exponent.Evaluate", func(v *values, _ *thr) func() string { return elem(v.exp.Evaluate(v.t)) })
	add("Exponent.EvaluateMulti", func(v *values, _ *thr) func() string {
		m := v.exp.EvaluateMulti(v.ids)
		return func() string {
			s := ""
			for _, id := range v.ids {
				s += x(m[id].Bytes())
			}
			return s
		}
	})
	add("Exponent encodings", func(v *values, _ *thr) func() string {
		b, err := v.exp.MarshalBinary()
		y, err2 := v.exp.BytesAppend(spare(100))
		own := new(polynomial.Exponent)
		must(own.UnmarshalBinary(v.msgs[1][69:]))
		return text(bs(b, err), bs(y, err2), num(v.exp.Size()), num(int(v.exp.Degree())), truth(own.Equal(v.exp)))
	})
	add("Exponent copy, overwritten", func(v *values, _ *thr) func() string {
		e := v.exp.Copy()
		must(e.Add(v.exp2))
		a := bs(e.MarshalBinary())()
		e.Reset()
		return func() string { return a + x(v.exp.Constant().Bytes()) }
	})
	add("Exponent.Sum, overwritten", func(v *values, _ *thr) func() string {
		e, err := polynomial.Sum([]*polynomial.Exponent{v.exp, v.exp2, v.exp})
		must(err)
		a := bs(e.MarshalBinary())()
		must(e.Add(v.exp2))
		return text(func() string { return a }, bs(e.MarshalBinary()))
	})
	add("Exponent.Equal", func(v *values, _ *thr) func() string { return truth(v.exp.Equal(v.exp2) && v.exp2.Equal(v.exp)) })
	add("Schnorr.Verify", func(v *values, _ *thr) func() string {
		return text(truth(v.proof.Verify(v.raw.ids[0], v.e, v.ctx)), truth(v.proof.Verify(v.raw.ids[1], v.e, v.ctx)), truth(v.proof.Verify(v.raw.ids[0], v.f, v.ctx)))
	})
	add("Schnorr encodings", func(v *values, _ *thr) func() string {
		b, err := v.proof.MarshalBinary()
		y, err2 := v.proof.BytesAppend(spare(64))
		own := new(zk.Schnorr)
		must(own.UnmarshalBinary(v.msgs[1][5:69]))
		return text(bs(b, err), bs(y, err2), num(v.proof.Size()), truth(own.Equal(v.proof) && v.proof.Equal(own)))
	})
	add("NewSchnorrProof", func(v *values, t *thr) func() string {
		p := zk.NewSchnorrProof(v.ids[1], v.e, v.ctx, v.s)
		return func() string {
			b, err := p.MarshalBinary()
			must(err)
			t.draw(b[:32])
			t.draw(b[32:])
			return yes(p.Verify(v.ids[1], v.e, v.ctx))
		}
	})

	// messages
	for k := 1; k <= 4; k++ {
		k := k
		kind := []string{"", "KeyGen1", "KeyGen2", "Sign1", "Sign2"}[k]
		add(kind+" encodings", func(v *values, _ *thr) func() string {
			b, err := v.m[k].MarshalBinary()
			y, err2 := v.m[k].BytesAppend(spare(200))
			h, err3 := v.m[k].Header.MarshalBinary()
			return text(bs(b, err), bs(y, err2), bs(h, err3), num(v.m[k].Size()), truth(v.m[k].IsBroadcast()), truth(v.m[k].HasContent()))
		})
		pool(kind+" decoding", func(v *values, _ *thr) func() string {
			m := new(messages.Message)
			must(m.UnmarshalBinary(v.msgs[k]))
			bad := new(messages.Message).UnmarshalBinary(v.msgs[k][:len(v.msgs[k])-1])
			return text(bs(m.MarshalBinary()), truth(bad != nil))
		})
		add(kind+" Equal", func(v *values, _ *thr) func() string {
			return truth(v.m[k].Equal(v.m2[k]) && v.m2[k].Equal(v.m[k]) && !v.m[k].Equal(v.m[k%4+1]))
		})
	}
	add("new messages", func(v *values, _ *thr) func() string {
		a := messages.NewKeyGen1(v.ids[0], v.proof, v.exp)
		b := messages.NewKeyGen2(v.ids[0], v.ids[1], v.s)
		c := messages.NewSign1(v.ids[1], v.e, v.f)
		d := messages.NewSign2(v.ids[2], v.t)
		return text(bs(a.MarshalBinary()), bs(b.MarshalBinary()), bs(c.MarshalBinary()), bs(d.MarshalBinary()))
	})

	// helpers and sessions
	need = "k"
	add("GeneratePublic", func(v *values, _ *thr) func() string { return showPub(helpers.GeneratePublic(1, v.secs), nil) })
	add("GenerateSecrets", func(v *values, t *thr) func() string {
		s, shares := helpers.GenerateSecrets(v.ids, 1)
		return func() string {
			t.draw(s.Bytes())
			sum := ristretto.NewScalar()
			for _, id := range v.set {
				l, err := id.Lagrange(v.set)
				must(err)
				sum.MultiplyAdd(l, &shares[id].Secret, sum)
				t.draw(shares[id].Secret.Bytes())
			}
			return yes(sum.Equal(s) == 1)
		}
	})
	add("refused sessions", func(v *values, _ *thr) func() string {
		_, _, err := frost.NewSignState(v.set, v.secs[v.ids[2]], v.pub, v.text, 0)
		_, _, err2 := frost.NewKeygenState(v.ids[0], v.ids, 5, 0)
		return truth(err != nil && err2 != nil)
	})
	add("start of a signing session", func(v *values, t *thr) func() string {
		st, _, err := frost.NewSignState(v.set, v.sec, v.pub, v.text, 0)
		must(err)
		out := st.ProcessAll()
		return func() string {
			b := sim.Encode(out)
			t.draw(b[0][5:37])
			t.draw(b[0][37:69])
			return num(len(b))() + x(b[0][:5])
		}
	})
	add("start of a key generation session", func(v *values, t *thr) func() string {
		st, _, err := frost.NewKeygenState(v.ids[0], v.ids, 2, 0)
		must(err)
		out := st.ProcessAll()
		return func() string {
			b := sim.Encode(out)
			for _, k := range sim.Commitments(b[0]) {
				t.draw(k)
			}
			return num(len(b))() + x(b[0][:5])
		}
	})
	whole("signing", func(v *values, t *thr) func() string {
		var sts []*state.State
		var outs []func() *eddsa.Signature
		for _, id := range v.set {
			st, out, err := frost.NewSignState(v.set, v.secs[id], v.pub, v.text, 0)
			must(err)
			sts = append(sts, st)
			outs = append(outs, func() *eddsa.Signature { return out.Signature })
		}
		lockstep(sts, nil)
		return func() string {
			s := ""
			for i, o := range outs {
				if o() == nil {
					return "no signature"
				}
				b := o().ToEd25519()
				if i == 0 {
					t.draw(b[:32])
				}
				s += yes(ed25519.Verify(v.pk.ToEd25519(), v.text, b)) + yes(v.pk.Verify(v.text, o()))
			}
			return s
		}
	})
	whole("key generation", func(v *values, t *thr) func() string {
		var sts []*state.State
		var pubs []func() *eddsa.Public
		for _, id := range v.set {
			st, out, err := frost.NewKeygenState(id, v.set, 1, 0)
			must(err)
			sts = append(sts, st)
			pubs = append(pubs, func() *eddsa.Public { return out.Public })
		}
		lockstep(sts, t)
		return func() string {
			if pubs[0]() == nil || pubs[1]() == nil {
				return "no key"
			}
			return yes(pubs[0]().Equal(pubs[1]()))
		}
	})
	return out
}

// lockstep runs the sessions to the end, through PartyRoutine and encoded messages.
func lockstep(sts []*state.State, t *thr) {
	in := make([][][]byte, len(sts))
	for phase := 0; phase < 3; phase++ {
		next := make([][][]byte, len(sts))
		for i, st := range sts {
			out, err := helpers.PartyRoutine(in[i], st)
			must(err)
			for _, b := range out {
				if t != nil && b[0] == sim.K1 {
					t.draw(b[5:37])
				}
				for j := range sts {
					if j != i {
						next[j] = append(next[j], b)
					}
				}
			}
		}
		in = next
	}
}

// ---- execution

func flat() *sim.Flat { return &sim.Flat{Data: rnd.Bytes("c28 flat", 1<<16), Point: true} }

// alone is the result of an operation by itself.
func alone(o op, which int) string {
	vclock.Reset()
	vrt.ForgetChannels()
	v := makeRaw(which).values(o.need)
	rand.Reader = flat()
	var s string
	e := vrt.Run(nil, limit, vrt.Thread{Name: o.name, F: func() { s = o.f(v, &thr{})() }})
	if p := sim.Problem(e); p != "" {
		return "by itself: " + p
	}
	return s
}

const limit = 4000

type outcome struct {
	e     *vrt.Exec
	bad   string
	res   []string
	drawn [][]byte
}

// together runs the operations at the same time; which says whose values each works on.
func together(os []op, which []int, prefix []int, want []string) *outcome {
	vclock.Reset()
	vrt.ForgetChannels()
	vs := map[int]*values{}
	for i, w := range which {
		if vs[w] == nil {
			need := ""
			for j := i; j < len(os); j++ {
				for _, k := range os[j].need {
					if which[j] == w && !strings.ContainsRune(need, k) {
						need += string(k)
					}
				}
			}
			vs[w] = makeRaw(w).values(need)
		}
	}
	rand.Reader = flat()
	o := &outcome{res: make([]string, len(os))}
	ths := make([]*thr, len(os))
	var threads []vrt.Thread
	for i := range os {
		i := i
		ths[i] = &thr{}
		threads = append(threads, vrt.Thread{Name: fmt.Sprint("g", i), F: func() {
			if os[i].pool {
				runtime.GC()
				runtime.GC()
			}
			f := os[i].f(vs[which[i]], ths[i])
			vrt.Yield("result")
			o.res[i] = f()
		}})
	}
	races := vrt.Races()
	o.e = vrt.Run(prefix, limit, threads...)
	seen := map[string]int{}
	switch p := sim.Problem(o.e); {
	case p != "":
		o.bad = p
	case o.e.Diverged != "":
		o.bad = "the execution is not repeatable: " + o.e.Diverged
	case vrt.Races() != races:
		o.bad = "data race (the report of the race detector is in the output)"
	default:
		for i, t := range ths {
			if want != nil && o.res[i] != want[i] {
				o.bad = fmt.Sprintf("%s (goroutine %d) gives %s instead of %s", os[i].name, i, clip(o.res[i]), clip(want[i]))
			}
			for _, d := range t.drawn {
				if j, dup := seen[string(d)]; dup {
					o.bad = fmt.Sprintf("goroutines %d and %d drew the same secret value", j, i)
				}
				seen[string(d)] = i
			}
		}
	}
	return o
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:100] + ".." + s[len(s)-90:]
	}
	return s
}

func names(os []op) string {
	var s []string
	for _, o := range os {
		s = append(s, o.name)
	}
	return strings.Join(s, " | ")
}

type checker struct {
	c    *lib.Ctx
	want map[string]string
}

func (k *checker) alone(o op, which int) string {
	key := fmt.Sprint(o.name, which)
	s, ok := k.want[key]
	if !ok {
		s = alone(o, which)
		k.want[key] = s
	}
	return s
}

// explore executes all schedules of the operations up to the preemption bound.
func (k *checker) explore(os []op, which []int, bound int) {
	c := k.c
	where := names(os)
	for i := range which {
		if which[i] != which[0] {
			where += " on different values"
			break
		}
	}
	c.Case(where, func() {
		var want []string
		for i, o := range os {
			w := k.alone(o, which[i])
			c.Check(!strings.HasPrefix(w, "by itself"), "%s: %s", o.name, w)
			want = append(want, w)
		}
		n := search(bound, func(prefix []int) []vrt.Point {
			o := together(os, which, prefix, want)
			c.Beat()
			c.Check(o.bad == "", "%s, schedule %v (%s): %s", where, prefix, clip(strings.Join(o.e.Trace, " / ")), o.bad)
			c.Trans(len(o.e.Points) - len(prefix))
			c.State(1)
			return o.e.Points
		}, c.Expired)
		c.Distinct(where)
		c.Trace(n)
		c.Eval(n)
		c.Note("schedules", n)
	})
}

// search is a depth-first search over the choices of the scheduler.
func search(bound int, exec func(prefix []int) []vrt.Point, stop func() bool) int {
	type item struct {
		prefix []int
		cost   int
	}
	stack := []item{{}}
	plain := bound
	if bound > 1 {
		plain = 1
	}
	n := 0 // a negative bound stands for the undisturbed schedule only
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		points := exec(it.prefix)
		n++
		limit := bound
		if len(points) <= 4 {
			limit = plain // nothing but starts and returns
		}
		for i := len(it.prefix); i < len(points); i++ {
			p := points[i]
			for j := 1; j < len(p.Enabled); j++ {
				cost := it.cost
				if p.Running {
					cost++
				}
				if limit < 0 || cost > limit {
					continue
				}
				pre := make([]int, 0, i+1)
				for _, q := range points[:i] {
					pre = append(pre, q.Chosen)
				}
				stack = append(stack, item{append(pre, j), cost})
			}
		}
		if stop() {
			break
		}
	}
	return n
}

// ---- first use in a process

type firstIn struct {
	Ops    []string
	Prefix []int
}

type firstOut struct {
	Bad    string
	Res    []string
	Points []vrt.Point
	Trace  string
}

// firstUse is the process: it uses the library for the first time.
func firstUse(s string) {
	var in firstIn
	must(json.Unmarshal([]byte(s), &in))
	debug.SetGCPercent(400)
	all := map[string]op{}
	for _, o := range ops() {
		all[o.name] = o
	}
	var os2 []op
	var which []int
	for _, n := range in.Ops {
		os2 = append(os2, all[n])
		which = append(which, 0)
	}
	o := together(os2, which, in.Prefix, nil)
	b, err := json.Marshal(firstOut{o.bad, o.res, o.e.Points, strings.Join(o.e.Trace, " / ")})
	must(err)
	fmt.Printf("\nC28FIRST %s\n", b)
}

func (k *checker) first(os2 []op, bound int) {
	c := k.c
	where := "first use: " + names(os2)
	c.Case(where, func() {
		var want, ns []string
		for _, o := range os2 {
			want = append(want, k.alone(o, 0))
			ns = append(ns, o.name)
		}
		n := search(bound, func(prefix []int) []vrt.Point {
			b, err := json.Marshal(firstIn{ns, prefix})
			must(err)
			exe, err := os.Executable()
			must(err)
			cmd := exec.Command(exe)
			cmd.Env = append(os.Environ(), "VERIF_C28_FIRST="+string(b))
			out, err := cmd.CombinedOutput()
			c.Beat()
			i := bytes.LastIndex(out, []byte("\nC28FIRST "))
			if err != nil || i < 0 {
				c.Failf("%s, schedule %v: the process fails: %v\n%s", where, prefix, err, out)
			}
			var o firstOut
			must(json.Unmarshal(out[i+10:], &o))
			if o.Bad != "" {
				c.Failf("%s, schedule %v (%s): %s\n%s", where, prefix, clip(o.Trace), o.Bad, out[:i])
			}
			for j := range want {
				c.Check(o.Res[j] == want[j], "%s, schedule %v (%s): goroutine %d gets %s instead of %s", where, prefix, clip(o.Trace), j, clip(o.Res[j]), clip(want[j]))
			}
			c.Trans(len(o.Points) - len(prefix))
			c.State(1)
			return o.Points
		}, c.Expired)
		c.Distinct(where)
		c.Trace(n)
		c.Eval(n)
		c.Note("first uses", n)
	})
}

func run(c *lib.Ctx) {
	debug.SetGCPercent(400)
	_ = time.Now
	k := &checker{c, map[string]string{}}
	all := ops()
	bound := c.Pick(2, 3)
	of := func(a, b op) int {
		switch {
		case a.big && b.big && a.name == "signing" && b.name == "signing":
			return 1
		case a.big || b.big:
			return bound - 2
		case strings.HasPrefix(a.name, "start of") || strings.HasPrefix(b.name, "start of"):
			return bound - 1
		}
		return bound
	}
	for i, a := range all {
		for j := i; j < len(all); j++ {
			b := all[j]
			k.explore([]op{a, b}, []int{0, 0}, of(a, b))
			different := c.Pick(0, 1)
			if i == j && !a.big {
				different = 1
			}
			k.explore([]op{a, b}, []int{0, 1}, different)
		}
	}
	for _, a := range all {
		if a.big {
			k.explore([]op{a, a, a}, []int{0, 0, 0}, -1)
		} else if strings.HasPrefix(a.name, "start of") {
			k.explore([]op{a, a, a}, []int{0, 0, 0}, c.Pick(0, 1))
		} else {
			k.explore([]op{a, a, a}, []int{0, 0, 0}, c.Pick(1, 2))
		}
		if !c.Quick() {
			for _, b := range all {
				if b.name != a.name && !a.big && !b.big {
					k.explore([]op{a, a, b}, []int{0, 0, 0}, 1)
				}
			}
		}
	}
	for i, a := range all {
		k.first([]op{a, a}, of(a, a)-1)
		if !c.Quick() {
			for _, b := range all[i+1:] {
				k.first([]op{a, b}, 0)
			}
		}
	}
	c.Note("operations", 0)
	if c.Only() || c.Mine("operations") {
		c.Note("operations", len(all))
	}
}
