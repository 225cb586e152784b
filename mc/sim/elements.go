//go:build go1.21

package sim

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
)

// Elem is a library element that stands for K times the base point, in some internal representation.
type Elem struct {
	Name string
	K    *big.Int
	E    *ristretto.Element
}

// FromEnc decodes k times the base point from the reference encoding.
func FromEnc(k *big.Int) *ristretto.Element {
	var e ristretto.Element
	if _, err := e.SetCanonicalBytes(BaseEnc(k)); err != nil {
		panic(fmt.Sprintf("the canonical encoding of a multiple of the base point is refused: %v", err))
	}
	return &e
}

// Scalars is the alphabet of scalars: small, around the powers of two, around the order, around
// inverses, and arbitrary ones.
func Scalars() []*big.Int {
	m := func(x int64) *big.Int { return ref.Mod(big.NewInt(x)) }
	sh := func(n uint, d int64) *big.Int {
		return ref.Mod(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), n), big.NewInt(d)))
	}
	half := new(big.Int).Rsh(ref.Q, 1)
	return []*big.Int{m(0), m(1), m(-1), m(2), m(-2), m(8), ref.Inv(m(8)), half, ref.Add(half, m(1)),
		sh(128, -1), sh(251, 0), sh(252, 0), RandScalar("el/a"), RandScalar("el/b"), m(3), m(-3), m(7), m(15), m(16), m(255), m(256), m(65535), sh(64, 0), sh(127, 1), RandScalar("el/c"), RandScalar("el/d")}
}

var (
	torsOnce sync.Once
	tors     [4]*ristretto.Element
)

// Torsion returns neutral elements whose internal representation is, in the representation the
// specification's decoder produces, each point of the 4-torsion.
func Torsion() [4]*ristretto.Element {
	torsOnce.Do(func() {
		found := 0
		for k := int64(1); k < 200 && found < 4; k++ {
			K := big.NewInt(k)
			p, ok := ref.DecodeRistretto(BaseEnc(K))
			if !ok {
				panic("torsion")
			}
			i := p.Add(ref.BaseMul(K).Neg()).Torsion4()
			if tors[i] != nil {
				continue
			}
			found++
			var b, e ristretto.Element
			b.ScalarBaseMult(Sc(K))
			e.Subtract(FromEnc(K), &b)
			tors[i] = &e
		}
		if found < 4 {
			panic("torsion: not all representatives found")
		}
	})
	return tors
}

// Reps returns k times the base point in every kind of representation: computed, decoded, shifted by
// every torsion point, sums, differences, negations, multiples of a decoded point, multi-scalar
// products.
func Reps(k *big.Int) []Elem {
	t := Torsion()
	var out []Elem
	add := func(name string, e *ristretto.Element) { out = append(out, Elem{name, k, e}) }
	var base ristretto.Element
	base.ScalarBaseMult(Sc(k))
	add("computed", &base)
	add("decoded", FromEnc(k))
	for i := range t {
		var e ristretto.Element
		add(fmt.Sprintf("computed+torsion%d", i), e.Add(&base, t[i]))
	}
	h := RandScalar("el/part")
	var a, b, s, df, ng, mu, ms ristretto.Element
	a.ScalarBaseMult(Sc(h))
	b.Set(FromEnc(ref.Sub(k, h)))
	add("sum", s.Add(&a, &b))
	add("difference", df.Subtract(FromEnc(ref.Add(k, h)), &a))
	add("negation", ng.Negate(FromEnc(ref.Sub(big.NewInt(0), k))))
	add("multiple", mu.ScalarMult(Sc(ref.Mul(k, ref.Inv(h))), &a))
	add("multi", ms.VarTimeMultiScalarMult([]*ristretto.Scalar{Sc(big.NewInt(1)), Sc(k)}, []*ristretto.Element{t[2], FromEnc(big.NewInt(1))}))
	return out
}
