//go:build go1.21

// C20: group elements have one canonical encoding and correct arithmetic.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"unsafe"

	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C20", Level: "exploration",
		Rule:   "all 32-byte strings of a catalogue (every integer near 0, near the field prime and near 2^255 with and without the top bit, special field values, arbitrary strings, every single-bit flip and the negation of valid encodings, every other length up to 70) decoded into receivers of several values, against an independent ristretto255 decoder; all elements over a scalar alphabet in 11 internal representations (every torsion coset) encoded in binary, text and JSON; equality of all pairs; every operation over pairs of elements and scalars with every aliasing pattern of operands and result, against arithmetic modulo the group order; hash-to-group against RFC 9496",
		Bounds: "quick: 12 scalars, integers up to 3000, sums of up to 200 products; thorough: 26 scalars, 60000 integers, sums of up to 1000 products",
	}, run)
}

var (
	receivers []*ristretto.Element
)

func ints(c *lib.Ctx, part, parts int, f func(*big.Int)) {
	n := int64(c.Pick(3000, 60000))
	top := new(big.Int).Lsh(big.NewInt(1), 255)
	for i := int64(part); i < n; i += int64(parts) {
		f(big.NewInt(i))
		if i < 300 {
			f(new(big.Int).Add(top, big.NewInt(i)))
			f(new(big.Int).Add(ref.P, big.NewInt(i)))
			f(new(big.Int).Sub(ref.P, big.NewInt(i)))
			f(new(big.Int).Sub(top, big.NewInt(i+1)))
			f(new(big.Int).Sub(new(big.Int).Lsh(top, 1), big.NewInt(i+1)))
		}
	}
}

func run(c *lib.Ctx) {
	tor := sim.Torsion()
	var mixed ristretto.Element
	mixed.Add(sim.FromEnc(big.NewInt(7)), tor[1])
	receivers = []*ristretto.Element{ristretto.NewIdentityElement(), ristretto.NewGeneratorElement(), &mixed, sim.FromEnc(sim.RandScalar("rcv"))}
	ks := sim.Scalars()
	if c.Quick() {
		ks = ks[:12]
	}

	const parts = 8
	for p := 0; p < parts; p++ {
		p := p
		c.Case(fmt.Sprintf("decode/integers %d", p), func() {
			ints(c, p, parts, func(x *big.Int) { decode(c, ref.LE(x)) })
			c.Sample("integers congruent %d modulo %d, and those around the field prime and 2^255", p, parts)
		})
		c.Case(fmt.Sprintf("decode/arbitrary %d", p), func() {
			for i := 0; i < c.Pick(100, 4000); i++ {
				b := rnd.Bytes(fmt.Sprintf("arb/%d/%d", p, i), 32)
				decode(c, b)
				b[31] &= 0x7f
				b[0] &= 0xfe
				decode(c, b)
			}
		})
	}
	c.Case("decode/special", func() {
		for name, b := range sim.Fields32() {
			decode(c, b)
			c.Distinct("special", name)
		}
		for k := -300; k <= 300; k++ {
			x := ref.LE(ref.Mod(big.NewInt(int64(k))))
			decode(c, x)
		}
		for n := 0; n <= 70; n++ {
			if n == 32 {
				continue
			}
			decode(c, make([]byte, n))
			long := append(append([]byte(nil), sim.BaseEnc(big.NewInt(9))...), make([]byte, 70)...)
			decode(c, long[:n])
		}
		decode(c, nil)
	})
	for i, k := range ks {
		i, k := i, k
		c.Case(fmt.Sprintf("decode/flips of %d", i), func() {
			enc := sim.BaseEnc(k)
			decode(c, enc)
			for bit := 0; bit < 256; bit++ {
				b := append([]byte(nil), enc...)
				b[bit/8] ^= 1 << uint(bit%8)
				decode(c, b)
			}
			decode(c, ref.LE(new(big.Int).Mod(new(big.Int).Neg(ref.FromLE(enc)), ref.P)))
			for _, add := range []*big.Int{ref.P, new(big.Int).Lsh(big.NewInt(1), 255)} {
				v := new(big.Int).Add(ref.FromLE(enc), add)
				if v.BitLen() <= 256 {
					decode(c, ref.LE(v))
				}
			}
			rev := append([]byte(nil), enc...)
			for a, b := 0, 31; a < b; a, b = a+1, b-1 {
				rev[a], rev[b] = rev[b], rev[a]
			}
			decode(c, rev)
			c.Distinct("flips", i)
		})
	}
	for i, k := range ks {
		i, k := i, k
		c.Case(fmt.Sprintf("forms of %d", i), func() {
			for _, r := range sim.Reps(k) {
				forms(c, r)
				c.Distinct("form", i, r.Name)
			}
		})
	}
	for i := range ks {
		i := i
		c.Case(fmt.Sprintf("pairs with %d", i), func() {
			a := sim.Reps(ks[i])
			for j := range ks {
				for _, p := range a {
					for _, q := range sim.Reps(ks[j]) {
						eq := p.E.Equal(q.E)
						want := 0
						if i == j {
							want = 1
						}
						c.Check(eq == want, "Equal of %s (%s) and %s (%s) is %d", p.K, p.Name, q.K, q.Name, eq)
						c.Eval(1)
						pair(c, p, q)
					}
				}
			}
			c.Distinct("pairs", i)
		})
	}
	for i := range ks {
		for j := range ks {
			i, j := i, j
			c.Case(fmt.Sprintf("scalar %d times %d", i, j), func() {
				for _, p := range sim.Reps(ks[j]) {
					mult(c, ks[i], p, ks)
				}
				c.Distinct("mult", i, j)
			})
		}
	}
	few := ks
	if len(few) > 6 {
		few = ks[:c.Pick(5, 9)]
	}
	// many terms, each of which counts
	for _, n := range []int{4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 128, 130, c.Pick(200, 1000)} {
		n := n
		c.Case(fmt.Sprintf("multi of %d terms", n), func() { many(c, n) })
	}
	for n := 0; n <= 3; n++ {
		n := n
		sizes := make([]int, n)
		for x := range sizes {
			sizes[x] = len(few)
		}
		lib.Tuples(sizes, func(t []int) {
			t = append([]int(nil), t...)
			c.Case(fmt.Sprintf("multi %v", t), func() { multi(c, few, t) })
		})
	}
	c.Case("uniform", func() {
		blocks := [][]byte{make([]byte, 32), ref.LE(big.NewInt(1)), ref.LE(new(big.Int).Sub(ref.P, big.NewInt(1))), ref.LE(ref.P), bytes.Repeat([]byte{0xff}, 32), ref.LE(new(big.Int).Lsh(big.NewInt(1), 255))}
		for i := 0; i < c.Pick(8, 40); i++ {
			blocks = append(blocks, rnd.Bytes(fmt.Sprintf("uni/%d", i), 32))
		}
		for _, a := range blocks {
			for _, b := range blocks {
				in := append(append([]byte(nil), a...), b...)
				keep := append([]byte(nil), in...)
				var e ristretto.Element
				r, err := e.SetUniformBytes(in)
				c.Check(err == nil && r == &e, "SetUniformBytes of 64 bytes fails: %v", err)
				want := ref.FromUniform(in)
				c.Check(bytes.Equal(e.Bytes(), want.EncodeRistretto()), "SetUniformBytes(%x) gives %x, want %x", in, e.Bytes(), want.EncodeRistretto())
				c.Check(bytes.Equal(in, keep), "SetUniformBytes changes its input")
				c.Eval(1)
			}
		}
		for n := 0; n < 140; n++ {
			if n == 64 {
				continue
			}
			e := *ristretto.NewGeneratorElement()
			r, err := e.SetUniformBytes(make([]byte, n))
			c.Check(err != nil && r == nil, "SetUniformBytes accepts %d bytes", n)
			c.Check(e.Equal(ristretto.NewGeneratorElement()) == 1, "SetUniformBytes changes the receiver although it fails")
		}
	})
	c.Case("constants", func() {
		c.Check(bytes.Equal(ristretto.NewIdentityElement().Bytes(), make([]byte, 32)), "identity")
		c.Check(bytes.Equal(ristretto.NewGeneratorElement().Bytes(), sim.BaseEnc(big.NewInt(1))), "generator")
		a := ristretto.NewIdentityElement()
		a.Add(a, ristretto.NewGeneratorElement())
		c.Check(bytes.Equal(ristretto.NewIdentityElement().Bytes(), make([]byte, 32)), "a new identity element depends on what happened to an earlier one")
		g := ristretto.NewGeneratorElement()
		g.Add(g, g)
		c.Check(bytes.Equal(ristretto.NewGeneratorElement().Bytes(), sim.BaseEnc(big.NewInt(1))), "a new generator depends on what happened to an earlier one")
		c.Check(ristretto.NewScalar().Equal(sim.Sc(big.NewInt(0))) == 1, "zero scalar")
	})
}

func snapshot(e *ristretto.Element) string { return string(e.Bytes()) + string(e.BytesEd25519()) }

func decode(c *lib.Ctx, b []byte) {
	want, ok := ref.DecodeRistretto(b)
	for i, rc := range receivers {
		e := new(ristretto.Element).Set(rc)
		before := *e
		in := append([]byte(nil), b...)
		r, err := e.SetCanonicalBytes(in)
		c.Check(bytes.Equal(in, b), "decoding changes the input")
		c.Check((err == nil) == ok, "decoding %x: error %v, but canonical=%v", b, err, ok)
		if err != nil {
			c.Check(r == nil, "failed decoding returns an element")
			c.Check(same(e, &before), "decoding %x fails but changes the receiver (number %d)", b, i)
		} else {
			c.Check(r == e, "decoding does not return the receiver")
			c.Check(bytes.Equal(e.Bytes(), b), "%x decodes to an element with encoding %x", b, e.Bytes())
			if i == 0 {
				c.Check(bytes.Equal(e.BytesEd25519(), want.Clean().EncodeEd()), "%x decodes to another element", b)
			}
		}
		if i == 1 { // the text form
			e := new(ristretto.Element).Set(rc)
			txt := []byte(base64.StdEncoding.EncodeToString(b))
			err := e.UnmarshalText(txt)
			c.Check((err == nil) == ok, "decoding the text form of %x: error %v, but canonical=%v", b, err, ok)
			if err != nil {
				c.Check(same(e, &before), "decoding text fails but changes the receiver")
			} else {
				c.Check(bytes.Equal(e.Bytes(), b), "the text form of %x decodes to an element with encoding %x", b, e.Bytes())
			}
		}
	}
	if ok {
		c.Note("canonical", 1)
	} else {
		c.Note("refused", 1)
	}
	c.Eval(1)
}

func forms(c *lib.Ctx, r sim.Elem) {
	want := sim.BaseEnc(r.K)
	before := *r.E
	got := r.E.Bytes()
	c.Check(bytes.Equal(got, want), "%s times the base point (%s) encodes to %x, want %x", r.K, r.Name, got, want)
	got[0] ^= 0xff
	got[31] ^= 0x7f
	c.Check(bytes.Equal(r.E.Bytes(), want), "writing to the returned encoding changes the element or the next encoding")
	b64 := base64.StdEncoding.EncodeToString(want)
	txt, err := r.E.MarshalText()
	c.Check(err == nil && string(txt) == b64, "text form %q, %v; want %q", txt, err, b64)
	c.Check(r.E.String() == b64, "String is %q, want %q", r.E.String(), b64)
	js, err := json.Marshal(r.E)
	c.Check(err == nil && string(js) == `"`+b64+`"`, "JSON form %s, %v", js, err)
	var back ristretto.Element
	c.Check(back.UnmarshalText(txt) == nil && bytes.Equal(back.Bytes(), want), "the text form does not decode to the same element")
	var viaJSON ristretto.Element
	c.Check(json.Unmarshal(js, &viaJSON) == nil && bytes.Equal(viaJSON.Bytes(), want), "the JSON form does not decode to the same element")
	c.Check(back.Equal(r.E) == 1 && r.E.Equal(&back) == 1, "a decoded element does not equal the original")
	c.Check(same(r.E, &before), "encoding changes the element")
	for _, bad := range []string{"", b64[:43], b64[:40], b64 + "=", "A" + b64, b64 + b64, "*" + b64[1:], b64[:20] + "-" + b64[21:], b64[:20] + "_" + b64[21:]} {
		rc := new(ristretto.Element).Set(receivers[2])
		keep := *rc
		err := rc.UnmarshalText([]byte(bad))
		c.Check(err != nil, "text %q is accepted", bad)
		c.Check(same(rc, &keep), "decoding text %q fails but changes the receiver", bad)
		c.Eval(1)
	}
	c.Eval(6)
}

func isK(c *lib.Ctx, e *ristretto.Element, k *big.Int, f string, args ...interface{}) {
	c.Eval(1)
	c.Check(bytes.Equal(e.Bytes(), sim.BaseEnc(k)), "%s: %x, want the encoding of %s times the base point (%x)", fmt.Sprintf(f, args...), e.Bytes(), k, sim.BaseEnc(k))
}

// same compares the values before and after an operation that must not touch them.
func same(a, b *ristretto.Element) bool {
	n := unsafe.Sizeof(*a)
	x, y := unsafe.Slice((*byte)(unsafe.Pointer(a)), n), unsafe.Slice((*byte)(unsafe.Pointer(b)), n)
	return bytes.Equal(x, y) || bytes.Equal(a.Bytes(), b.Bytes())
}

func cp(e *ristretto.Element) *ristretto.Element { return new(ristretto.Element).Set(e) }

func pair(c *lib.Ctx, p, q sim.Elem) {
	type op struct {
		name string
		k    *big.Int
		f    func(e, a, b *ristretto.Element) *ristretto.Element
	}
	for _, o := range []op{
		{"Add", ref.Add(p.K, q.K), func(e, a, b *ristretto.Element) *ristretto.Element { return e.Add(a, b) }},
		{"Subtract", ref.Sub(p.K, q.K), func(e, a, b *ristretto.Element) *ristretto.Element { return e.Subtract(a, b) }},
	} {
		// result apart from the operands
		a, b := cp(p.E), cp(q.E)
		var e ristretto.Element
		r := o.f(&e, a, b)
		c.Check(r == &e, "%s does not return its receiver", o.name)
		isK(c, &e, o.k, "%s of %s (%s) and %s (%s)", o.name, p.K, p.Name, q.K, q.Name)
		c.Check(same(a, p.E) && same(b, q.E), "%s changes an operand", o.name)
		// result in the first, in the second
		a = cp(p.E)
		o.f(a, a, b)
		c.Check(same(a, &e), "%s with the result in the first operand differs", o.name)
		c.Check(same(b, q.E), "%s changes the second operand", o.name)
		a, b = cp(p.E), cp(q.E)
		o.f(b, a, b)
		c.Check(same(b, &e), "%s with the result in the second operand differs", o.name)
		c.Check(same(a, p.E), "%s changes the first operand", o.name)
	}
}

func mult(c *lib.Ctx, s *big.Int, p sim.Elem, ks []*big.Int) {
	sc := sim.Sc(s)
	want := ref.Mul(s, p.K)
	var e, e2 ristretto.Element
	a := cp(p.E)
	c.Check(e.ScalarMult(sc, a) == &e, "ScalarMult does not return its receiver")
	isK(c, &e, want, "ScalarMult(%s, %s (%s))", s, p.K, p.Name)
	c.Check(same(a, p.E) && sc.Equal(sim.Sc(s)) == 1, "ScalarMult changes an operand")
	a.ScalarMult(sc, a)
	isK(c, a, want, "ScalarMult in place (%s, %s (%s))", s, p.K, p.Name)
	a = cp(p.E)
	for _, t := range []*big.Int{ks[0], ks[1], ks[7], s} {
		tc := sim.Sc(t)
		w := ref.Add(want, t)
		var v ristretto.Element
		c.Check(v.VarTimeDoubleScalarBaseMult(sc, a, tc) == &v, "VarTimeDoubleScalarBaseMult does not return its receiver")
		isK(c, &v, w, "%s*(%s, %s) + %s*B", s, p.K, p.Name, t)
		c.Check(same(a, p.E) && sc.Equal(sim.Sc(s)) == 1 && tc.Equal(sim.Sc(t)) == 1, "VarTimeDoubleScalarBaseMult changes an operand")
		v.Set(a)
		v.VarTimeDoubleScalarBaseMult(sc, &v, tc)
		isK(c, &v, w, "in place: %s*(%s, %s) + %s*B", s, p.K, p.Name, t)
		v.Set(a)
		v.VarTimeDoubleScalarBaseMult(sc, &v, sc)
		isK(c, &v, ref.Add(want, s), "same scalar twice: %s*(%s, %s)", s, p.K, p.Name)
	}
	c.Check(e2.Negate(a) == &e2, "Negate does not return its receiver")
	isK(c, &e2, ref.Sub(big.NewInt(0), p.K), "Negate of %s (%s)", p.K, p.Name)
	c.Check(same(a, p.E), "Negate changes its operand")
	n := cp(a)
	n.Negate(n)
	isK(c, n, ref.Sub(big.NewInt(0), p.K), "Negate in place of %s (%s)", p.K, p.Name)
	// one operand twice
	n.Set(a)
	isK(c, n.Add(n, n), ref.Add(p.K, p.K), "Add of an element to itself in place")
	n.Set(a)
	isK(c, n.Subtract(n, n), big.NewInt(0), "Subtract of an element from itself in place")
	var d ristretto.Element
	isK(c, d.Add(a, a), ref.Add(p.K, p.K), "Add of an element to itself")
	isK(c, d.Subtract(a, a), big.NewInt(0), "Subtract of an element from itself")
	c.Check(d.Set(a) == &d, "Set does not return its receiver")
	isK(c, &d, p.K, "Set")
	d.Add(&d, ristretto.NewGeneratorElement())
	c.Check(same(a, p.E), "changing a copy made by Set changes the original")
	var bm ristretto.Element
	c.Check(bm.ScalarBaseMult(sc) == &bm && sc.Equal(sim.Sc(s)) == 1, "ScalarBaseMult")
	isK(c, &bm, s, "ScalarBaseMult(%s)", s)
	bm.Set(a)
	isK(c, bm.ScalarBaseMult(sc), s, "ScalarBaseMult(%s) into a used receiver", s)
}

func multi(c *lib.Ctx, ks []*big.Int, t []int) {
	n := len(t)
	type form struct {
		name string
		f    func(e *ristretto.Element, s []*ristretto.Scalar, p []*ristretto.Element) *ristretto.Element
	}
	forms := []form{
		{"MultiScalarMult", func(e *ristretto.Element, s []*ristretto.Scalar, p []*ristretto.Element) *ristretto.Element {
			return e.MultiScalarMult(s, p)
		}},
		{"VarTimeMultiScalarMult", func(e *ristretto.Element, s []*ristretto.Scalar, p []*ristretto.Element) *ristretto.Element {
			return e.VarTimeMultiScalarMult(s, p)
		}},
	}
	for rot := 0; rot < len(ks); rot++ { // the points take every value while the scalars are fixed
		for _, rep := range []int{0, 1, 3, 4, 6} {
			for _, fm := range forms {
				mk := func() (s []*ristretto.Scalar, p []*ristretto.Element, w *big.Int) {
					w = big.NewInt(0)
					for i := range t {
						k := ks[(t[i]*2+rot+i)%len(ks)]
						s = append(s, sim.Sc(ks[t[i]]))
						p = append(p, cp(sim.Reps(k)[rep].E))
						w = ref.Add(w, ref.Mul(ks[t[i]], k))
					}
					return
				}
				s, p, w := mk()
				var keep []ristretto.Element
				for _, x := range p {
					keep = append(keep, *x)
				}
				e := cp(receivers[3])
				c.Check(fm.f(e, s, p) == e, "%s does not return its receiver", fm.name)
				isK(c, e, w, "%s %v rotation %d representation %d", fm.name, t, rot, rep)
				for i := range p {
					c.Check(same(p[i], &keep[i]) && s[i].Equal(sim.Sc(ks[t[i]])) == 1, "%s changes an operand", fm.name)
				}
				for i := 0; i < n; i++ { // the result is one of the operands
					s, p, w := mk()
					fm.f(p[i], s, p)
					isK(c, p[i], w, "%s %v with the result in operand %d", fm.name, t, i)
					for j := range p {
						c.Check(j == i || same(p[j], &keep[j]), "%s changes an operand", fm.name)
					}
				}
				if n >= 2 { // the same pointers twice
					s, p, _ := mk()
					s[n-1], p[n-1] = s[0], p[0]
					w := big.NewInt(0)
					for i := range s {
						x := i
						if i == n-1 {
							x = 0
						}
						w = ref.Add(w, ref.Mul(ks[t[x]], ks[(t[x]*2+rot+x)%len(ks)]))
					}
					var e ristretto.Element
					isK(c, fm.f(&e, s, p), w, "%s %v with an operand given twice", fm.name, t)
					isK(c, fm.f(p[0], s, p), w, "%s %v with an operand given twice and used for the result", fm.name, t)
				}
			}
			if n == 0 {
				break
			}
		}
		if n == 0 {
			break
		}
	}
	c.Distinct("multi", t)
}

// many checks sums of n products: the whole, and for every place the change made by another scalar and by
// another element there.
func many(c *lib.Ctx, n int) {
	var s []*ristretto.Scalar
	var p []*ristretto.Element
	var a, b []*big.Int
	sum := big.NewInt(0)
	for i := 0; i < n; i++ {
		a = append(a, sim.RandScalar(fmt.Sprint("c20 many a", i)))
		b = append(b, sim.RandScalar(fmt.Sprint("c20 many b", i)))
		s = append(s, sim.Sc(a[i]))
		p = append(p, sim.Reps(b[i])[i%7].E)
		sum = ref.Add(sum, ref.Mul(a[i], b[i]))
	}
	try := func(what string, w *big.Int) {
		var e, f ristretto.Element
		isK(c, e.MultiScalarMult(s, p), w, "MultiScalarMult of %d terms, %s", n, what)
		isK(c, f.VarTimeMultiScalarMult(s, p), w, "VarTimeMultiScalarMult of %d terms, %s", n, what)
	}
	try("all", sum)
	for i := 0; i < n; i++ {
		if n > 40 && i > 3 && i < n-3 && i%8 != 0 {
			continue
		}
		old, oldP := s[i], p[i]
		s[i] = sim.Sc(big.NewInt(3))
		try(fmt.Sprintf("scalar %d changed", i), ref.Add(ref.Sub(sum, ref.Mul(a[i], b[i])), ref.Mul(big.NewInt(3), b[i])))
		s[i], p[i] = old, ristretto.NewIdentityElement()
		try(fmt.Sprintf("element %d neutral", i), ref.Sub(sum, ref.Mul(a[i], b[i])))
		p[i] = oldP
	}
	c.Distinct("many", n)
}
