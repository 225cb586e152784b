//go:build go1.21

// C22: secret polynomials and their public commitments agree at every point.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C22", Level: "exploration",
		Rule:   "polynomials of every degree in the bound over coefficient alphabets (zero, one, order minus one, generic, in every position) are evaluated at an alphabet of identifiers and compared with the polynomial interpolated from degree+1 of their values with big-integer arithmetic; committed polynomials are compared coefficient by coefficient and value by value with multiples of the base point of the reference curve; all pairs of degrees for addition; all operation sequences of length 3 over add, copy, reset, sum, evaluate, encode on two committed polynomials against a model",
		Bounds: "degrees 0..6 with coefficient tuples over 4 values (up to degree 3 all tuples), single degrees up to 257 in full and up to 4097 (thorough: 65534) at three points; 23 identifiers; all 65535 identifiers for the secret polynomial of degree 3 and (thorough) the committed one",
	}, run)
}

var ids = append([]party.ID{4, 5, 6, 7, 16, 254, 1000, 4095, 40000}, sim.IDAlphabet...)

func window(x *big.Int) []byte { return append(ref.LE(x), make([]byte, 32)...) }

// poly makes a polynomial with (if the library draws coefficients in order) the given coefficients.
func poly(co []*big.Int) *polynomial.Polynomial {
	var b []byte
	for _, x := range co[1:] {
		b = append(b, window(x)...)
	}
	rnd.Use(rnd.Fixed(fmt.Sprint(co), b))
	defer rnd.Use(nil)
	return polynomial.NewPolynomial(party.Size(len(co)-1), sim.Sc(co[0]))
}

// recover finds the coefficients from values only.
func recover_(c *lib.Ctx, p *polynomial.Polynomial, deg int) []*big.Int {
	// Newton's divided differences over 1..deg+1
	n := deg + 1
	xs, dd := make([]*big.Int, n), make([]*big.Int, n)
	for i := 0; i < n; i++ {
		xs[i] = big.NewInt(int64(i + 1))
		dd[i] = sim.Big(p.Evaluate(sim.Sc(xs[i])))
	}
	for j := 1; j < n; j++ {
		for i := n - 1; i >= j; i-- {
			dd[i] = ref.Mul(ref.Sub(dd[i], dd[i-1]), ref.Inv(ref.Sub(xs[i], xs[i-j])))
		}
	}
	co := []*big.Int{big.NewInt(0)}
	for i := n - 1; i >= 0; i-- {
		next := make([]*big.Int, len(co)+1)
		for k := range next {
			next[k] = big.NewInt(0)
		}
		for k, x := range co {
			next[k+1] = ref.Add(next[k+1], x)
			next[k] = ref.Sub(next[k], ref.Mul(x, xs[i]))
		}
		next[0] = ref.Add(next[0], dd[i])
		co = next
	}
	return co[:n]
}

func coeffs(c *lib.Ctx, e *polynomial.Exponent) [][]byte {
	b, err := e.MarshalBinary()
	if err != nil || len(b) < 2 || (len(b)-2)%32 != 0 {
		c.Failf("a committed polynomial encodes to %x, %v", b, err)
	}
	var out [][]byte
	for o := 2; o < len(b); o += 32 {
		out = append(out, b[o:o+32])
	}
	return out
}

func check(c *lib.Ctx, co []*big.Int, points []party.ID) {
	deg := len(co) - 1
	p := poly(co)
	c.Check(int(p.Degree()) == deg && p.Size() == deg+1, "degree of a polynomial made with degree %d is %d (size %d)", deg, p.Degree(), p.Size())
	c.Check(sim.Big(p.Constant()).Cmp(co[0]) == 0, "constant of the polynomial is %v, expected %v", sim.Big(p.Constant()), co[0])
	got := recover_(c, p, deg)
	c.Check(got[0].Cmp(co[0]) == 0, "degree %d: %d values interpolate to %v at zero, the constant is %v", deg, deg+1, got[0], co[0])
	e := polynomial.NewPolynomialExponent(p)
	c.Check(int(e.Degree()) == deg, "degree of the commitments to a polynomial of degree %d is %d", deg, e.Degree())
	enc := coeffs(c, e)
	c.Check(len(enc) == deg+1, "%d commitments for degree %d", len(enc), deg)
	for i := range enc {
		c.Check(bytes.Equal(enc[i], sim.BaseEnc(got[i])), "commitment %d of degree %d is not the commitment to the coefficient interpolated from the values", i, deg)
	}
	c.Check(bytes.Equal(e.Constant().Bytes(), enc[0]), "Constant of the commitments differs from the first commitment")
	multi := e.EvaluateMulti(points)
	c.Check(len(multi) == len(points), "EvaluateMulti gives %d values for %d points", len(multi), len(points))
	for _, id := range points {
		x := big.NewInt(int64(id))
		want := ref.Eval(got, x)
		v := sim.Big(p.Evaluate(id.Scalar()))
		c.Check(v.Cmp(want) == 0, "degree %d at %d: value %v, the other values determine %v", deg, id, v, want)
		w := e.Evaluate(id.Scalar())
		c.Check(bytes.Equal(w.Bytes(), sim.BaseEnc(want)), "degree %d: the committed polynomial at %d is not the commitment to the value", deg, id)
		c.Check(multi[id] != nil && w.Equal(multi[id]) == 1, "EvaluateMulti differs from Evaluate at %d", id)
		c.Eval(3)
	}
	for i := range enc {
		c.Check(bytes.Equal(coeffs(c, e)[i], enc[i]), "evaluating changes commitment %d", i)
	}
	if lib.Catch(func() { p.Evaluate(ristretto.NewScalar()) }) == nil {
		c.Failf("a secret polynomial is evaluated at zero")
	}
	if lib.Catch(func() { e.Evaluate(ristretto.NewScalar()) }) == nil {
		c.Failf("a committed polynomial is evaluated at zero")
	}
	// reset
	p.Reset()
	for _, id := range points[:2] {
		c.Check(sim.Big(p.Evaluate(id.Scalar())).Sign() == 0, "a reset polynomial has value %v", sim.Big(p.Evaluate(id.Scalar())))
	}
	for i := range enc {
		c.Check(bytes.Equal(coeffs(c, e)[i], enc[i]), "resetting the polynomial changes commitment %d", i)
	}
	c.Distinct(deg, co)
}

// large compares values, commitments, sums and encodings of a polynomial of a high degree; the commitments of
// the values are computed with the library's base multiplication (C20 compares it with the reference).
func large(c *lib.Ctx, d int) {
	var co []*big.Int
	for i := 0; i <= d; i++ {
		co = append(co, sim.RandScalar(fmt.Sprint("huge", d, "/", i)))
	}
	p := poly(co)
	e := polynomial.NewPolynomialExponent(p)
	c.Check(int(p.Degree()) == d && int(e.Degree()) == d && p.Size() == d+1, "degree %d is reported as %d and %d", d, p.Degree(), e.Degree())
	b, err := e.MarshalBinary()
	c.Check(err == nil && len(b) == 2+32*(d+1), "degree %d: encoded in %d bytes, error %v", d, len(b), err)
	var back polynomial.Exponent
	c.Check(back.UnmarshalBinary(b) == nil && back.Equal(e), "degree %d: the encoding decodes to something else", d)
	for _, i := range []int{0, 1, d / 2, d - 1, d} {
		c.Check(bytes.Equal(b[2+32*i:34+32*i], sim.BaseEnc(co[i])), "degree %d: wrong commitment %d", d, i)
	}
	sum, err := polynomial.Sum([]*polynomial.Exponent{e, &back})
	c.Check(err == nil, "degree %d: no sum: %v", d, err)
	for _, id := range []party.ID{1, 2, 65535} {
		y := p.Evaluate(id.Scalar())
		c.Check(sim.Big(y).Cmp(ref.Eval(co, big.NewInt(int64(id)))) == 0, "degree %d: wrong value at %d", d, id)
		var w ristretto.Element
		w.ScalarBaseMult(y)
		c.Check(w.Equal(e.Evaluate(id.Scalar())) == 1, "degree %d: the committed polynomial at %d is not the commitment to the value", d, id)
		c.Check(w.Equal(back.Evaluate(id.Scalar())) == 1, "degree %d: the decoded committed polynomial at %d is not the commitment to the value", d, id)
		w.Add(&w, &w)
		c.Check(w.Equal(sum.Evaluate(id.Scalar())) == 1, "degree %d: wrong value of the sum at %d", d, id)
		c.Eval(4)
	}
	c.Beat()
	c.Distinct("huge", d)
}

func alphabet() []*big.Int {
	return []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(ref.Q, big.NewInt(1)), sim.RandScalar("c22")}
}

func run(c *lib.Ctx) {
	al := alphabet()
	for deg := 0; deg <= 6; deg++ {
		for k := range al {
			deg, k := deg, k
			c.Case(fmt.Sprintf("degree/%d constant %d", deg, k), func() {
				sizes := make([]int, deg)
				for i := range sizes {
					sizes[i] = len(al)
					if deg > c.Pick(2, 3) && i < deg-c.Pick(2, 3) {
						sizes[i] = 1
					}
				}
				n := 0
				lib.Tuples(sizes, func(t []int) {
					co := []*big.Int{al[k]}
					for i, j := range t {
						if sizes[i] == 1 {
							co = append(co, sim.RandScalar(fmt.Sprint("low", i)))
							continue
						}
						co = append(co, al[j])
					}
					n++
					points := ids
					if deg > 2 && n%4 != 0 {
						points = ids[n%3*3 : n%3*3+6]
					}
					check(c, co, points)
				})
				c.Sample("degree %d: %d coefficient tuples", deg, n)
			})
		}
	}
	degs := []int{7, 8, 15, 16, 31, 63, 127, 128, 189, 190, 191, 255, 256, 257}
	if !c.Quick() {
		degs = append(degs, 300, 511, 1000)
	}
	for _, d := range degs {
		d := d
		c.Case(fmt.Sprintf("degree/%d", d), func() {
			var co []*big.Int
			for i := 0; i <= d; i++ {
				co = append(co, sim.RandScalar(fmt.Sprint("large", i)))
			}
			pts := []party.ID{1, 2, 256, 65535}
			check(c, co, pts)
			c.Sample("degree %d", d)
		})
	}
	huge := []int{300, 333, 384, 400, 500, 511, 512, 513, 600, 767, 768, 900, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4096, 4097}
	if !c.Quick() {
		huge = append(huge, 3000, 5000, 8191, 8192, 8193, 16384, 20000, 32767, 32768, 65534)
	}
	for _, d := range huge {
		d := d
		c.Case(fmt.Sprintf("huge degree/%d", d), func() { large(c, d) })
	}
	for part := 0; part < 8; part++ {
		part := part
		c.Case(fmt.Sprintf("all identifiers/part %d", part), func() {
			co := []*big.Int{sim.RandScalar("a"), sim.RandScalar("b"), sim.RandScalar("c"), sim.RandScalar("d")}
			p := poly(co)
			got := recover_(c, p, 3)
			e := polynomial.NewPolynomialExponent(p)
			for v := 1 + part; v < 65536; v += 8 {
				x := party.ID(v).Scalar()
				y := p.Evaluate(x)
				c.Check(sim.Big(y).Cmp(ref.Eval(got, big.NewInt(int64(v)))) == 0, "value at %d", v)
				if !c.Quick() || v%64 < 8 {
					var w ristretto.Element
					c.Check(w.ScalarBaseMult(y).Equal(e.Evaluate(x)) == 1, "committed value at %d", v)
				}
				c.Eval(1)
			}
		})
	}
	// addition: all pairs of degrees
	for a := 0; a <= 5; a++ {
		for b := 0; b <= 5; b++ {
			a, b := a, b
			c.Case(fmt.Sprintf("sum/%d+%d", a, b), func() {
				p, q := random(a, "p"), random(b, "q")
				ep, eq := polynomial.NewPolynomialExponent(p), polynomial.NewPolynomialExponent(q)
				cp, cq := coeffs(c, ep), coeffs(c, eq)
				s, serr := polynomial.Sum([]*polynomial.Exponent{ep, eq})
				same(c, coeffs(c, ep), cp, "Sum changes its first operand")
				same(c, coeffs(c, eq), cq, "Sum changes its second operand")
				err := ep.Add(eq)
				same(c, coeffs(c, eq), cq, "Add changes its operand")
				c.Eval(2)
				if a != b {
					c.Check(err != nil && serr != nil, "adding degrees %d and %d gives errors %v, %v", a, b, err, serr)
					same(c, coeffs(c, ep), cp, "a refused addition changes the receiver")
					return
				}
				c.Check(err == nil && serr == nil, "adding degrees %d and %d: %v, %v", a, b, err, serr)
				for i := range cp {
					want := sim.AddEnc(cp[i], cq[i])
					c.Check(bytes.Equal(coeffs(c, ep)[i], want) && bytes.Equal(coeffs(c, s)[i], want), "coefficient %d of the sum of degree %d", i, a)
				}
				for _, id := range ids {
					v := ref.Add(sim.Big(p.Evaluate(id.Scalar())), sim.Big(q.Evaluate(id.Scalar())))
					c.Check(bytes.Equal(ep.Evaluate(id.Scalar()).Bytes(), sim.BaseEnc(v)), "the sum at %d is not the commitment to the sum", id)
					c.Eval(1)
				}
				c.Distinct("sum", a, b)
			})
		}
	}
	c.Case("sums of many", func() {
		for n := 1; n <= 6; n++ {
			for deg := 0; deg <= 2; deg++ {
				for bad := -1; bad < n; bad++ {
					var es []*polynomial.Exponent
					var cs [][][]byte
					for i := 0; i < n; i++ {
						d := deg
						if i == bad {
							d++
						}
						es = append(es, polynomial.NewPolynomialExponent(random(d, fmt.Sprint(i))))
						cs = append(cs, coeffs(c, es[i]))
					}
					s, err := polynomial.Sum(es)
					c.Check((err != nil) == (bad >= 0 && n > 1), "sum of %d polynomials with degree %d, one off at %d: %v", n, deg, bad, err)
					for i := range es {
						same(c, coeffs(c, es[i]), cs[i], "Sum changes an operand")
					}
					if err == nil && bad < 0 {
						for k := 0; k <= deg; k++ {
							var col [][]byte
							for i := range cs {
								col = append(col, cs[i][k])
							}
							c.Check(bytes.Equal(coeffs(c, s)[k], sim.AddEnc(col...)), "coefficient %d of a sum of %d", k, n)
						}
						s.Reset()
						for i := range es {
							same(c, coeffs(c, es[i]), cs[i], "a sum shares coefficients with an operand")
						}
					}
					c.Eval(1)
				}
			}
		}
	})
	// operation sequences against a model
	ops := []string{"x.Add(y)", "y.Add(x)", "x.Add(x)", "x=y.Copy()", "y=x.Copy()", "x.Reset()", "y.Reset()", "x=Sum(x,y)", "y=Sum(y,x,y)", "evaluate", "x=decode(encode(y))"}
	for f := range ops {
		f := f
		c.Case(fmt.Sprintf("sequences/%s", ops[f]), func() {
			n := c.Pick(3, 4)
			sizes := make([]int, n)
			for i := range sizes {
				sizes[i] = len(ops)
			}
			sizes[0] = 1
			lib.Tuples(sizes, func(t []int) {
				t[0] = f
				sequence(c, ops, t)
			})
		})
	}
}

func random(deg int, label string) *polynomial.Polynomial {
	rnd.Use(rnd.New(fmt.Sprint("c22 random", deg, label)))
	defer rnd.Use(nil)
	return polynomial.NewPolynomial(party.Size(deg), sim.Sc(sim.RandScalar(fmt.Sprint("c22", deg, label))))
}

func same(c *lib.Ctx, got, want [][]byte, what string) {
	c.Check(len(got) == len(want), "%s: degree", what)
	for i := range want {
		c.Check(bytes.Equal(got[i], want[i]), "%s: coefficient %d", what, i)
	}
}

func decodeExp(c *lib.Ctx, e *polynomial.Exponent) *polynomial.Exponent {
	b, err := e.MarshalBinary()
	var x polynomial.Exponent
	if err != nil || x.UnmarshalBinary(b) != nil {
		c.Failf("a committed polynomial does not survive encoding: %x", b)
	}
	return &x
}

func sequence(c *lib.Ctx, ops []string, t []int) {
	// model: coefficients as logarithms
	mx, my := []*big.Int{big.NewInt(3), big.NewInt(5)}, []*big.Int{big.NewInt(7), big.NewInt(11)}
	mk := func(m []*big.Int) *polynomial.Exponent { return polynomial.NewPolynomialExponent(poly(m)) }
	x, y := mk(mx), mk(my)
	add := func(a, b []*big.Int) []*big.Int {
		var out []*big.Int
		for i := range a {
			out = append(out, ref.Add(a[i], b[i]))
		}
		return out
	}
	z := []*big.Int{big.NewInt(0), big.NewInt(0)}
	var err error
	name := ""
	for _, k := range t {
		name += ops[k] + "; "
		switch k {
		case 0:
			err, mx = x.Add(y), add(mx, my)
		case 1:
			err, my = y.Add(x), add(my, mx)
		case 2:
			err, mx = x.Add(x), add(mx, mx)
		case 3:
			x, mx = y.Copy(), my
		case 4:
			y, my = x.Copy(), mx
		case 5:
			x.Reset()
			mx = z
		case 6:
			y.Reset()
			my = z
		case 7:
			x, err = polynomial.Sum([]*polynomial.Exponent{x, y})
			mx = add(mx, my)
		case 8:
			y, err = polynomial.Sum([]*polynomial.Exponent{y, x, y})
			my = add(add(my, mx), my)
		case 9:
			x.Evaluate(sim.Sc(big.NewInt(2)))
			y.EvaluateMulti(ids[:3])
		case 10:
			x, mx = decodeExp(c, y), my
		}
		c.Check(err == nil, "%s: %v", name, err)
		for i, e := range []*polynomial.Exponent{x, y} {
			m := [][]*big.Int{mx, my}[i]
			enc := coeffs(c, e)
			for j := range m {
				c.Check(len(enc) == len(m) && bytes.Equal(enc[j], sim.BaseEnc(m[j])), "after %s: coefficient %d of polynomial %d is wrong", name, j, i)
			}
			c.Check(e.Equal(x) == (i == 0 || eq(mx, my)), "after %s: Equal", name)
			c.State(1)
		}
		c.Trans(1)
	}
	c.Eval(1)
	c.Distinct("seq", t)
}

func eq(a, b []*big.Int) bool {
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}
