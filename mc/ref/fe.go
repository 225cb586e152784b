//go:build go1.21

package ref

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
)

// fe is an element of the field modulo P = 2^255-19: four limbs, any value below 2^256 (see full). It is
// checked against math/big when the program starts (see selfTest).
type fe [4]uint64

func fromBig(a *big.Int) fe {
	b := LE(new(big.Int).Mod(a, P))
	var r fe
	for i := range r {
		r[i] = binary.LittleEndian.Uint64(b[8*i:])
	}
	return r
}

func (a fe) bytes() []byte {
	a = full(a)
	out := make([]byte, 32)
	for i, w := range a {
		binary.LittleEndian.PutUint64(out[8*i:], w)
	}
	return out
}

func (a fe) big() *big.Int { return FromLE(a.bytes()) }

// fold adds c*2^256 = 38c.
func fold(r fe, c uint64) fe {
	for c != 0 {
		hi, lo := bits.Mul64(c, 38)
		var k uint64
		r[0], k = bits.Add64(r[0], lo, 0)
		r[1], k = bits.Add64(r[1], hi, k)
		r[2], k = bits.Add64(r[2], 0, k)
		r[3], k = bits.Add64(r[3], 0, k)
		c = k
	}
	return r
}

func fadd(a, b fe) fe {
	var r fe
	var k uint64
	for i := range r {
		r[i], k = bits.Add64(a[i], b[i], k)
	}
	return fold(r, k)
}

func fsub(a, b fe) fe {
	var r fe
	var k uint64
	for i := range r {
		r[i], k = bits.Sub64(a[i], b[i], k)
	}
	for k != 0 { // the value is 2^256 too big, that is, 38
		k2 := uint64(0)
		r[0], k2 = bits.Sub64(r[0], 38, 0)
		for i := 1; i < 4; i++ {
			r[i], k2 = bits.Sub64(r[i], 0, k2)
		}
		k = k2
	}
	return r
}

func fmul(a, b fe) fe {
	var t [8]uint64
	for i := 0; i < 4; i++ {
		var carry uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[i], b[j])
			var k uint64
			lo, k = bits.Add64(lo, t[i+j], 0)
			hi += k
			lo, k = bits.Add64(lo, carry, 0)
			hi += k
			t[i+j] = lo
			carry = hi
		}
		t[i+4] = carry
	}
	var r fe
	var carry uint64
	for i := 0; i < 4; i++ {
		hi, lo := bits.Mul64(t[i+4], 38)
		var k uint64
		lo, k = bits.Add64(lo, t[i], 0)
		hi += k
		lo, k = bits.Add64(lo, carry, 0)
		hi += k
		r[i] = lo
		carry = hi
	}
	return fold(r, carry)
}

// full reduces completely.
func full(a fe) fe {
	p := fe{0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff}
	for {
		var r fe
		var k uint64
		for i := range r {
			r[i], k = bits.Sub64(a[i], p[i], k)
		}
		if k != 0 {
			return a
		}
		a = r
	}
}

func fneg(a fe) fe { return fsub(fe{}, a) }

func fexp(a fe, e *big.Int) fe {
	r := fOne
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = fmul(r, r)
		if e.Bit(i) == 1 {
			r = fmul(r, a)
		}
	}
	return r
}

func finv(a fe) fe     { return fexp(a, new(big.Int).Sub(P, two)) }
func feq(a, b fe) bool { return full(a) == full(b) }
func fzero(a fe) bool  { return full(a) == fe{} }
func isNeg(a fe) bool  { return full(a)[0]&1 == 1 }
func fabs(a fe) fe {
	if isNeg(a) {
		return fneg(a)
	}
	return a
}

// selfTest compares the field arithmetic with math/big on the values around which the limbs carry.
func selfTest() {
	var vals []*big.Int
	for _, e := range []uint{0, 1, 5, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255} {
		for k := int64(-40); k <= 40; k += 1 {
			if k > -38 && k < -21 || k > 3 && k < 36 {
				continue
			}
			v := new(big.Int).Add(new(big.Int).Lsh(one, e), big.NewInt(k))
			if v.Sign() >= 0 {
				vals = append(vals, v)
			}
		}
	}
	top := new(big.Int).Lsh(one, 256)
	for k := int64(1); k < 4; k++ {
		vals = append(vals, new(big.Int).Sub(top, big.NewInt(k)), new(big.Int).Sub(P, big.NewInt(k)), new(big.Int).Lsh(P, 1))
	}
	raw := func(v *big.Int) fe { // not reduced
		b := LE(v)
		var r fe
		for i := range r {
			r[i] = binary.LittleEndian.Uint64(b[8*i:])
		}
		return r
	}
	same := func(what string, got fe, want *big.Int, a, b *big.Int) {
		if got.big().Cmp(new(big.Int).Mod(want, P)) != 0 {
			panic(fmt.Sprintf("ref: %s of %v and %v is wrong", what, a, b))
		}
	}
	for i, a := range vals {
		for j, b := range vals {
			if (i+j)%7 != 0 && i != j {
				continue
			}
			x, y := raw(a), raw(b)
			same("sum", fadd(x, y), new(big.Int).Add(a, b), a, b)
			same("difference", fsub(x, y), new(big.Int).Sub(a, b), a, b)
			same("product", fmul(x, y), new(big.Int).Mul(a, b), a, b)
		}
		m := new(big.Int).Mod(a, P)
		if i%16 == 0 && m.Sign() != 0 {
			same("inverse", finv(raw(a)), new(big.Int).ModInverse(m, P), a, a)
		}
	}
}
