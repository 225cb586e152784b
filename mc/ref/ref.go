//go:build go1.21

// Package ref is an independent reference for the arithmetic the protocols rest on: integers
// modulo the group order, the edwards25519 curve and the ristretto255 encoding, straight from
// RFC 8032 / RFC 9496. It shares no code with the library under test.
package ref

import (
	"crypto/sha512"
	"math/big"
)

var (
	one = big.NewInt(1)
	two = big.NewInt(2)
	// P is the field prime, Q the group order.
	P, Q     *big.Int
	fOne     = fe{1}
	fTwo     = fe{2}
	d, d2    fe
	sqrtM1   fe
	invAMD   fe // 1/sqrt(a-d)
	sqrtADM1 fe // sqrt(a*d-1), the root RFC 9496 prescribes
	baseX    fe
	baseY    fe
	baseTab  [64][16]Point // baseTab[i][k] is k*16^i times the base point
)

func bigs(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad constant")
	}
	return v
}

func init() {
	P = new(big.Int).Sub(new(big.Int).Lsh(one, 255), big.NewInt(19))
	Q = new(big.Int).Add(new(big.Int).Lsh(one, 252), bigs("27742317777372353535851937790883648493"))
	selfTest()
	d = fmul(fneg(fe{121665}), finv(fe{121666}))
	d2 = fadd(d, d)
	sqrtADM1 = fromBig(bigs("25063068953384623474111414158702152701244531502492656460079210482610430750235"))
	sqrtM1 = fabs(fexp(fTwo, new(big.Int).Rsh(new(big.Int).Sub(P, one), 2)))
	_, invAMD = sqrtRatio(fOne, fsub(fneg(fOne), d))
	baseY = fmul(fe{4}, finv(fe{5}))
	x, ok := recoverX(baseY, 0)
	if !ok {
		panic("base")
	}
	baseX = x
	b := fromAffine(baseX, baseY)
	for i := range baseTab {
		baseTab[i][0] = Identity()
		for k := 1; k < 16; k++ {
			baseTab[i][k] = baseTab[i][k-1].Add(b)
		}
		b = baseTab[i][15].Add(b)
	}
}

// sqrtRatio is SQRT_RATIO_M1 of RFC 9496.
func sqrtRatio(u, v fe) (bool, fe) {
	e := new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(5)), 3)
	v3 := fmul(fmul(v, v), v)
	v7 := fmul(fmul(v3, v3), v)
	r := fmul(fmul(u, v3), fexp(fmul(u, v7), e))
	check := fmul(v, fmul(r, r))
	correct := feq(check, u)
	flipped := feq(check, fneg(u))
	flippedI := feq(check, fmul(fneg(u), sqrtM1))
	if flipped || flippedI {
		r = fmul(r, sqrtM1)
	}
	return correct || flipped, fabs(r)
}

// Point is an edwards25519 point in extended coordinates.
type Point struct{ X, Y, Z, T fe }

func fromAffine(x, y fe) Point { return Point{x, y, fOne, fmul(x, y)} }

// Identity returns the neutral element.
func Identity() Point { return fromAffine(fe{}, fOne) }

// Base returns the base point.
func Base() Point { return fromAffine(baseX, baseY) }

// Add is the complete addition law (add-2008-hwcd-3 with a=-1).
func (p Point) Add(q Point) Point {
	A := fmul(fsub(p.Y, p.X), fsub(q.Y, q.X))
	B := fmul(fadd(p.Y, p.X), fadd(q.Y, q.X))
	C := fmul(fmul(p.T, d2), q.T)
	D := fmul(fadd(p.Z, p.Z), q.Z)
	E := fsub(B, A)
	F := fsub(D, C)
	G := fadd(D, C)
	H := fadd(B, A)
	return Point{fmul(E, F), fmul(G, H), fmul(F, G), fmul(E, H)}
}

// Neg returns -p.
func (p Point) Neg() Point { return Point{fneg(p.X), p.Y, p.Z, fneg(p.T)} }

// Mul returns [k]p for k >= 0.
func (p Point) Mul(k *big.Int) Point {
	var tab [16]Point
	tab[0] = Identity()
	for i := 1; i < 16; i++ {
		tab[i] = tab[i-1].Add(p)
	}
	r := Identity()
	for i := (k.BitLen() + 3) / 4 * 4; i > 0; i -= 4 {
		r = r.Add(r)
		r = r.Add(r)
		r = r.Add(r)
		r = r.Add(r)
		if n := nibble(k, i-4); n != 0 {
			r = r.Add(tab[n])
		}
	}
	return r
}

func nibble(k *big.Int, i int) uint {
	return k.Bit(i) | k.Bit(i+1)<<1 | k.Bit(i+2)<<2 | k.Bit(i+3)<<3
}

// BaseMul returns [k]B for 0 <= k < 2^256.
func BaseMul(k *big.Int) Point {
	r := Identity()
	for i := range baseTab {
		if n := nibble(k, 4*i); n != 0 {
			r = r.Add(baseTab[i][n])
		}
	}
	return r
}

// Clean removes the torsion component: the multiple of the base point in p's ristretto class.
func (p Point) Clean() Point { return p.Mul(big.NewInt(8)).Mul(Inv(big.NewInt(8))) }

// EncodeEd is the RFC 8032 encoding.
func (p Point) EncodeEd() []byte {
	zi := finv(p.Z)
	x, y := fmul(p.X, zi), fmul(p.Y, zi)
	b := y.bytes()
	if isNeg(x) {
		b[31] |= 0x80
	}
	return b
}

func recoverX(y fe, sign uint64) (fe, bool) {
	yy := fmul(y, y)
	ok, x := sqrtRatio(fsub(yy, fOne), fadd(fmul(d, yy), fOne))
	if !ok {
		return fe{}, false
	}
	if full(x)[0]&1 != sign {
		x = fneg(x)
	}
	return x, true
}

// EqualRistretto compares as ristretto elements.
func (p Point) EqualRistretto(q Point) bool {
	return feq(fmul(p.X, q.Y), fmul(p.Y, q.X)) || feq(fmul(p.Y, q.Y), fmul(p.X, q.X))
}

// EncodeRistretto is the RFC 9496 encoding.
func (p Point) EncodeRistretto() []byte {
	x0, y0, z0, t0 := p.X, p.Y, p.Z, p.T
	u1 := fmul(fadd(z0, y0), fsub(z0, y0))
	u2 := fmul(x0, y0)
	_, inv := sqrtRatio(fOne, fmul(u1, fmul(u2, u2)))
	den1, den2 := fmul(inv, u1), fmul(inv, u2)
	zInv := fmul(fmul(den1, den2), t0)
	ix0, iy0 := fmul(x0, sqrtM1), fmul(y0, sqrtM1)
	ench := fmul(den1, invAMD)
	x, y, denInv := x0, y0, den2
	if isNeg(fmul(t0, zInv)) {
		x, y, denInv = iy0, ix0, ench
	}
	if isNeg(fmul(x, zInv)) {
		y = fneg(y)
	}
	return fabs(fmul(denInv, fsub(z0, y))).bytes()
}

// DecodeRistretto is the RFC 9496 decoding.
func DecodeRistretto(b []byte) (Point, bool) {
	if len(b) != 32 {
		return Point{}, false
	}
	if v := FromLE(b); v.Cmp(P) >= 0 || v.Bit(0) == 1 {
		return Point{}, false
	}
	s := fromBig(FromLE(b))
	ss := fmul(s, s)
	u1, u2 := fsub(fOne, ss), fadd(fOne, ss)
	u2s := fmul(u2, u2)
	v := fsub(fneg(fmul(d, fmul(u1, u1))), u2s)
	ok, inv := sqrtRatio(fOne, fmul(v, u2s))
	denX := fmul(inv, u2)
	denY := fmul(fmul(inv, denX), v)
	x := fabs(fmul(fmul(fTwo, s), denX))
	y := fmul(u1, denY)
	t := fmul(x, y)
	if !ok || isNeg(t) || fzero(y) {
		return Point{}, false
	}
	return fromAffine(x, y), true
}

// LE encodes a (0 <= a < 2^256) in 32 little-endian bytes.
func LE(a *big.Int) []byte {
	out := make([]byte, 32)
	be := a.Bytes()
	for i := range be {
		out[i] = be[len(be)-1-i]
	}
	return out
}

// FromLE reads a little-endian integer.
func FromLE(b []byte) *big.Int {
	be := make([]byte, len(b))
	for i := range b {
		be[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(be)
}

// Mod reduces modulo the group order.
func Mod(a *big.Int) *big.Int { return new(big.Int).Mod(a, Q) }

// Wide reduces 64 little-endian bytes modulo the group order.
func Wide(b []byte) *big.Int { return Mod(FromLE(b)) }

// Add, Sub, Mul, Inv are arithmetic modulo the group order.
func Add(a, b *big.Int) *big.Int { return Mod(new(big.Int).Add(a, b)) }
func Sub(a, b *big.Int) *big.Int { return Mod(new(big.Int).Sub(a, b)) }
func Mul(a, b *big.Int) *big.Int { return Mod(new(big.Int).Mul(a, b)) }
func Inv(a *big.Int) *big.Int    { return new(big.Int).ModInverse(Mod(a), Q) }

// Int makes a big integer.
func Int(x int64) *big.Int { return big.NewInt(x) }

// Lagrange returns the coefficient at zero of id within ids.
func Lagrange(id uint16, ids []uint16) *big.Int {
	num, den := big.NewInt(1), big.NewInt(1)
	for _, j := range ids {
		if j == id {
			continue
		}
		num = Mul(num, Int(int64(j)))
		den = Mul(den, Int(int64(j)-int64(id)))
	}
	return Mul(num, Inv(den))
}

// Interpolate0 interpolates the values at zero.
func Interpolate0(vals map[uint16]*big.Int) *big.Int {
	ids := make([]uint16, 0, len(vals))
	for id := range vals {
		ids = append(ids, id)
	}
	s := big.NewInt(0)
	for id, v := range vals {
		s = Add(s, Mul(Lagrange(id, ids), v))
	}
	return s
}

// Eval evaluates a polynomial (constant term first).
func Eval(coeffs []*big.Int, x *big.Int) *big.Int {
	r := big.NewInt(0)
	for i := len(coeffs) - 1; i >= 0; i-- {
		r = Add(Mul(r, x), coeffs[i])
	}
	return r
}

// Challenge is the Ed25519 challenge for encoded R, A and a message.
func Challenge(R, A, msg []byte) *big.Int {
	h := sha512.New()
	h.Write(R)
	h.Write(A)
	h.Write(msg)
	return Wide(h.Sum(nil))
}

// ZKChallenge is the Fiat-Shamir challenge of a proof of knowledge: SHA-512 over identifier (big
// endian), 32-byte context, public value, commitment, reduced modulo the group order.
func ZKChallenge(id uint16, ctx, public, M []byte) *big.Int {
	h := sha512.New()
	h.Write([]byte{byte(id >> 8), byte(id)})
	h.Write(ctx[:32])
	h.Write(public)
	h.Write(M)
	return Wide(h.Sum(nil))
}

// Binding returns the binding factor of one signer: SHA-512 over the domain separator, its
// identifier, the hashed message and the list of all (identifier, D, E) in order.
func Binding(id uint16, msg []byte, list []byte) *big.Int {
	mh := sha512.Sum512(msg)
	h := sha512.New()
	h.Write([]byte("FROST-SHA512"))
	h.Write([]byte{byte(id >> 8), byte(id)})
	h.Write(mh[:])
	h.Write(list)
	return Wide(h.Sum(nil))
}

// mapToPoint is MAP of RFC 9496, section 4.3.4.
func mapToPoint(t fe) Point {
	r := fmul(sqrtM1, fmul(t, t))
	u := fmul(fadd(r, fOne), fsub(fOne, fmul(d, d)))
	v := fmul(fsub(fneg(fOne), fmul(r, d)), fadd(r, d))
	ok, s := sqrtRatio(u, v)
	sp := fneg(fabs(fmul(s, t)))
	c := fneg(fOne)
	if !ok {
		s, c = sp, r
	}
	dm := fsub(d, fOne)
	N := fsub(fmul(fmul(c, fsub(r, fOne)), fmul(dm, dm)), v)
	w0 := fmul(fmul(fTwo, s), v)
	w1 := fmul(N, sqrtADM1)
	ss := fmul(s, s)
	w2, w3 := fsub(fOne, ss), fadd(fOne, ss)
	return Point{fmul(w0, w3), fmul(w2, w1), fmul(w1, w3), fmul(w0, w2)}
}

// FromUniform is the element derivation of RFC 9496, section 4.3.4.
func FromUniform(b []byte) Point {
	half := func(b []byte) fe {
		x := FromLE(b)
		return fromBig(x.SetBit(x, 255, 0))
	}
	return mapToPoint(half(b[:32])).Add(mapToPoint(half(b[32:])))
}

// Torsion4 returns which 4-torsion point p is when its class is neutral: 0 for (0,1), 1 for (0,-1),
// 2 and 3 for the points of order 4.
func (p Point) Torsion4() int {
	zi := finv(p.Z)
	x, y := fmul(p.X, zi), fmul(p.Y, zi)
	switch {
	case fzero(x) && feq(y, fOne):
		return 0
	case fzero(x):
		return 1
	case feq(x, sqrtM1):
		return 2
	}
	return 3
}
