//go:build go1.21

package sim

import (
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
)

// Mutant is a byte string derived from a message.
type Mutant struct {
	Name string
	B    []byte
}

// Fields32 are the values put in the place of a 32-byte field.
func Fields32() map[string][]byte {
	add := func(a *big.Int, d int64) *big.Int { return new(big.Int).Add(a, big.NewInt(d)) }
	ones := make([]byte, 32)
	for i := range ones {
		ones[i] = 0xff
	}
	top := ref.LE(big.NewInt(1))
	top[31] = 0x80
	neg := BaseEnc(big.NewInt(5))
	negB := ref.LE(new(big.Int).Sub(ref.P, ref.FromLE(neg)))
	return map[string][]byte{
		"0": make([]byte, 32), "1": ref.LE(big.NewInt(1)), "2": ref.LE(big.NewInt(2)),
		"q-1": ref.LE(add(ref.Q, -1)), "q": ref.LE(ref.Q), "q+1": ref.LE(add(ref.Q, 1)),
		"2q": ref.LE(new(big.Int).Lsh(ref.Q, 1)), "2^252": ref.LE(new(big.Int).Lsh(big.NewInt(1), 252)),
		"2^253": ref.LE(new(big.Int).Lsh(big.NewInt(1), 253)),
		"p-1":   ref.LE(add(ref.P, -1)), "p": ref.LE(ref.P), "p+1": ref.LE(add(ref.P, 1)), "p+2": ref.LE(add(ref.P, 2)),
		"2^255-1": ref.LE(add(new(big.Int).Lsh(big.NewInt(1), 255), -1)), "2^256-1": ones, "1+2^255": top,
		"B": BaseEnc(big.NewInt(1)), "5B": neg, "p-5B": negB,
	}
}

// sortedKeys gives a fixed order.
func sortedKeys(m map[string][]byte) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// Mutants enumerates damage to an encoded message: every truncation, extensions, every value of the
// kind byte, every identifier of an alphabet in both header fields, every special value in every
// 32-byte field (and in the field after one cut out, doubled or exchanged), degree fields, and every
// single-bit flip.
func Mutants(b []byte, ids []party.ID, bits bool) []Mutant {
	var out []Mutant
	add := func(name string, x []byte) { out = append(out, Mutant{name, x}) }
	for n := 0; n < len(b); n++ {
		add(fmt.Sprintf("cut to %d", n), b[:n:n])
	}
	for _, n := range []int{1, 2, 31, 32, 33, 64, 4096} {
		add(fmt.Sprintf("%d zero bytes appended", n), Cat(b, make([]byte, n)))
	}
	add("doubled", Cat(b, b))
	add("last 32 bytes repeated", Cat(b, b[len(b)-32:]))
	set := func(off int, v ...byte) []byte {
		x := append([]byte(nil), b...)
		copy(x[off:], v)
		return x
	}
	for t := 0; t < 256; t++ {
		add(fmt.Sprintf("kind %d", t), set(0, byte(t)))
	}
	for _, id := range ids {
		add(fmt.Sprintf("from %d", id), set(1, byte(id>>8), byte(id)))
		add(fmt.Sprintf("to %d", id), set(3, byte(id>>8), byte(id)))
		for _, id2 := range ids {
			add(fmt.Sprintf("from %d to %d", id, id2), set(1, byte(id>>8), byte(id), byte(id2>>8), byte(id2)))
		}
		for t := 1; t <= 4; t++ {
			add(fmt.Sprintf("kind %d to %d", t, id), Cat([]byte{byte(t)}, b[1:3], []byte{byte(id >> 8), byte(id)}, b[5:]))
		}
	}
	f := Fields32()
	var offs []int
	if Typ(b) == K1 {
		offs = []int{5, 37}
		for o := 5 + 64 + 2; o+32 <= len(b); o += 32 {
			offs = append(offs, o)
		}
		deg := int(b[69])<<8 | int(b[70])
		for _, d := range []int{0, 1, 2, 3, deg - 1, deg + 1, 255, 256, 257, deg << 8, 32767, 32768, 65534, 65535} {
			add(fmt.Sprintf("degree %d", d), set(69, byte(d>>8), byte(d)))
			if d >= 0 && d < 6 && d != deg {
				x := append([]byte(nil), b[:69]...)
				x = append(x, byte(d>>8), byte(d))
				for i := 0; i <= d; i++ {
					x = append(x, BaseEnc(big.NewInt(int64(i+3)))...)
				}
				add(fmt.Sprintf("degree %d with as many points", d), x)
			}
		}
		add("no commitments at all", Cat(b[:69], []byte{0xff, 0xff}))
		add("no degree", Cat(b[:69], b[71:]))
		add("degree byte lost", Cat(b[:69], b[70:]))
	} else {
		for o := 5; o+32 <= len(b); o += 32 {
			offs = append(offs, o)
		}
	}
	for _, o := range offs {
		for _, k := range sortedKeys(f) {
			add(fmt.Sprintf("bytes %d..%d = %s", o, o+31, k), set(o, f[k]...))
		}
		add(fmt.Sprintf("bytes %d..%d removed", o, o+31), Cat(b[:o], b[o+32:]))
		x := append([]byte(nil), b...)
		for i := 0; i < 16; i++ {
			x[o+i], x[o+31-i] = x[o+31-i], x[o+i]
		}
		add(fmt.Sprintf("bytes %d..%d reversed", o, o+31), x)
	}
	if bits {
		for i := 0; i < 8*len(b); i++ {
			x := append([]byte(nil), b...)
			x[i/8] ^= 1 << (i % 8)
			add(fmt.Sprintf("bit %d flipped", i), x)
		}
	}
	return out
}

// Short enumerates short byte strings: all of length 0..n.
func Short(n int) []Mutant {
	out := []Mutant{{"empty", []byte{}}}
	for l := 1; l <= n; l++ {
		for v := 0; v < 1<<(8*l); v++ {
			b := make([]byte, l)
			for i := range b {
				b[i] = byte(v >> (8 * i))
			}
			out = append(out, Mutant{fmt.Sprintf("%x", b), b})
		}
	}
	return out
}

// Canonical reports whether b is a complete message in the only valid encoding, by the reference.
func Canonical(b []byte) bool {
	if len(b) < 5 || From(b) == 0 {
		return false
	}
	scalar := func(o int) bool { return ref.FromLE(b[o:o+32]).Cmp(ref.Q) < 0 }
	point := func(o int) bool {
		return memoize(func() interface{} { _, ok := ref.DecodeRistretto(b[o : o+32]); return ok }, []byte("valid"), b[o:o+32]).(bool)
	}
	switch Typ(b) {
	case K1:
		if To(b) != 0 || len(b) < 71 {
			return false
		}
		d := int(b[69])<<8 | int(b[70])
		if d == 65535 || len(b) != 71+32*(d+1) || // at most 65535 parties: no degree above 65534
			!scalar(5) || !scalar(37) {
			return false
		}
		for i := 0; i <= d; i++ {
			if !point(71 + 32*i) {
				return false
			}
		}
		return true
	case K2:
		return To(b) != 0 && len(b) == 37 && scalar(5)
	case S1:
		return To(b) == 0 && len(b) == 69 && point(5) && point(37)
	case S2:
		return To(b) == 0 && len(b) == 37 && scalar(5)
	}
	return false
}
