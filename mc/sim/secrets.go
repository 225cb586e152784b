//go:build go1.21

package sim

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
)

// Secrets lists everything the session must forget.
func Secrets(w *World, s *Sess, m *Model) map[string][]byte {
	sc, raw := SecretScalars(w, s, m)
	out := map[string][]byte{}
	for n, v := range sc {
		if v.BitLen() < 64 {
			continue
		}
		le := ref.LE(v)
		be := make([]byte, 32)
		for i := range be {
			be[i] = le[31-i]
		}
		out[n] = le
		out[n+" (big endian)"] = be
		out[n+" (negated)"] = ref.LE(ref.Sub(big.NewInt(0), v))
		out[n+" (inverted)"] = ref.LE(ref.Inv(v))
		out[n+" (hex)"] = []byte(hex.EncodeToString(le))
		out[n+" (hex, big endian)"] = []byte(hex.EncodeToString(be))
		out[n+" (base64)"] = []byte(base64.StdEncoding.EncodeToString(le)[:42])
		out[n+" (decimal)"] = []byte(v.String())
	}
	for n, b := range raw {
		out[n] = b
	}
	return out
}

// SecretScalars lists the same as numbers, and the raw randomness.
func SecretScalars(w *World, s *Sess, m *Model) (map[string]*big.Int, map[string][]byte) {
	sc := map[string]*big.Int{}
	raw := map[string][]byte{}
	var ks []*big.Int
	for o := 0; o+64 <= len(s.Rnd.Out); o += 64 {
		k := ref.Wide(s.Rnd.Out[o : o+64])
		ks = append(ks, k)
		sc[fmt.Sprintf("scalar %d drawn", o/64)] = k
		raw[fmt.Sprintf("raw randomness %d", o/64)] = s.Rnd.Out[o : o+32]
		raw[fmt.Sprintf("raw randomness %d (second half)", o/64)] = s.Rnd.Out[o+32 : o+64]
	}
	if w.Keygen {
		var sum *big.Int
		if len(ks) >= w.T+1 {
			for _, id := range w.IDs {
				x := ref.Eval(ks[:w.T+1], ref.Int(int64(id)))
				sc[fmt.Sprintf("polynomial evaluated at %d", id)] = x
				if id == s.ID {
					sum = x
				}
			}
		}
		for _, id := range w.IDs {
			if b, ok := m.Acc[2][id]; ok {
				x := ref.FromLE(b[5:37])
				sc[fmt.Sprintf("share received from %d", id)] = x
				if sum != nil {
					sum = ref.Add(sum, x)
					sc[fmt.Sprintf("sum of shares up to %d", id)] = sum
				}
			}
		}
	} else {
		x := w.Keys.Share[s.ID]
		sc["key share"] = x
		sc["weighted key share"] = ref.Mul(x, ref.Lagrange(uint16(s.ID), U(w.IDs)))
		for i, a := range ks {
			for j, b := range ks {
				if i < j {
					sc[fmt.Sprintf("sum of scalars %d and %d", i, j)] = ref.Add(a, b)
				}
			}
		}
	}
	return sc, raw
}
