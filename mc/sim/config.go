//go:build go1.21

package sim

import (
	"bytes"
	"crypto/ed25519"
	"fmt"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
)

// IDAlphabet are identifiers around the places where representations change.
var IDAlphabet = []party.ID{1, 2, 3, 127, 128, 255, 256, 257, 258, 512, 32767, 32768, 65534, 65535}

// IDSets returns every n-element subset of the alphabet, in order.
func IDSets(alphabet []party.ID, n int) []party.IDSlice {
	var out []party.IDSlice
	var rec func(from int, cur []party.ID)
	rec = func(from int, cur []party.ID) {
		if len(cur) == n {
			out = append(out, append(party.IDSlice(nil), cur...))
			return
		}
		for i := from; i < len(alphabet); i++ {
			rec(i+1, append(cur, alphabet[i]))
		}
	}
	rec(0, nil)
	return out
}

// Sub returns every subset of ids with lo <= size <= hi.
func Sub(ids []party.ID, lo, hi int) []party.IDSlice {
	var out []party.IDSlice
	for n := lo; n <= hi && n <= len(ids); n++ {
		out = append(out, IDSets(ids, n)...)
	}
	return out
}

// Spread returns n identifiers that are far apart, the last one 65535.
func Spread(n int) party.IDSlice {
	var out party.IDSlice
	for i := 0; i < n; i++ {
		out = append(out, party.ID(65535-(n-1-i)*(65000/n)))
	}
	return out
}

// First returns 1..n.
func Seq(n int) party.IDSlice {
	var out party.IDSlice
	for i := 1; i <= n; i++ {
		out = append(out, party.ID(i))
	}
	return out
}

// CheckSig checks a released signature with both verifiers.
func CheckSig(pub *eddsa.Public, msg []byte, sig *eddsa.Signature) error {
	if sig == nil {
		return fmt.Errorf("no signature")
	}
	b := sig.ToEd25519()
	if len(b) != 64 {
		return fmt.Errorf("the Ed25519 form has %d bytes", len(b))
	}
	if !ed25519.Verify(ed25519.PublicKey(pub.GroupKey.ToEd25519()), msg, b) {
		return fmt.Errorf("the standard Ed25519 verifier rejects the signature")
	}
	if !pub.GroupKey.Verify(msg, sig) {
		return fmt.Errorf("the library's verifier rejects the signature")
	}
	return nil
}

// SameSigs checks that all signers hold the same valid signature.
func (r *Run) SameSigs(pub *eddsa.Public, msg []byte) error {
	var first []byte
	for _, id := range r.IDs {
		sig := r.Sess[id].SG.Signature
		if err := CheckSig(pub, msg, sig); err != nil {
			return fmt.Errorf("signer %d: %v", id, err)
		}
		b, err := sig.MarshalBinary()
		if err != nil {
			return err
		}
		if first == nil {
			first = b
		} else if !bytes.Equal(first, b) {
			return fmt.Errorf("signer %d has a different signature", id)
		}
	}
	return nil
}
