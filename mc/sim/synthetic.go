//go:build go1.21

package sim

import (
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
)

// Synthetic fills in the honest messages as party i sees them without running the other parties: their
// messages are made by the reference. For groups so large that running everybody takes too long.
func (w *World) Synthetic(i party.ID) {
	r := &Run{IDs: w.IDs, Sent: map[party.ID][][][]byte{}}
	s := w.Proto(i, 0).New()
	r.Sent[i] = [][][]byte{s.Process()}
	nonce := func(j party.ID, half string) *big.Int {
		return RandScalar(fmt.Sprintf("synthetic/%s/%s/%d", w.Label, half, j))
	}
	for _, j := range w.IDs {
		if j == i {
			continue
		}
		var first []byte
		if w.Keygen {
			first = MakeK1(j, j, w.AltPoly(j, w.T, "synthetic"))
		} else {
			first = MakeS1(j, BaseEnc(nonce(j, "d")), BaseEnc(nonce(j, "e")))
		}
		r.Sent[j] = [][][]byte{{first}}
	}
	w.Run = r
	var v *View
	if !w.Keygen {
		v = w.viewWith(nil)
	}
	for _, j := range w.IDs {
		if j == i {
			continue
		}
		var second []byte
		if w.Keygen {
			second = MakeK2(j, i, ref.Eval(w.AltPoly(j, w.T, "synthetic"), ref.Int(int64(i))))
		} else {
			second = MakeS2(j, v.Share(j, nonce(j, "d"), nonce(j, "e"), w.Keys.Share[j]))
		}
		r.Sent[j] = append(r.Sent[j], [][]byte{second})
	}
}
