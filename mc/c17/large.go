//go:build go1.21

package main

import (
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

// many makes a session of n signers as signer i sees it: the others' commitments are made up.
func many(n int, i int, msg []byte) session {
	all := sim.Spread(n)
	k := sim.Deal(all, 1, fmt.Sprint("c17 many", n))
	s := session{k: k, signers: all, msg: msg, first: map[party.ID][]byte{}, nonce: map[party.ID]string{all[i]: "c17 many"}}
	for j, id := range all {
		if j != i {
			s.first[id] = sim.MakeS1(id, sim.BaseEnc(ref.Int(int64(2*j+3))), sim.BaseEnc(ref.Int(int64(2*j+4))))
		}
	}
	return s
}

// large: with many signers, every half of every commitment counts, wherever its signer stands in the list.
func large(c *lib.Ctx) {
	ns := []int{7, 8, 9, 16, 17, 32, 33, 64, 100}
	if !c.Quick() {
		ns = append(ns, 65, 127, 128, 129, 255, 256, 257, 300)
	}
	for _, n := range ns {
		for _, i := range []int{0, n / 2, n - 1} {
			if i != n-1 && n > 33 && c.Quick() {
				continue
			}
			n, i := n, i
			c.Case(fmt.Sprintf("many/%d signers, number %d", n, i), func() {
				b := many(n, i, []byte("message"))
				self := b.signers[i]
				x, own, z := share(c, b, self, nil)
				f := factor(c, b, self, x, own, z)
				if f == nil {
					return
				}
				for j, id := range b.signers {
					if c.Expired() {
						return
					}
					if j == i || (c.Quick() && n > 33 && j > 2 && j < n-3 && j%7 != 0) {
						continue
					}
					for half := 0; half < 2; half++ {
						v := b.clone()
						copy(v.first[id][5+32*half:], sim.BaseEnc(ref.Int(int64(5000+j))))
						compare(c, b, v, map[party.ID]*big.Int{self: f}, self, fmt.Sprintf("half %d of the commitment of %d", half, id))
					}
				}
				for _, at := range []int{0, i, n - 1} { // one signer more or less
					if at == i {
						continue
					}
					v := b.clone()
					v.signers = append(append(party.IDSlice{}, b.signers[:at]...), b.signers[at+1:]...)
					compare(c, b, v, map[party.ID]*big.Int{self: f}, self, fmt.Sprintf("signer %d", b.signers[at]))
				}
			})
		}
	}
	for _, n := range []int{65535, 65536, 65537, 1 << 20, c.Pick(1<<21, 1<<25)} {
		n := n
		c.Case(fmt.Sprintf("long message/%d", n), func() {
			b := many(3, 1, rnd.Bytes("c17 long", n))
			self := b.signers[1]
			x, own, z := share(c, b, self, nil)
			f := factor(c, b, self, x, own, z)
			try := func(what string, m []byte) {
				v := b
				v.msg = m
				compare(c, b, v, map[party.ID]*big.Int{self: f}, self, what)
			}
			at := []int{0, 1, n - 1, n - 2, n / 2, n - 64, n - 65}
			for p := 64; p < n; p *= 4 {
				at = append(at, p-1, p)
			}
			for _, a := range at {
				b.msg[a] ^= 0x10
				m := append([]byte(nil), b.msg...)
				b.msg[a] ^= 0x10
				try(fmt.Sprintf("byte %d of %d", a, n), m)
			}
			try("a byte more", append(append([]byte(nil), b.msg...), 0))
			try("a byte less", b.msg[:n-1])
			try("the first half", b.msg[:n/2])
		})
	}
}
