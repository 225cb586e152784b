//go:build go1.21

// C07: cheating during signing is detected and blamed on the cheater.
package main

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/faults"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func ids(v ...party.ID) []party.ID { return v }

func main() {
	lib.Run(lib.Config{
		ID: "C07", Level: "fault_enumeration",
		Rule:        "every choice of at most two (thorough: three) faulty messages among those the co-signers of one signer send, each replaced by every entry of a catalogue of variants (identity, swapped, negated, copied and inverted commitments; shares off by one in both directions so that pairs cancel, zero, negated, exchanged, without Lagrange coefficient, without key, with swapped nonces; also valid alternatives); honest co-signers answer to the broadcasts actually made; the verdict is computed by reference arithmetic; non-trivial: distinct (signer, combination) that ended the session",
		Bounds:      "2-3 signers (thorough: 4), all thresholds that fit; canonical order under all map iteration orders; single faults additionally in every delivery order; groups of 34, 67 and 130 signers (thorough: up to 260) with each cheater in turn (of the bigger ones a choice) and pairs whose errors cancel",
		Assumptions: []string{"broadcast messages reach every signer unchanged (the protocol relies on a broadcast channel)"},
	}, run)
}

func run(c *lib.Ctx) {
	text := []byte("message")
	k := sim.Deal(ids(1, 2, 3, 4), 1, "c07")
	w2 := sim.SignWorld(k, ids(1, 3), text, "c07")
	w3 := sim.SignWorld(k, ids(1, 2, 4), text, "c07")
	k2 := sim.Deal(ids(2, 3, 256, 65535), 2, "c07b")
	w3b := sim.SignWorld(k2, ids(3, 256, 65535), text, "c07")
	w4 := sim.SignWorld(k2, ids(2, 3, 256, 65535), nil, "c07")
	// too few signers: the session must fail whatever they send
	few := sim.SignWorld(k2, ids(2, 3), text, "c07few")
	few.NoRun()
	for _, i := range w2.IDs {
		faults.Explore(c, w2, i, 2, 0, 1, true)
	}
	faults.Explore(c, w3, 2, 1, 0, 2, true)
	faults.Explore(c, w3b, 256, 1, 0, 2, true)
	faults.Explore(c, w3, 1, 2, 0, 2, false)
	faults.Explore(c, w3b, 3, 2, 0, 2, false)
	faults.Explore(c, w4, 3, 1, 0, 6, false)
	faults.Explore(c, few, 2, 1, 0, 1, true)
	// big groups: every single cheater
	big := sim.Deal(sim.Spread(132), 1, "c07 big")
	faults.Large(c, sim.SignWorld(big, big.IDs[:34], text, "c07 big"), 33, 1)
	faults.Large(c, sim.SignWorld(big, big.IDs[50:117], text, "c07 big"), 1, 8)
	faults.Large(c, sim.SignWorld(big, big.IDs[1:131], text, "c07 big"), 64, 16)
	if !c.Quick() {
		huge := sim.Deal(sim.Seq(300), 1, "c07 huge")
		faults.Large(c, sim.SignWorld(big, big.IDs[50:117], text, "c07 big"), 66, 1)
		faults.Large(c, sim.SignWorld(big, big.IDs[1:131], text, "c07 big"), 0, 1)
		faults.Large(c, sim.SignWorld(huge, huge.IDs[10:270], text, "c07 huge"), 259, 4)
		faults.Explore(c, w3b, 65535, 2, 0, 2, true)
		faults.Explore(c, w4, 2, 1, 0, 1, true)
		faults.Explore(c, w4, 65535, 2, 0, 6, false)
		faults.Explore(c, w4, 256, 3, 5, 2, false)
		faults.Explore(c, w3, 4, 3, 6, 2, false)
	}
}
