//go:build go1.21

// C06: cheating during key generation is detected and blamed on the cheater.
package main

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/faults"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func ids(v ...party.ID) []party.ID { return v }

func main() {
	lib.Run(lib.Config{
		ID: "C06", Level: "fault_enumeration",
		Rule:        "every choice of at most two faulty messages among those the peers of one party send, each message replaced by every entry of a catalogue of variants (wrong, copied, replayed and transplanted proofs; wrong degrees; replaced commitments; wrong, exchanged and zero shares; also valid alternatives); the verdict on each message is computed by reference arithmetic from its bytes; non-trivial: distinct (party, combination) that ended the session",
		Bounds:      "2-3 parties (thorough: 4) with up to 2 faulty messages, canonical order under all map iteration orders; single faults additionally in every delivery order; groups of 34, 67 and 130 parties (thorough: up to 260, degrees up to 129) with each cheater in turn (of the bigger ones a choice) and pairs whose errors cancel",
		Assumptions: []string{"broadcast messages reach every party unchanged (the protocol relies on a broadcast channel)"},
	}, run)
}

func run(c *lib.Ctx) {
	w2 := sim.KeygenWorld(ids(1, 2), 1, "c06")
	w3 := sim.KeygenWorld(ids(1, 2, 3), 1, "c06")
	w3b := sim.KeygenWorld(ids(2, 256, 65535), 2, "c06")
	w4 := sim.KeygenWorld(ids(1, 2, 3, 4), 2, "c06")
	for _, i := range w2.IDs {
		faults.Explore(c, w2, i, 2, 0, 1, true)
	}
	faults.Explore(c, w3, 2, 1, 0, 2, true)
	faults.Explore(c, w3b, 256, 1, 0, 2, true)
	faults.Explore(c, w3, 1, 2, 0, 2, false)
	faults.Explore(c, w4, 3, 1, 0, 6, false)
	// big groups: every single cheater
	faults.Large(c, sim.KeygenWorld(sim.Seq(34), 2, "c06 big"), 33, 1)
	faults.Large(c, sim.KeygenWorld(sim.Spread(67), 20, "c06 big"), 1, 8)
	faults.Large(c, sim.KeygenWorld(sim.Seq(130), 1, "c06 big"), 64, 16)
	if !c.Quick() {
		faults.Large(c, sim.KeygenWorld(sim.Spread(67), 20, "c06 big"), 66, 1)
		faults.Large(c, sim.KeygenWorld(sim.Spread(130), 129, "c06 big"), 0, 16)
		faults.Large(c, sim.KeygenWorld(sim.Seq(260), 1, "c06 big"), 259, 4)
		faults.Explore(c, w3b, 65535, 2, 0, 2, false)
		faults.Explore(c, w4, 1, 1, 0, 1, true)
		faults.Explore(c, w4, 4, 2, 0, 6, false)
		faults.Explore(c, w3, 3, 3, 6, 2, false)
		faults.Explore(c, w3, 2, 2, 0, 1, true)
	}
}
