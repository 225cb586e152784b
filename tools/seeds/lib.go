package main

// Shared helpers of the demonstrations.

import (
	"fmt"
	"os"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

func must(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

func fail(format string, args ...interface{}) {
	fmt.Printf("FAIL: "+format+"\n", args...)
	os.Exit(1)
}

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fail(format, args...)
	}
}

// enc encodes messages.
func enc(ms []*messages.Message) [][]byte {
	var out [][]byte
	for _, m := range ms {
		b, err := m.MarshalBinary()
		must(err)
		out = append(out, b)
	}
	return out
}

func dec(b []byte) *messages.Message {
	var m messages.Message
	must(m.UnmarshalBinary(b))
	return &m
}

type kg struct {
	ids party.IDSlice
	st  map[party.ID]*state.State
	out map[party.ID]*keygen.Output
}

func newKeygen(t int, d time.Duration, ids ...party.ID) *kg {
	k := &kg{ids, map[party.ID]*state.State{}, map[party.ID]*keygen.Output{}}
	for _, id := range ids {
		var err error
		k.st[id], k.out[id], err = frost.NewKeygenState(id, ids, party.Size(t), d)
		must(err)
	}
	return k
}

// deliver hands every message to every state (errors are ignored) and returns what they answer.
func deliver(ids party.IDSlice, st map[party.ID]*state.State, in [][]byte) [][]byte {
	var out [][]byte
	for _, id := range ids {
		for _, b := range in {
			_ = st[id].HandleMessage(dec(b))
		}
		out = append(out, enc(st[id].ProcessAll())...)
	}
	return out
}

// run runs key generation to the end.
func (k *kg) run() {
	m := deliver(k.ids, k.st, nil)
	m = deliver(k.ids, k.st, m)
	deliver(k.ids, k.st, m)
}

func (k *kg) keys() (map[party.ID]*eddsa.SecretShare, *eddsa.Public) {
	s := map[party.ID]*eddsa.SecretShare{}
	for _, id := range k.ids {
		check(k.st[id].IsFinished(), "key generation of party %d did not end", id)
		must(k.st[id].WaitForError())
		s[id] = k.out[id].SecretKey
	}
	return s, k.out[k.ids[0]].Public
}

type sg struct {
	ids party.IDSlice
	st  map[party.ID]*state.State
	out map[party.ID]*sign.Output
}

func newSign(sec map[party.ID]*eddsa.SecretShare, pub *eddsa.Public, msg []byte, ids ...party.ID) *sg {
	k := &sg{ids, map[party.ID]*state.State{}, map[party.ID]*sign.Output{}}
	for _, id := range ids {
		var err error
		k.st[id], k.out[id], err = frost.NewSignState(ids, sec[id], pub, msg, 0)
		must(err)
	}
	return k
}

func (k *sg) run() {
	m := deliver(k.ids, k.st, nil)
	m = deliver(k.ids, k.st, m)
	deliver(k.ids, k.st, m)
}
