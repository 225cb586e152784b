IMP='''package main

import (
%s)

'''
def src(body,*imps):
    b='github.com/taurusgroup/frost-ed25519/pkg/'
    out=''
    for i in imps:
        out+='\t"%s"\n'%(b+i[1:] if i.startswith('@') else i)
    return IMP%out+body
SEEDS=[]
def seed(id,prop,needs,breaks,edits,main): SEEDS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,main=main))


seed('c01-thousand-signers','C01','a group of 993 or more signers (the size of the list of commitments wraps modulo 2^16)',
 'the list B is written into a buffer of a size computed in 16 bits, so signing with 993 or more signers crashes',
 [('pkg/frost/sign/round1.go',"""	for _, id := range round.PartyIDs() {
		otherParty := round.Parties[id]
		buffer = append(buffer, id.Bytes()...)
		buffer = append(buffer, otherParty.Di.Bytes()...)
		buffer = append(buffer, otherParty.Ei.Bytes()...)
	}
""","""	buffer = buffer[:sizeBuffer]
	for i, id := range round.PartyIDs() {
		otherParty := round.Parties[id]
		entry := buffer[bufferHeader+i*(party.IDByteSize+64):]
		copy(entry, id.Bytes())
		copy(entry[party.IDByteSize:], otherParty.Di.Bytes())
		copy(entry[party.IDByteSize+32:], otherParty.Ei.Bytes())
	}
""")],
 src("""func main() {
	n := 1000
	var ids party.IDSlice
	for i := 1; i <= n; i++ {
		ids = append(ids, party.ID(i))
	}
	_, sec := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, sec)
	st, _, err := frost.NewSignState(ids, sec[1], pub, []byte("m"), 0)
	must(err)
	st.ProcessAll()
	var g ristretto.Element
	g.ScalarBaseMult(scalar.NewScalarUInt32(5))
	for _, id := range ids[1:] {
		must(st.HandleMessage(messages.NewSign1(id, &g, &g)))
	}
	defer func() {
		if p := recover(); p != nil {
			fail("signing with %d signers panics: %v", n, p)
		}
	}()
	check(len(st.ProcessAll()) == 1, "no share")
}
""",'@frost','@frost/party','@helpers','@internal/scalar','@messages','@ristretto'))

seed('c04-overtaken','C04','a share of a sender that overtakes the same sender\'s commitment',
 'a message of a later round is refused while the sender\'s message of the current round is missing',
 [('pkg/state/state.go',"""	s.ackMessage()

	if msg.Type == s.acceptedTypes[0] {
""","""	if _, exists := s.receivedMessages[senderID]; msg.Type != s.acceptedTypes[0] && !exists {
		return s.wrapError(errors.New("message out of order"), senderID)
	}

	s.ackMessage()

	if msg.Type == s.acceptedTypes[0] {
""")],
 src("""func main() {
	k := newKeygen(1, 0, 1, 2)
	a := k.st[1].ProcessAll()
	b1 := k.st[2].ProcessAll()
	must(k.st[2].HandleMessage(a[0]))
	b2 := k.st[2].ProcessAll()
	_ = k.st[1].HandleMessage(b2[0])
	_ = k.st[1].HandleMessage(b1[0])
	k.st[1].ProcessAll()
	check(k.st[1].IsFinished() && k.st[1].Err() == nil, "the run is stuck")
}
"""))

seed('c07-sum-first','C07','two cheaters whose errors cancel',
 'the shares are verified one by one only if the sum does not verify, so cheaters whose errors cancel are not noticed',
 [('pkg/frost/sign/round2.go',"""	if RPrime.Equal(&otherParty.Ri) != 1 {
		return state.NewError(id, ErrValidateSigShare)
	}
	otherParty.Zi.Set(&msg.Sign2.Zi)
	return nil
}
""","""	otherParty.Zi.Set(&msg.Sign2.Zi)
	if RPrime.Equal(&otherParty.Ri) != 1 {
		round.suspects = append(round.suspects, id)
	}
	return nil
}
"""),('pkg/frost/sign/round2.go',"""	if !round.GroupKey.Verify(round.Message, sig) {
		return nil, state.NewError(0, ErrValidateSignature)
	}
""","""	if !round.GroupKey.Verify(round.Message, sig) {
		if len(round.suspects) > 0 {
			return nil, state.NewError(round.suspects[0], ErrValidateSigShare)
		}
		return nil, state.NewError(0, ErrValidateSignature)
	}
"""),('pkg/frost/sign/base.go',"""		Output *Output
	}
""","""		Output *Output

		// suspects are the signers whose share did not verify
		suspects []party.ID
	}
""")],
 src("""func main() {
	k := newKeygen(1, 0, 1, 2, 3)
	k.run()
	sec, pub := k.keys()
	s := newSign(sec, pub, []byte("m"), 1, 2, 3)
	m := deliver(s.ids, s.st, nil)
	m = deliver(s.ids, s.st, m)
	one := scalar.NewScalarUInt32(1)
	for _, b := range m {
		x := dec(b)
		switch x.From {
		case 2:
			x.Sign2.Zi.Add(&x.Sign2.Zi, one)
		case 3:
			x.Sign2.Zi.Subtract(&x.Sign2.Zi, one)
		}
		_ = s.st[1].HandleMessage(x)
	}
	s.st[1].ProcessAll()
	check(s.st[1].Err() != nil, "two wrong shares went unnoticed")
}
""",'@internal/scalar'))

seed('c12-queued-message','C12','a message for a later round that is accepted shortly before the timeout',
 'only messages of the current round extend the time',
 [('pkg/state/state.go',"""	s.ackMessage()

	if msg.Type == s.acceptedTypes[0] {
		s.receivedMessages[senderID] = msg
""","""	if msg.Type == s.acceptedTypes[0] {
		s.ackMessage()
		s.receivedMessages[senderID] = msg
""")],
 src("""func main() {
	k := newKeygen(1, 0, 1, 2)
	d := 400 * time.Millisecond
	a := k.st[1].ProcessAll()
	st, _, err := frost.NewKeygenState(2, k.ids, 1, d)
	must(err)
	b1 := st.ProcessAll()
	must(k.st[1].HandleMessage(b1[0]))
	a2 := k.st[1].ProcessAll()
	time.Sleep(250 * time.Millisecond)
	must(st.HandleMessage(a2[0]))
	time.Sleep(250 * time.Millisecond)
	check(st.Err() == nil, "timed out although a message was accepted: %v", st.Err())
	_ = a
}
""",'time','@frost'))

seed('c16-unstarted-timeout','C16','a signing session that times out before it has started',
 'a session that ends before its first round keeps its key share',
 [('pkg/state/state.go',"""	s.done = true
	s.round.Reset()
""","""	s.done = true
	if s.roundNumber > 0 {
		s.round.Reset()
	}
""")],
 src("""func main() {
	k := newKeygen(1, 0, 1, 2)
	k.run()
	sec, pub := k.keys()
	r, _, err := sign.NewRound(k.ids, sec[1], pub, []byte("m"))
	must(err)
	st, err := state.NewBaseState(r, 20*time.Millisecond)
	must(err)
	check(st.WaitForError() != nil, "no timeout")
	time.Sleep(50 * time.Millisecond)
	f := reflect.ValueOf(r).Elem().FieldByName("SecretKeyShare")
	check(f.Interface().(ristretto.Scalar) == ristretto.Scalar{}, "the key share is still there")
}
""",'reflect','time','@frost/sign','@ristretto','@state'))

seed('c19-cached-form','C19','a key that is used and then loaded again from JSON',
 'the Ed25519 form of a key is computed once and not renewed when another key is loaded into the same value',
 [('pkg/eddsa/public_key.go',"""type PublicKey struct {
	pk ristretto.Element
}
""","""type PublicKey struct {
	pk ristretto.Element

	// form is the ed25519 form, computed when it is first needed
	form []byte
}
"""),('pkg/eddsa/public_key.go',"""	return pk.pk.BytesEd25519()
""","""	if pk.form == nil {
		pk.form = pk.pk.BytesEd25519()
	}
	return append(ed25519.PublicKey(nil), pk.form...)
""")],
 src("""func main() {
	var g, h ristretto.Element
	g.ScalarBaseMult(scalar.NewScalarUInt32(2))
	h.ScalarBaseMult(scalar.NewScalarUInt32(3))
	a, b := eddsa.NewPublicKeyFromPoint(&g), eddsa.NewPublicKeyFromPoint(&h)
	a.ToEd25519()
	j, err := json.Marshal(b)
	must(err)
	must(json.Unmarshal(j, a))
	check(a.Equal(b), "not loaded")
	check(bytes.Equal(a.ToEd25519(), b.ToEd25519()), "equal keys with different ed25519 forms")
}
""",'bytes','encoding/json','@eddsa','@internal/scalar','@ristretto'))

seed('c23-threshold-wraps','C23','a threshold of 65535',
 'threshold+1 wraps to 0 in 16 bits, so the threshold 65535 is accepted for any group',
 [('pkg/frost/keygen/base.go',"""	if threshold > N-1 {
""","""	if threshold+1 > N {
""")],
 src("""func main() {
	_, _, err := frost.NewKeygenState(1, party.IDSlice{1, 2}, 65535, 0)
	check(err != nil, "a threshold of 65535 was accepted for 2 parties")
}
""",'@frost','@frost/party'))

seed('c09-append-clobbers','C09','encoding a KeyGen1 message after bytes that are already in the buffer',
 'KeyGen1 messages are encoded from the start of the buffer when its capacity is large enough, overwriting what is there',
 [('pkg/messages/messages.go',"""	existing, err = m.Header.BytesAppend(existing)
""","""	if cap(existing)-len(existing) >= 2*m.Size() {
		existing = existing[:0]
	}
	existing, err = m.Header.BytesAppend(existing)
""")],
 src("""func main() {
	m := messages.NewSign2(1, scalar.NewScalarUInt32(7))
	buf := make([]byte, 3, 4096)
	copy(buf, "abc")
	out, err := m.BytesAppend(buf)
	must(err)
	check(len(out) == 3+m.Size() && string(out[:3]) == "abc", "the buffer was overwritten")
}
""",'@internal/scalar','@messages'))

seed('c11-early-public','C11','a key generation that is aborted in its last round',
 'the public data are put into the output a round early, so that they are there when the last round fails',
 [('pkg/frost/keygen/round1.go',"""	// Now that we have received the commitment from every one,
""","""	// The public data are determined now
	shares := make(map[party.ID]*ristretto.Element, round.PartyIDs().N())
	for _, id := range round.PartyIDs() {
		shares[id] = round.CommitmentsSum.Evaluate(id.Scalar())
	}
	round.Output.Public = &eddsa.Public{
		PartyIDs:  round.BaseRound.PartyIDs().Copy(),
		Threshold: round.Threshold,
		Shares:    shares,
		GroupKey:  eddsa.NewPublicKeyFromPoint(round.CommitmentsSum.Constant()),
	}

	// Now that we have received the commitment from every one,
"""),('pkg/frost/keygen/round1.go',"""	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
""","""	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
"""),('pkg/frost/keygen/round2.go',"""	shares := make(map[party.ID]*ristretto.Element, round.PartyIDs().N())
	for _, id := range round.PartyIDs() {
		shares[id] = round.CommitmentsSum.Evaluate(id.Scalar())
	}
	round.Output.Public = &eddsa.Public{
		PartyIDs:  round.BaseRound.PartyIDs().Copy(),
		Threshold: round.Threshold,
		Shares:    shares,
		GroupKey:  eddsa.NewPublicKeyFromPoint(round.CommitmentsSum.Constant()),
	}
""",""),('pkg/frost/keygen/round2.go',"""	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
""","")],
 src("""func main() {
	k := newKeygen(1, 0, 1, 2)
	m := deliver(k.ids, k.st, nil)
	m = deliver(k.ids, k.st, m)
	for _, b := range m {
		x := dec(b)
		if x.To == 1 {
			x.KeyGen2.Share.Add(&x.KeyGen2.Share, scalar.NewScalarUInt32(1))
		}
		_ = k.st[1].HandleMessage(x)
	}
	k.st[1].ProcessAll()
	check(k.st[1].Err() != nil, "not noticed")
	check(k.out[1].Public == nil, "an aborted key generation has public data in its output")
}
""",'@internal/scalar'))

seed('c13-lazy-error','C13','two goroutines that ask for the error at the same time, or while it arises',
 'Err remembers what it returned in a field that it reads outside the lock',
 [('pkg/state/state.go',"""	done     bool
	err      *Error

	mtx sync.Mutex
}
""","""	done     bool
	err      *Error
	reported error

	mtx sync.Mutex
}
"""),('pkg/state/state.go',"""func (s *State) Err() error {
""","""func (s *State) Err() error {
	if s.reported != nil {
		return s.reported
	}
"""),('pkg/state/state.go',"""	if s.err != nil {
		return s.err
	}
	return nil
}
""","""	if s.err != nil {
		s.reported = s.err
	}
	return s.reported
}
""")],
 src("""func main() {
	if os.Getenv("DEMO_CHILD") == "" {
		wd, err := os.Getwd()
		must(err)
		_, file, _, _ := runtime.Caller(0)
		_ = file
		d, err := os.MkdirTemp("", "demo")
		must(err)
		defer os.RemoveAll(d)
		// build this program again with the race detector
		ov := d + "/ov.json"
		dir := os.Getenv("DEMO_DIR")
		js := fmt.Sprintf("{\\"Replace\\":{\\"%s/pkg/verifdemo/main.go\\":\\"%s/main.go\\",\\"%s/pkg/verifdemo/lib.go\\":\\"%s/lib.go\\"}}", wd, dir, wd, dir)
		must(os.WriteFile(ov, []byte(js), 0o600))
		out, err := exec.Command("go", "build", "-race", "-overlay", ov, "-o", d+"/x", "./pkg/verifdemo").CombinedOutput()
		check(err == nil, "build: %s", out)
		c := exec.Command(d + "/x")
		c.Env = append(os.Environ(), "DEMO_CHILD=1")
		out, err = c.CombinedOutput()
		os.RemoveAll(d)
		check(err == nil, "%s", out)
		return
	}
	for i := 0; i < 20; i++ {
		k := newKeygen(1, 0, 1, 2)
		st := k.st[1]
		st.ProcessAll()
		m := k.st[2].ProcessAll()[0]
		m.KeyGen1.Proof.R.Set(scalar.NewScalarUInt32(1))
		must(st.HandleMessage(m))
		st.ProcessAll()
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				check(st.Err() != nil, "no error")
			}()
		}
		wg.Wait()
	}
}
""",'fmt','os','os/exec','runtime','sync','@internal/scalar'))

seed('c14-scratch-buffer','C14','two sessions that draw their nonces at the same time',
 'random scalars are drawn through one package-level buffer, so that sessions that start at the same time can draw the same nonces',
 [('pkg/internal/scalar/scalar.go',"""	bytes := make([]byte, 64)

	_, err := io.ReadFull(rand.Reader, bytes)
""","""	bytes := randomBytes[:]

	_, err := io.ReadFull(rand.Reader, bytes)
"""),('pkg/internal/scalar/scalar.go',"""// SetScalarRandom sets s""","""// randomBytes is reused to save an allocation per scalar
var randomBytes [64]byte

// SetScalarRandom sets s""")],
 src("""type meeting struct {
	r  io.Reader
	wg *sync.WaitGroup
}

func (m meeting) Read(p []byte) (int, error) {
	n, err := m.r.Read(p)
	m.wg.Done()
	m.wg.Wait()
	return n, err
}

func main() {
	var in, out sync.WaitGroup
	in.Add(2)
	out.Add(2)
	rand.Reader = meeting{rand.Reader, &in}
	var got [2]*ristretto.Scalar
	for i := range got {
		i := i
		go func() {
			got[i] = scalar.NewScalarRandom()
			out.Done()
		}()
	}
	out.Wait()
	check(got[0].Equal(got[1]) == 0, "two goroutines drew the same secret")
}
""",'crypto/rand','io','sync','@internal/scalar','@ristretto'))

seed('c18-first-shares-only','C18','stored public data in which a share after the first t+1 is altered',
 'the stored group key is compared with the first t+1 shares only',
 [('pkg/eddsa/public.go',"""	computedGroupKey := computeGroupKey(newS.PartyIDs, out.Shares)
""","""	// t+1 shares determine the key
	computedGroupKey := computeGroupKey(newS.PartyIDs[:newS.Threshold+1], out.Shares)
"""),('pkg/eddsa/public.go',"""	*s = *newS
""","""	newS.GroupKey = computedGroupKey
	*s = *newS
""")],
 src("""func main() {
	k := newKeygen(1, 0, 1, 2, 3)
	k.run()
	_, pub := k.keys()
	pub.Shares[3].Add(pub.Shares[3], pub.Shares[1])
	j, err := json.Marshal(pub)
	must(err)
	var back eddsa.Public
	check(json.Unmarshal(j, &back) != nil, "public data with an altered share were accepted")
}
""",'encoding/json','@eddsa'))

seed('c21-sorts-in-place','C21','a list of identifiers that is not sorted and used again afterwards',
 'NewIDSlice sorts the list it is given',
 [('pkg/frost/party/idslice.go',"""	ids := IDSlice(partyIDs).Copy()
""","""	ids := IDSlice(partyIDs)
""")],
 src("""func main() {
	l := []party.ID{3, 1, 2}
	s := party.NewIDSlice(l)
	check(l[0] == 3 && l[1] == 1, "the caller's list was sorted: %v", l)
	l[0] = 9
	check(s[0] == 1, "the set changes with the caller's list: %v", s)
}
""",'@frost/party'))

seed('c24-no-truncate','C24','a key file of a larger group that is already there',
 'the key file is written over the old one without truncating it',
 [('cmd/keygen/keygen.go',"""	if err = ioutil.WriteFile(filename, jsonData, 0644); err != nil {
""","""	f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0600)
	if err == nil {
		_, err = f.Write(jsonData)
		if closeErr := f.Close(); err == nil {
			err = closeErr
		}
	}
	if err != nil {
"""),('cmd/keygen/keygen.go','	"io/ioutil"\n','')],
 src("""func main() {
	d, err := os.MkdirTemp("", "demo")
	must(err)
	defer os.RemoveAll(d)
	for _, x := range []string{"keygen", "signer"} {
		out, err := exec.Command("go", "build", "-o", d+"/"+x, "./cmd/"+x).CombinedOutput()
		if err != nil {
			fail("build: %s", out)
		}
	}
	run := func(args ...string) []byte {
		c := exec.Command(d+"/"+args[0], args[1:]...)
		c.Dir = d
		out, _ := c.CombinedOutput()
		return out
	}
	run("keygen", "2", "4")
	run("keygen", "1", "2")
	out := run("signer", "keygenout.json", "m")
	os.RemoveAll(d)
	check(bytes.Contains(out, []byte("Success")), "the second key does not work: %s", out)
}
""",'bytes','os','os/exec'))

seed('c10-proof-cache','C10','a proof that has been verified before, presented by somebody else',
 'proofs that were verified are remembered without the prover\'s identifier',
 [('pkg/internal/zk/schnorr.go',"""func (proof *Schnorr) Verify(partyID party.ID, public *ristretto.Element, context []byte) bool {
""","""func (proof *Schnorr) Verify(partyID party.ID, public *ristretto.Element, context []byte) bool {
	key := string(proof.S.Bytes()) + string(proof.R.Bytes()) + string(public.Bytes()) + string(context)
	if _, ok := verified.Load(key); ok {
		return true
	}
	if proof.verify(partyID, public, context) {
		verified.Store(key, nil)
		return true
	}
	return false
}

// verified holds the proofs that were verified; in key generation every proof is seen by many sessions.
var verified sync.Map

func (proof *Schnorr) verify(partyID party.ID, public *ristretto.Element, context []byte) bool {
"""),('pkg/internal/zk/schnorr.go','import (\n','import (\n	"sync"\n\n')],
 src("""func main() {
	x := scalar.NewScalarRandom()
	var p ristretto.Element
	p.ScalarBaseMult(x)
	ctx := make([]byte, 32)
	proof := zk.NewSchnorrProof(1, &p, ctx, x)
	check(proof.Verify(1, &p, ctx), "not valid")
	check(!proof.Verify(2, &p, ctx), "the proof of party 1 is valid for party 2")
}
""",'@internal/scalar','@internal/zk','@ristretto'))

seed('c02-output-first','C02','a signing session whose shares add up to an invalid signature',
 'the signature is put into the output before it is verified',
 [('pkg/frost/sign/round2.go',"""	if !round.GroupKey.Verify(round.Message, sig) {
		return nil, state.NewError(0, ErrValidateSignature)
	}

	round.Output.Signature = sig

""","""	round.Output.Signature = sig

	if !round.GroupKey.Verify(round.Message, sig) {
		return nil, state.NewError(0, ErrValidateSignature)
	}

""")],
 src("""func main() {
	k := newKeygen(2, 0, 1, 2, 3)
	k.run()
	sec, pub := k.keys()
	s := newSign(sec, pub, []byte("m"), 1, 2)
	s.run()
	for _, id := range s.ids {
		check(s.st[id].Err() != nil, "2 of 3 parties signed with threshold 2")
		check(s.out[id].Signature == nil, "party %d shows a signature although its session failed", id)
	}
}
"""))

seed('c03-public-alias','C03','a holder that changes its copy of the public data of an in-process key generation','x',[],'') if False else None
