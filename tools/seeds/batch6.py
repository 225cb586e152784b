import os, runpy
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch5.py"))
src0 = B["src"]
PK = {"party": "@frost/party", "helpers": "@helpers", "frost": "@frost", "state": "@state", "ristretto": "@ristretto", "messages": "@messages"}
def src(body): return src0(body, *[v for k, v in PK.items() if k + "." in body])
SEEDS=[]
def seed(id,prop,needs,breaks,edits,main): SEEDS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,main=main))

seed('c29-sent-before-end','C29','a batch that completes a round and aborts the next one',
 'the driver looks at the end of the session only if there is nothing left to send, so an abort in the same batch as a completed round is not reported',
 [('pkg/helpers/parties.go','	if s.IsFinished() {\n','	// what is still to be sent goes first\n	if len(out) == 0 && s.IsFinished() {\n')],
 src('''func main() {
	ids := party.IDSlice{1, 2}
	_, sec := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, sec)
	s, _, err := frost.NewSignState(ids, sec[1], pub, []byte("m"), 0)
	must(err)
	r, _, err := frost.NewSignState(ids, sec[2], pub, []byte("m"), 0)
	must(err)
	_, err = helpers.PartyRoutine(nil, s)
	must(err)
	batch := enc(append(r.ProcessAll(), messages.NewSign2(2, ristretto.NewScalar())))
	_, err = helpers.PartyRoutine(batch, s)
	check(s.IsFinished() && s.Err() != nil, "a wrong share is accepted")
	check(err != nil, "the abort of the session is not reported")
}
'''))

seed('c29-skips-undecodable','C29','a batch with an undecodable message',
 'the driver passes over messages that cannot be decoded instead of reporting them',
 [('pkg/helpers/parties.go','''		if err := msgTmp.UnmarshalBinary(m); err != nil {
			return nil, fmt.Errorf("failed to unmarshal message: %w", err)
		}
''','''		if err := msgTmp.UnmarshalBinary(m); err != nil {
			continue // not one of our messages
		}
''')],
 src('''func main() {
	ids := party.IDSlice{1, 2}
	s, _, err := frost.NewKeygenState(1, ids, 1, 0)
	must(err)
	_, err = helpers.PartyRoutine(nil, s)
	must(err)
	_, err = helpers.PartyRoutine([][]byte{{1, 2, 3}}, s)
	check(err != nil, "an undecodable message is not reported")
}
'''))

seed('c29-shared-public','C29','shares that are erased or changed after the public data has been made from them',
 'the public data keeps pointers into the secret shares instead of values of its own',
 [('pkg/helpers/keys.go','''		var pk ristretto.Element
		publicShares[id] = pk.ScalarBaseMult(&secret.Secret)
''','''		publicShares[id] = secret.Public.ScalarBaseMult(&secret.Secret)
''')],
 src('''func main() {
	_, sec := helpers.GenerateSecrets(party.IDSlice{1, 2, 3}, 1)
	pub := helpers.GeneratePublic(1, sec)
	before := append([]byte(nil), pub.Shares[2].Bytes()...)
	sec[2].Public.Set(ristretto.NewIdentityElement())
	check(string(before) == string(pub.Shares[2].Bytes()), "erasing a share has changed the public data")
}
'''))

seed('c29-dealer-position','C29','a set of parties that is not 1, 2, 3, ...',
 'the dealer gives the parties the values at their positions in the set instead of at their identifiers',
 [('pkg/helpers/keys.go','	for _, id := range set {\n		shares[id] = eddsa.NewSecretShare(id, poly.Evaluate(id.Scalar()))','	for i, id := range set {\n		shares[id] = eddsa.NewSecretShare(id, poly.Evaluate(party.ID(i+1).Scalar()))')],
 src('''func main() {
	ids := party.IDSlice{2, 5, 9}
	secret, sec := helpers.GenerateSecrets(ids, 1)
	var sum ristretto.Scalar
	for _, id := range ids[:2] {
		l, err := id.Lagrange(ids[:2])
		must(err)
		sum.MultiplyAdd(l, &sec[id].Secret, &sum)
	}
	check(sum.Equal(secret) == 1, "two shares do not give the secret")
}
'''))

seed('c30-resumed-nonces','C30','a signing of a message that was started and not finished, and another one of the same message',
 'the nonces of an unfinished signing are kept and used again for the next signing of the same message, which reveals the key share',
 [('pkg/frost/sign/round0.go','''func (round *round0) ProcessMessage''','''// unfinished holds the nonces of signings that have been started, so that a signing that is
// restarted after a failure does not need new commitments.
var (
	unfinishedMtx sync.Mutex
	unfinished    = map[string]*[2]ristretto.Scalar{}
)

func (round *round0) task() string {
	return string(round.SecretKeyShare.Bytes()) + string(round.Message)
}

func (round *round0) ProcessMessage'''),
  ('pkg/frost/sign/round0.go','''	// Sample dᵢ, Dᵢ = [dᵢ] B
	scalar.SetScalarRandom(&round.d)
	selfParty.Di.ScalarBaseMult(&round.d)

	// Sample eᵢ, Dᵢ = [eᵢ] B
	scalar.SetScalarRandom(&round.e)
	selfParty.Ei.ScalarBaseMult(&round.e)
''','''	unfinishedMtx.Lock()
	nonces := unfinished[round.task()]
	if nonces == nil {
		nonces = new([2]ristretto.Scalar)
		scalar.SetScalarRandom(&nonces[0])
		scalar.SetScalarRandom(&nonces[1])
		unfinished[round.task()] = nonces
	}
	round.d.Set(&nonces[0])
	round.e.Set(&nonces[1])
	unfinishedMtx.Unlock()

	// Dᵢ = [dᵢ] B
	selfParty.Di.ScalarBaseMult(&round.d)

	// Dᵢ = [eᵢ] B
	selfParty.Ei.ScalarBaseMult(&round.e)
'''),
  ('pkg/frost/sign/round0.go','import (\n','import (\n	"sync"\n\n'),
  ('pkg/frost/sign/round0.go','pkg/messages"\n','pkg/messages"\n	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"\n'),
  ('pkg/frost/sign/round2.go','''	round.Output.Signature = sig
''','''	round.Output.Signature = sig

	unfinishedMtx.Lock()
	delete(unfinished, round.task())
	unfinishedMtx.Unlock()
''')],
 src('''func main() {
	ids := party.IDSlice{1, 2}
	_, sec := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, sec)
	var old []byte
	for i := 0; i < 2; i++ {
		s, _, err := frost.NewSignState(ids, sec[1], pub, []byte("m"), 0)
		must(err)
		b := enc(s.ProcessAll())[0]
		check(string(b) != string(old), "two signings use the same nonces")
		old = b
	}
}
'''))

seed('c30-remembered-signers','C30','a party that signs with different sets of the same size and the same ends',
 'the normalized key share is remembered by the number of signers and the first and the last of them, so another set in between gets the wrong one',
 [('pkg/frost/sign/base.go','''func NewRound(''','''// normalized remembers the key shares multiplied by their Lagrange coefficients.
var (
	normalizedMtx sync.Mutex
	normalized    = map[string]ristretto.Scalar{}
)

func NewRound('''),
  ('pkg/frost/sign/base.go','import (\n	"errors"\n	"fmt"\n','import (\n	"errors"\n	"fmt"\n	"sync"\n'),
  ('pkg/frost/sign/base.go','''	round.SecretKeyShare.Multiply(lagrange, &secret.Secret)
''','''	normalizedMtx.Lock()
	defer normalizedMtx.Unlock()
	key := fmt.Sprint(secret.Secret.Bytes(), partyIDs.N(), partyIDs[0], partyIDs[len(partyIDs)-1])
	share, ok := normalized[key]
	if !ok {
		share.Multiply(lagrange, &secret.Secret)
		normalized[key] = share
	}
	round.SecretKeyShare.Set(&share)
''')],
 src('''func main() {
	_, sec := helpers.GenerateSecrets(party.IDSlice{1, 2, 3, 4}, 2)
	pub := helpers.GeneratePublic(2, sec)
	for _, set := range []party.IDSlice{{1, 2, 4}, {1, 3, 4}} {
		s := newSign(sec, pub, []byte("m"), set...)
		s.run()
		for _, id := range set {
			check(s.st[id].Err() == nil, "signing by %v fails: %v", set, s.st[id].Err())
		}
	}
}
'''))

seed('c30-erased-on-abort','C30','a signing that is aborted by a wrong share, and a later one',
 'a session that meets a wrong signature share erases the key share it was given instead of its own copy',
 [('pkg/frost/sign/base.go','''		SecretKeyShare ristretto.Scalar
''','''		SecretKeyShare ristretto.Scalar

		// share is the key share this session was created with
		share *ristretto.Scalar
'''),
  ('pkg/frost/sign/base.go','''	return round, round.Output, nil
''','''	round.share = &secret.Secret

	return round, round.Output, nil
'''),
  ('pkg/frost/sign/round2.go','''		return state.NewError(id, ErrValidateSigShare)
''','''		// do not leave secrets behind
		round.share.Set(ristretto.NewScalar())
		return state.NewError(id, ErrValidateSigShare)
''')],
 src('''func main() {
	ids := party.IDSlice{1, 2}
	_, sec := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, sec)
	before := append([]byte(nil), sec[1].Secret.Bytes()...)
	s, _, err := frost.NewSignState(ids, sec[1], pub, []byte("m"), 0)
	must(err)
	r, _, err := frost.NewSignState(ids, sec[2], pub, []byte("m"), 0)
	must(err)
	s.ProcessAll()
	must(s.HandleMessage(r.ProcessAll()[0]))
	s.ProcessAll()
	must(s.HandleMessage(messages.NewSign2(2, ristretto.NewScalar())))
	s.ProcessAll()
	check(s.Err() != nil, "a wrong share is accepted")
	check(string(before) == string(sec[1].Secret.Bytes()), "the key share is gone after an aborted signing")
}
'''))
