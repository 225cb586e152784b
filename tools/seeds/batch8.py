import os, runpy
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch6.py"))
src0 = B["src"]
def src(body, *std): return src0(body).replace('import (\n', 'import (\n' + ''.join('\t"%s"\n' % x for x in std) + '\n', 1)
SEEDS=[]
def seed(id,prop,needs,breaks,edits,main): SEEDS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,main=main))

seed('c32-share-in-error','C32','a private message whose share does not match the commitments',
 'the error of key generation quotes our own secret so far next to the share that does not match, and errors go into logs and to the other parties',
 [('pkg/frost/keygen/round2.go','''		return state.NewError(id, errors.New("VSS failed to validate"))
''','''		return state.NewError(id, fmt.Errorf("VSS failed to validate: share %x, sum so far %x", msg.KeyGen2.Share.Bytes(), round.Secret.Bytes()))
'''),('pkg/frost/keygen/round2.go','''	"errors"
''','''	"fmt"
''')],
 src('''func main() {
	a, _, err := frost.NewKeygenState(1, party.IDSlice{1, 2}, 1, 0)
	must(err)
	b, _, err := frost.NewKeygenState(2, party.IDSlice{1, 2}, 1, 0)
	must(err)
	a.ProcessAll()
	for _, m := range b.ProcessAll() {
		must(a.HandleMessage(m))
	}
	a.ProcessAll()
	wrong := ristretto.NewScalar()
	_, err = wrong.SetUniformBytes([]byte("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"))
	must(err)
	text := hex.EncodeToString(wrong.Bytes())
	must(a.HandleMessage(messages.NewKeyGen2(2, 1, wrong)))
	a.ProcessAll()
	check(a.WaitForError() != nil, "a wrong share is taken")
	check(!strings.Contains(a.WaitForError().Error(), text), "the error quotes the share")
}
''', 'encoding/hex', 'strings'))
seed('c32-foreign-in-error','C32','a private message of key generation that reaches a signing session',
 'the refusal of a message of the wrong type shows the message, which for key generation contains the private share',
 [('pkg/state/state.go','''		return s.wrapError(errors.New("message type is not accepted for this type of round"), senderID)
''','''		if msg.KeyGen2 != nil {
			return s.wrapError(fmt.Errorf("message type is not accepted for this type of round: %v", *msg.KeyGen2), senderID)
		}
		return s.wrapError(errors.New("message type is not accepted for this type of round"), senderID)
''')],
 src('''func main() {
	ids := party.IDSlice{1, 2}
	_, sec := helpers.GenerateSecrets(ids, 1)
	s, _, err := frost.NewSignState(ids, sec[1], helpers.GeneratePublic(1, sec), []byte("m"), 0)
	must(err)
	share := ristretto.NewScalar()
	_, err = share.SetUniformBytes([]byte("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"))
	must(err)
	err = s.HandleMessage(messages.NewKeyGen2(2, 1, share))
	check(err != nil, "a foreign message is taken")
	check(!strings.Contains(err.Error(), strings.Trim(fmt.Sprint(*share), "{}[]")), "the error shows the share")
}
''', 'fmt', 'strings'))
seed('c32-stored-share-in-error','C32','a stored share whose file is damaged',
 'the error of reading a stored share quotes the file, with the share in it',
 [('pkg/eddsa/secret_share.go','''	if err := json.Unmarshal(data, &out); err != nil {
		return err
''','''	if err := json.Unmarshal(data, &out); err != nil {
		return fmt.Errorf("SecretShare: %s: %w", data, err)
'''),('pkg/eddsa/secret_share.go','''	"errors"
''','''	"errors"
	"fmt"
''')],
 src('''func main() {
	const secret = "AQIDBAUGBwgJCgsMDQ4PEBESExQVFhcYGRobHB0eHwA="
	err := json.Unmarshal([]byte(`{"id":"7","secret":"`+secret+`"}`), new(eddsa.SecretShare))
	check(err != nil, "a wrong number is taken")
	check(!strings.Contains(err.Error(), secret[:20]), "the error quotes the share: %v", err)
	must(json.Unmarshal([]byte(`{"id":7,"secret":"`+secret+`"}`), new(eddsa.SecretShare)))
}
''', 'encoding/json', 'strings', 'github.com/taurusgroup/frost-ed25519/pkg/eddsa'))
seed('c32-trace-on-abort','C32','a signature share that does not verify',
 'a signer that rejects a signature share leaves a trace with its own weighted key share on standard error',
 [('pkg/frost/sign/round2.go','''		return state.NewError(id, ErrValidateSigShare)
''','''		fmt.Fprintf(os.Stderr, "frost: party %d: signature share of %d is invalid, challenge %x, own key %x\\n", round.SelfID(), id, round.C.Bytes(), round.SecretKeyShare.Bytes())
		return state.NewError(id, ErrValidateSigShare)
'''),('pkg/frost/sign/round2.go','''	"errors"
''','''	"errors"
	"fmt"
	"os"
''')],
 src('''func main() {
	ids := party.IDSlice{1, 2}
	_, sec := helpers.GenerateSecrets(ids, 1)
	s, _, err := frost.NewSignState(ids, sec[1], helpers.GeneratePublic(1, sec), []byte("m"), 0)
	must(err)
	r, _, err := frost.NewSignState(ids, sec[2], helpers.GeneratePublic(1, sec), []byte("m"), 0)
	must(err)
	s.ProcessAll()
	for _, m := range r.ProcessAll() {
		must(s.HandleMessage(m))
	}
	s.ProcessAll()
	must(s.HandleMessage(messages.NewSign2(2, ristretto.NewScalar())))
	rd, wr, err := os.Pipe()
	must(err)
	old := os.Stderr
	os.Stderr = wr
	s.ProcessAll()
	os.Stderr = old
	wr.Close()
	b, err := io.ReadAll(rd)
	must(err)
	check(s.Err() != nil, "a wrong share is taken")
	lambda, err := party.ID(1).Lagrange(ids)
	must(err)
	lambda.Multiply(lambda, &sec[1].Secret)
	check(!strings.Contains(string(b), hex.EncodeToString(lambda.Bytes())), "the key share is printed")
}
''', 'encoding/hex', 'io', 'os', 'strings'))
seed('c32-proof-keeps-nonce','C32','a caller that looks at, prints or encodes the object of a first message of key generation',
 'the proof in the message object keeps the nonce it was made with, from which the secret of the party follows',
 [('pkg/internal/zk/schnorr.go','''	S, R ristretto.Scalar
''','''	S, R ristretto.Scalar

	// nonce of a proof that is being made
	k ristretto.Scalar
'''),('pkg/internal/zk/schnorr.go','''	k := scalar.NewScalarRandom()
''','''	k := scalar.SetScalarRandom(&proof.k)
''')],
 src('''func main() {
	s, _, err := frost.NewKeygenState(1, party.IDSlice{1, 2}, 1, 0)
	must(err)
	p := reflect.ValueOf(s.ProcessAll()[0].KeyGen1.Proof).Elem()
	commit := func(x *ristretto.Scalar) string { return string(new(ristretto.Element).ScalarBaseMult(x).Bytes()) }
	known := map[string]bool{}
	for i := 0; i < p.NumField(); i++ {
		x, ok := reflect.NewAt(p.Field(i).Type(), unsafe.Pointer(p.Field(i).UnsafeAddr())).Interface().(*ristretto.Scalar)
		if !ok {
			continue
		}
		if n := p.Type().Field(i).Name; n == "S" || n == "R" {
			continue
		}
		known[commit(x)] = true
	}
	zero := ristretto.NewScalar()
	delete(known, commit(zero))
	check(len(known) == 0, "the proof carries a secret number besides S and R")
}
''', 'reflect', 'unsafe'))

B7 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch7.py"))
seed('c13-timer-once','C13','a timeout that comes up while a call holds the session and is overtaken by an accepted message, after which no message comes any more',
 'the function of the timer is run at most once, so a timeout that did not count is the last one and the session never ends',
 [('pkg/state/state.go','''		t = time.AfterFunc(d, f)
''','''		var once sync.Once
		t = time.AfterFunc(d, func() { once.Do(f) })
''')],
 src('''// slow is a round whose work takes longer than the timeout.
type slow struct {
	*state.BaseRound
	first bool
}

func (r *slow) ProcessMessage(m *messages.Message) *state.Error { return nil }

func (r *slow) GenerateMessages() ([]*messages.Message, *state.Error) {
	if r.first {
		time.Sleep(600 * time.Millisecond)
	}
	return nil, nil
}

func (r *slow) NextRound() state.Round { return &slow{r.BaseRound, false} }

func (r *slow) Reset() {}

func (r *slow) AcceptedMessageTypes() []messages.MessageType {
	return []messages.MessageType{messages.MessageTypeNone, messages.MessageTypeSign1, messages.MessageTypeSign2}
}

func main() {
	b, err := state.NewBaseRound(1, party.IDSlice{1, 2, 3})
	must(err)
	s, err := state.NewBaseState(&slow{b, true}, 300*time.Millisecond)
	must(err)
	go s.ProcessAll()
	time.Sleep(100 * time.Millisecond)
	go s.HandleMessage(messages.NewSign2(2, ristretto.NewScalar()))
	select {
	case <-s.Done():
	case <-time.After(5 * time.Second):
		check(false, "the session never times out")
	}
}
''', 'time'))
