IMP='''package main

import (
%s)

'''
def src(body,*imps):
    b='github.com/taurusgroup/frost-ed25519/pkg/'
    out=''
    for i in imps:
        out+='\t"%s"\n'%(b+i[1:] if i.startswith('@') else i)
    return IMP%out+body
SEEDS=[]
def seed(id,prop,needs,breaks,edits,main): SEEDS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,main=main))



seed('c18-stale-public','C18','loading a share over an existing value of the same party',
 'a share loaded from JSON into a value that already holds a share of the party keeps the old public share',
 [('pkg/eddsa/secret_share.go',"""	sk.ID = party.ID(out.ID)
	if _, err := sk.Secret.SetCanonicalBytes(out.SecretShare); err != nil {
		return err
	}
	sk.Public.ScalarBaseMult(&sk.Secret)
""","""	if _, err := sk.Secret.SetCanonicalBytes(out.SecretShare); err != nil {
		return err
	}
	if sk.ID != party.ID(out.ID) {
		sk.Public.ScalarBaseMult(&sk.Secret)
	}
	sk.ID = party.ID(out.ID)
""")],
 src("""func main() {
	a := eddsa.NewSecretShare(2, scalar.NewScalarRandom())
	b := eddsa.NewSecretShare(2, scalar.NewScalarRandom())
	j, err := json.Marshal(b)
	must(err)
	must(json.Unmarshal(j, a))
	check(a.Public.Equal(&b.Public) == 1, "the public share is stale")
}
""",'encoding/json','@eddsa','@internal/scalar'))

seed('c19-long-message','C19','a message of more than 4 kB',
 'the challenge is computed over a buffer of fixed size, so long messages are cut; both sides of the library agree but standard Ed25519 does not',
 [('pkg/eddsa/signature.go',"""	data := make([]byte, 0, 64+len(message))
	data = append(data, R.BytesEd25519()...)
	data = append(data, groupKey.ToEd25519()...)
	data = append(data, message...)
	digest := sha512.Sum512(data)
""","""	// a fixed buffer stays on the stack
	var buffer [64 + 4096]byte
	copy(buffer[:32], R.BytesEd25519())
	copy(buffer[32:64], groupKey.ToEd25519())
	n := copy(buffer[64:], message)
	digest := sha512.Sum512(buffer[:64+n])
""")],
 src("""func main() {
	k := newKeygen(1, 0, 1, 2)
	k.run()
	sec, pub := k.keys()
	msg := make([]byte, 5000)
	s := newSign(sec, pub, msg, 1, 2)
	s.run()
	if s.out[1].Signature == nil {
		return
	}
	sig := s.out[1].Signature
	check(pub.GroupKey.Verify(msg, sig) == ed25519.Verify(pub.GroupKey.ToEd25519(), msg, sig.ToEd25519()), "the library and standard Ed25519 disagree on a long message")
}
""",'crypto/ed25519'))

seed('c20-subtract-aliasing','C20','a subtraction whose result replaces its first operand',
 'Subtract negates into the receiver first, so e.Subtract(e, q) yields -2q',
 [('pkg/ristretto/ristretto.go','	e.r.Subtract(&p.r, &q.r)\n	return e','	e.r.Negate(&q.r)\n	e.r.Add(&p.r, &e.r)\n	return e')],
 src("""func main() {
	var a, b, c ristretto.Element
	a.ScalarBaseMult(scalar.NewScalarUInt32(7))
	b.ScalarBaseMult(scalar.NewScalarUInt32(5))
	c.ScalarBaseMult(scalar.NewScalarUInt32(2))
	a.Subtract(&a, &b)
	check(a.Equal(&c) == 1, "7B - 5B is not 2B in place")
}
""",'@internal/scalar','@ristretto'))

seed('c21-octal-ids','C21','an identifier written with a leading zero or a 0x prefix',
 'texts of identifiers are read with their prefix, so 010 becomes 8 and 0x10 is accepted',
 [('pkg/frost/party/id.go','strconv.ParseUint(string(text), 10, 16)','strconv.ParseUint(string(text), 0, 16)')],
 src("""func main() {
	var id party.ID
	if err := id.UnmarshalText([]byte("010")); err == nil {
		check(id == 10, "the text 010 was read as %d", id)
	}
	if err := id.UnmarshalText([]byte("0x10")); err == nil {
		fail("the text 0x10 was accepted as an identifier")
	}
}
""",'@frost/party'))

seed('c21-lagrange-overflow','C21','six signers, five of them with identifiers above 7131',
 'the numerator of small sets is multiplied in 64 bits and overflows for large identifiers',
 [('pkg/frost/party/id.go',"""		// num = x₀ * ... * xₖ
		num.Multiply(&num, &xM) // num * xM
""","""		// num = x₀ * ... * xₖ
		if len(partyIDs) <= 6 {
			small *= uint64(partyID)
		} else {
			num.Multiply(&num, &xM) // num * xM
		}
"""),('pkg/frost/party/id.go','	foundSelfInIDs := false\n','	small := uint64(1)\n	foundSelfInIDs := false\n'),
 ('pkg/frost/party/id.go','	denum.Invert(&denum)\n',"""	if len(partyIDs) <= 6 {
		var b [32]byte
		binary.LittleEndian.PutUint64(b[:], small)
		_, _ = num.SetCanonicalBytes(b[:])
	}
	denum.Invert(&denum)
""")],
 src("""func main() {
	ids := party.IDSlice{60001, 60002, 60003, 60004, 60005, 60006}
	sum := ristretto.NewScalar()
	for _, id := range ids {
		l, err := id.Lagrange(ids)
		must(err)
		sum.Add(sum, l)
	}
	check(sum.Equal(scalar.NewScalarUInt32(1)) == 1, "the Lagrange coefficients do not add up to 1")
}
""",'@frost/party','@ristretto','@internal/scalar'))

seed('c14-secret-scaled','C14','signing twice with the same key share in one process',
 'creating a signing session scales the key share of the caller in place, so the next session with it fails',
 [('pkg/frost/sign/base.go','	round.SecretKeyShare.Multiply(lagrange, &secret.Secret)','	round.SecretKeyShare.Set(secret.Secret.Multiply(lagrange, &secret.Secret))')],
 src("""func main() {
	k := newKeygen(1, 0, 1, 2)
	k.run()
	sec, pub := k.keys()
	before := sec[1].Secret.Bytes()
	newSign(sec, pub, []byte("m"), 1, 2)
	check(bytes.Equal(before, sec[1].Secret.Bytes()), "the key share was changed by creating a session")
}
""",'bytes'))

seed('c13-unlocked-check','C13','HandleMessage concurrently with ProcessAll or another HandleMessage',
 'the checks of a message run before the lock is taken, so two concurrent deliveries of a message are both accepted and the state is read while it changes',
 [('pkg/state/state.go',"""	s.mtx.Lock()
	defer s.mtx.Unlock()

	if s.done {
		return s.wrapError""","""	if s.done {
		return s.wrapError"""),
  ('pkg/state/state.go',"""	s.ackMessage()

	if msg.Type""","""	s.mtx.Lock()
	defer s.mtx.Unlock()

	s.ackMessage()

	if msg.Type""")],
 src("""// A message whose content check is slow enough is not available, so the demonstration uses many rounds.
func main() {
	for i := 0; i < 3000; i++ {
		k := newKeygen(1, 0, 1, 2)
		m := k.st[2].ProcessAll()[0]
		k.st[1].ProcessAll()
		var n int32
		var wg, ready sync.WaitGroup
		start := make(chan struct{})
		for j := 0; j < 8; j++ {
			wg.Add(1)
			ready.Add(1)
			go func() {
				defer wg.Done()
				ready.Done()
				<-start
				if k.st[1].HandleMessage(m) == nil {
					atomic.AddInt32(&n, 1)
				}
			}()
		}
		ready.Wait()
		close(start)
		wg.Wait()
		check(n == 1, "one message was accepted %d times", n)
	}
}
""",'sync','sync/atomic'))

seed('c23-outsiders','C23','a signer list with a party that holds no share, no longer than the list of holders',
 'only the number of signers is compared with the number of holders, so a session with an outsider is created or crashes',
 [('pkg/frost/sign/base.go','	if !partyIDs.IsSubsetOf(shares.PartyIDs) {','	if partyIDs.N() > shares.PartyIDs.N() || !shares.PartyIDs.Contains(secret.ID) {')],
 src("""func main() {
	k := newKeygen(1, 0, 1, 2, 3)
	k.run()
	sec, pub := k.keys()
	if _, _, err := frost.NewSignState(party.IDSlice{1, 7}, sec[1], pub, nil, 0); err == nil {
		fail("a session with an outsider was created")
	}
}
""",'@frost','@frost/party'))

seed('c03-lower-degree','C06','a dealer that commits to a polynomial of a lower degree',
 'a committed polynomial of a lower degree is padded instead of refused, so the dealer that cheats is not blamed',
 [('pkg/internal/polynomial/exponent.go',"""	if len(p.coefficients) != len(q.coefficients) {
		return errors.New("q is not the same length as p")
	}

	for i := 0; i < len(p.coefficients); i++ {
""","""	if len(p.coefficients) < len(q.coefficients) {
		return errors.New("q is longer than p")
	}

	for i := 0; i < len(q.coefficients); i++ {
""")],
 src("""func main() {
	k := newKeygen(2, 0, 1, 2, 3)
	x := scalar.NewScalarRandom()
	p := polynomial.NewPolynomial(1, x)
	c := polynomial.NewPolynomialExponent(p)
	m := messages.NewKeyGen1(2, zk.NewSchnorrProof(2, c.Constant(), make([]byte, 32), x), c)
	k.st[1].ProcessAll()
	_ = k.st[1].HandleMessage(m)
	_ = k.st[1].HandleMessage(k.st[3].ProcessAll()[0])
	k.st[1].ProcessAll()
	check(k.st[1].Err() != nil, "a polynomial of degree 1 was accepted in a key with threshold 2")
}
""",'@internal/scalar','@internal/polynomial','@internal/zk','@messages'))

seed('c24-trimmed-message','C24','a message with blanks at its ends',
 'cmd/signer trims the message, so the signature it prints is for another message than the one given',
 [('cmd/signer/signer.go','	message := []byte(os.Args[2])','	message := []byte(strings.TrimSpace(os.Args[2]))'),('cmd/signer/signer.go','	"path/filepath"\n','	"path/filepath"\n	"strings"\n')],
 src("""func main() {
	d, err := os.MkdirTemp("", "demo")
	must(err)
	defer os.RemoveAll(d)
	for _, x := range []string{"keygen", "signer"} {
		out, err := exec.Command("go", "build", "-o", d+"/"+x, "./cmd/"+x).CombinedOutput()
		if err != nil {
			fail("build: %s", out)
		}
	}
	c := exec.Command(d+"/keygen", "1", "2")
	c.Dir = d
	must(c.Run())
	msg := " pay 10 "
	c = exec.Command(d+"/signer", "keygenout.json", msg)
	c.Dir = d
	out, err := c.CombinedOutput()
	must(err)
	m := regexp.MustCompile("r: ([0-9a-f]{64})\\ns: ([0-9a-f]{64})").FindSubmatch(out)
	check(m != nil, "no signature: %s", out)
	raw, _ := hex.DecodeString(string(m[1]) + string(m[2]))
	js, err := os.ReadFile(d + "/keygenout.json")
	must(err)
	var key struct{ Shares *eddsa.Public }
	must(json.Unmarshal(js, &key))
	os.RemoveAll(d)
	check(ed25519.Verify(key.Shares.GroupKey.ToEd25519(), []byte(msg), raw), "the signature printed is not for the message given")
}
""",'crypto/ed25519','os','os/exec','encoding/hex','encoding/json','regexp','@eddsa'))
