IMP='''package main

import (
%s)

'''
def src(body,*imps):
    b='github.com/taurusgroup/frost-ed25519/pkg/'
    out=''
    for i in imps:
        out+='\t"%s"\n'%(b+i[1:] if i.startswith('@') else i)
    return IMP%out+body
SEEDS=[]
def seed(id,prop,needs,breaks,edits,main): SEEDS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,main=main))


seed('c02-single-signer-unchecked','C02','a signing session with a single signer of a key with threshold 1 or more',
 'the final verification is skipped when there is one signer, so a session releases a signature that does not verify',
 [('pkg/frost/sign/round2.go','	if !round.GroupKey.Verify(round.Message, sig) {','	// with a single signer every share has been made by us\n	if len(round.Parties) > 1 && !round.GroupKey.Verify(round.Message, sig) {')],
 src('''func main() {
	k := newKeygen(1, 0, 1, 2, 3)
	k.run()
	sec, pub := k.keys()
	s := newSign(sec, pub, []byte("m"), 2)
	s.run()
	check(s.st[2].IsFinished(), "the session did not end")
	check(s.st[2].WaitForError() != nil && s.out[2].Signature == nil, "a single signer of a threshold 1 key got a signature")
}
'''))

seed('c03-same-coefficients','C15','threshold 2 or more, and looking at the higher coefficients',
 'the randomness for the polynomial is read once, so all coefficients above the constant are the same scalar',
 [('pkg/internal/polynomial/polynomial.go','''	randomBytes := make([]byte, 64)
	for i := party.Size(1); i <= degree; i++ {
		_, err = rand.Read(randomBytes)
		if err != nil {
			panic(fmt.Errorf("edwards25519: failed to generate random Scalar: %w", err))
		}
		_, _ = ''','''	randomBytes := make([]byte, 64)
	_, err = rand.Read(randomBytes)
	if err != nil {
		panic(fmt.Errorf("edwards25519: failed to generate random Scalar: %w", err))
	}
	for i := party.Size(1); i <= degree; i++ {
		_, _ = ''')],
 src('''func main() {
	k := newKeygen(3, 0, 1, 2, 3, 4)
	m := deliver(k.ids, k.st, nil)
	for _, b := range m {
		// header 5, proof 64, degree 2, then the coefficients
		c := b[5+64+2:]
		for i := 1; i <= 3; i++ {
			for j := i + 1; j <= 3; j++ {
				check(!bytes.Equal(c[32*i:32*i+32], c[32*j:32*j+32]), "commitments %d and %d of a polynomial are the same", i, j)
			}
		}
	}
}
''','bytes'))


seed('c05-self-message-counts','C05','a broadcast of the party is echoed back to it by the network',
 'an echo of its own message is refused with an error only when the party has no more rounds; before that it is stored in the queue and counted as a message of a party',
 [('pkg/state/state.go','''	if senderID == s.round.SelfID() {
		return nil
	}
''','''	if senderID == s.round.SelfID() && msg.Type == s.acceptedTypes[0] {
		return nil
	}
''')],
 src('''func main() {
	k := newKeygen(1, 0, 1, 2, 3)
	sec, pub := func() (map[party.ID]*eddsa.SecretShare, *eddsa.Public) { k.run(); return k.keys() }()
	s := newSign(sec, pub, []byte("m"), 1, 2, 3)
	// another instance of party 1 sends its commitment before party 1 has started
	x := newSign(sec, pub, []byte("m"), 1, 2, 3)
	_ = s.st[1].HandleMessage(x.st[1].ProcessAll()[0])
	s.run()
	for _, id := range s.ids {
		check(s.st[id].IsFinished() && s.st[id].Err() == nil, "party %d did not finish because of an echo", id)
	}
}
''','@eddsa','@frost/party'))

seed('c06-batched-vss','C06','two cheaters whose wrong shares cancel',
 'the shares are verified only in sum, so two cheaters can hand out wrong shares that cancel',
 [('pkg/frost/keygen/base.go','''		Output *Output
	}
''','''		// missing is the sum of the differences between shares and commitments
		missing *ristretto.Element
		culprit party.ID

		Output *Output
	}
'''),
 ('pkg/frost/keygen/round2.go','''	if computedShareExp.Equal(shareExp) != 1 {
		return state.NewError(id, errors.New("VSS failed to validate"))
	}
''','''	// the differences are checked together once all shares are there
	if computedShareExp.Equal(shareExp) != 1 {
		if round.missing == nil {
			round.missing = ristretto.NewIdentityElement()
			round.culprit = id
		}
		round.missing.Add(round.missing, computedShareExp.Subtract(&computedShareExp, shareExp))
	}
'''),
 ('pkg/frost/keygen/round2.go','''	shares := make(map''','''	if round.missing != nil && round.missing.Equal(ristretto.NewIdentityElement()) != 1 {
		return nil, state.NewError(round.culprit, errors.New("VSS failed to validate"))
	}
	shares := make(map''')],
 src('''func main() {
	k := newKeygen(1, 0, 1, 2, 3)
	m := deliver(k.ids, k.st, nil)
	m = deliver(k.ids, k.st, m)
	one := scalar.NewScalarUInt32(1)
	for _, b := range m {
		x := dec(b)
		if x.To != 1 {
			continue
		}
		if x.From == 2 {
			x.KeyGen2.Share.Add(&x.KeyGen2.Share, one)
		} else {
			x.KeyGen2.Share.Subtract(&x.KeyGen2.Share, one)
		}
		_ = k.st[1].HandleMessage(x)
	}
	k.st[1].ProcessAll()
	check(k.st[1].Err() != nil, "two wrong shares that cancel were accepted")
}
''','@internal/scalar'))

seed('c07-identity-ei','C07','a co-signer that sends the identity as its second commitment',
 'the identity is accepted as commitment Ei, so a cheating signer is not blamed',
 [('pkg/frost/sign/round1.go','''	if msg.Sign1.Di.Equal(identity) == 1 || msg.Sign1.Ei.Equal(identity) == 1 {''','''	if msg.Sign1.Di.Equal(identity) == 1 && msg.Sign1.Ei.Equal(identity) == 1 {''')],
 src('''func main() {
	k := newKeygen(1, 0, 1, 2)
	k.run()
	sec, pub := k.keys()
	s := newSign(sec, pub, []byte("m"), 1, 2)
	m := deliver(s.ids, s.st, nil)
	x := dec(m[1])
	x.Sign1.Ei.Set(ristretto.NewIdentityElement())
	_ = s.st[1].HandleMessage(x)
	out := s.st[1].ProcessAll()
	err, _ := s.st[1].Err().(*state.Error)
	check(len(out) == 0 && err != nil && err.PartyID == 2, "an identity commitment of party 2 was not blamed on it: %v", s.st[1].Err())
}
''','@ristretto','@state'))

seed('c08-short-polynomial','C08','a keygen commitment message cut to exactly the proof',
 'the decoder of a committed polynomial slices before it checks the length, so a cut message crashes the party',
 [('pkg/internal/polynomial/exponent.go','''	degree, err := party.FromBytes(data)
	if err != nil {
		return err
	}
''','''	degree, err := party.FromBytes(append([]byte{}, data...))
'''),('pkg/internal/polynomial/exponent.go','''	remaining := data[party.IDByteSize:]
''','''	remaining := data[party.IDByteSize:]
	if err != nil {
		return err
	}
''')],
 src('''func main() {
	k := newKeygen(1, 0, 1, 2)
	b := enc(k.st[2].ProcessAll())[0]
	var x messages.Message
	if err := x.UnmarshalBinary(b[:5+64]); err == nil {
		fail("a cut message was decoded")
	}
}
''','@messages'))

seed('c09-trailing-share','C09','a share message with extra bytes behind the share',
 'a keygen share followed by other bytes decodes to the same message, so it has many encodings',
 [('pkg/messages/keygen2.go','	if len(data) != sizeKeygen2 {','	if len(data) < sizeKeygen2 {'),('pkg/messages/keygen2.go','SetCanonicalBytes(data)','SetCanonicalBytes(data[:sizeKeygen2])')],
 src('''func main() {
	k := newKeygen(1, 0, 1, 2)
	m := deliver(k.ids, k.st, nil)
	m = deliver(k.ids, k.st, m)
	var x messages.Message
	if err := x.UnmarshalBinary(append(append([]byte{}, m[0]...), 0)); err == nil {
		fail("a share message with a trailing byte was decoded")
	}
}
''','@messages'))

seed('c10-low-id-byte','C10','two identifiers that differ by a multiple of 256',
 'the challenge of a proof of knowledge covers only the low byte of the prover, so party 257 can replay the proof of party 1',
 [('pkg/internal/zk/schnorr.go','h.Write(partyID.Bytes())','h.Write(partyID.Bytes()[party.IDByteSize-1:])')],
 src('''func main() {
	x := scalar.NewScalarRandom()
	var X ristretto.Element
	X.ScalarBaseMult(x)
	ctx := make([]byte, 32)
	p := zk.NewSchnorrProof(1, &X, ctx, x)
	check(p.Verify(1, &X, ctx), "honest proof refused")
	check(!p.Verify(257, &X, ctx), "the proof of party 1 is valid for party 257")
}
''','@internal/scalar','@internal/zk','@ristretto'))

seed('c10-half-context','C10','two contexts that differ only in their second half',
 'only half of the context is hashed into the challenge',
 [('pkg/internal/zk/schnorr.go','h.Write(context[:32])','h.Write(context[:16])')],
 src('''func main() {
	x := scalar.NewScalarRandom()
	var X ristretto.Element
	X.ScalarBaseMult(x)
	ctx, other := make([]byte, 32), make([]byte, 32)
	other[31] = 1
	p := zk.NewSchnorrProof(1, &X, ctx, x)
	check(p.Verify(1, &X, ctx), "honest proof refused")
	check(!p.Verify(1, &X, other), "a proof is valid in another context")
}
''','@internal/scalar','@internal/zk','@ristretto'))

seed('c11-late-timeout','C11','a session that has finished, and then its timeout passes',
 'the timer is not stopped at the end and a late timeout still records an error, so a successful session turns into a failed one',
 [('pkg/state/state.go','''	if s.done {
		return
	}
	defer s.finish()
''','''	defer s.finish()
'''),('pkg/state/state.go','''	s.stopTimer()
	close(s.doneChan)''','''	close(s.doneChan)''')],
 src('''func main() {
	k := newKeygen(1, 300*time.Millisecond, 1, 2)
	k.run()
	k.keys()
	time.Sleep(700 * time.Millisecond)
	check(k.st[1].Err() == nil, "a finished session reports %v", k.st[1].Err())
}
''','time'))

seed('c12-invalid-extends','C12','duplicates or messages of strangers that keep arriving',
 'messages that are refused restart the timeout, so a session can be kept from timing out',
 [('pkg/state/state.go','''	s.ackMessage()

''',''),('pkg/state/state.go','''	// Is the sender in our list of participants?
''','''	s.ackMessage()

	// Is the sender in our list of participants?
''')],
 src('''func main() {
	k := newKeygen(1, 400*time.Millisecond, 1, 2)
	b := enc(k.st[2].ProcessAll())[0]
	k.st[1].ProcessAll()
	b[2] = 9 // the sender is not a party
	for i := 0; i < 12; i++ {
		_ = k.st[1].HandleMessage(dec(b))
		time.Sleep(100 * time.Millisecond)
	}
	check(k.st[1].IsFinished(), "messages of a stranger keep the session from timing out")
}
''','time'))

seed('c14-shared-coefficients','C14','looking at the commitment message again after other commitments have been processed',
 'the copy of a committed polynomial shares its points, so the message already handed out changes while the session goes on',
 [('pkg/internal/polynomial/exponent.go','''	coefficients := make([]ristretto.Element, len(p.coefficients))
	q.coefficients = make([]*ristretto.Element, len(p.coefficients))
	for i := 0; i < len(p.coefficients); i++ {
		q.coefficients[i] = coefficients[i].Set(p.coefficients[i])
	}
''','''	q.coefficients = append([]*ristretto.Element(nil), p.coefficients...)
''')],
 src('''func main() {
	k := newKeygen(1, 0, 1, 2)
	m := k.st[1].ProcessAll()
	before := enc(m)[0]
	for _, x := range k.st[2].ProcessAll() {
		must(k.st[1].HandleMessage(x))
	}
	k.st[1].ProcessAll()
	check(bytes.Equal(before, enc(m)[0]), "a message that was handed out has changed")
}
''','bytes'))

seed('c16-top-coefficient','C16','looking at the memory of a session that ended before its shares were sent',
 'erasing a polynomial leaves its highest coefficient in memory',
 [('pkg/internal/polynomial/polynomial.go','	for i := range p.coefficients {\n		p.coefficients[i].Set(zero)','	for i := party.Size(0); i < p.Degree(); i++ {\n		p.coefficients[i].Set(zero)')],
 src('''func main() {
	x := scalar.NewScalarRandom()
	p := polynomial.NewPolynomial(2, x)
	p.Reset()
	check(p.Evaluate(scalar.NewScalarUInt32(2)).Equal(scalar.NewScalarUInt32(0)) == 1, "an erased polynomial is not zero")
}
''','@internal/scalar','@internal/polynomial'))

seed('c17-ei-not-bound','C17','a co-signer that changes only its second commitment',
 'the binding factors cover the first commitment twice and not the second, so the shares are not bound to all commitments',
 [('pkg/frost/sign/round1.go','''otherParty.Ei.Bytes()...)''','''otherParty.Di.Bytes()...)''')],
 src('''// With E not bound, the binding factor of party 1 is the same for two different E of party 2, so
// R - R' = rho2 (E2 - E2'), which the demonstration checks on the released shares through the challenge.
func main() {
	k := newKeygen(1, 0, 1, 2)
	k.run()
	sec, pub := k.keys()
	s := newSign(sec, pub, []byte("m"), 1, 2)
	d1 := s.st[1].ProcessAll()[0]
	d2 := s.st[2].ProcessAll()[0]
	must(s.st[2].HandleMessage(dec(enc([]*messages.Message{d1})[0])))
	must(s.st[1].HandleMessage(dec(enc([]*messages.Message{d2})[0])))
	z := s.st[1].ProcessAll()[0].Sign2.Zi
	// expected: z*B == D1 + rho1*E1 + lambda1*c*P1, with rho computed as documented
	rho := map[party.ID]*ristretto.Scalar{}
	h := sha512.Sum512([]byte("m"))
	var B []byte
	for i, m := range []*messages.Message{d1, d2} {
		B = append(B, party.ID(i+1).Bytes()...)
		B = append(B, m.Sign1.Di.Bytes()...)
		B = append(B, m.Sign1.Ei.Bytes()...)
	}
	R := ristretto.NewIdentityElement()
	for i, m := range []*messages.Message{d1, d2} {
		id := party.ID(i + 1)
		buf := append([]byte("FROST-SHA512"), id.Bytes()...)
		buf = append(append(buf, h[:]...), B...)
		x := sha512.Sum512(buf)
		r, err := ristretto.NewScalar().SetUniformBytes(x[:])
		must(err)
		rho[id] = r
		var e ristretto.Element
		e.ScalarMult(r, &m.Sign1.Ei)
		R.Add(R, &e)
		R.Add(R, &m.Sign1.Di)
	}
	c := eddsa.ComputeChallenge(R, pub.GroupKey, []byte("m"))
	l, err := party.ID(1).Lagrange(party.IDSlice{1, 2})
	must(err)
	c.Multiply(c, l)
	var left, e, p ristretto.Element
	left.ScalarBaseMult(&z)
	e.ScalarMult(rho[1], &d1.Sign1.Ei)
	p.ScalarMult(c, pub.Shares[1])
	e.Add(&e, &p)
	e.Add(&e, &d1.Sign1.Di)
	check(left.Equal(&e) == 1, "the signature share is not bound to all commitments")
}
''','crypto/sha512','@eddsa','@frost/party','@messages','@ristretto'))

seed('c18-groupkey-unchecked','C18','stored public data whose group key was replaced by another valid key',
 'the stored group key is used without comparing it with the shares',
 [('pkg/eddsa/public.go','''	computedGroupKey := computeGroupKey(newS.PartyIDs, out.Shares)
	if !computedGroupKey.Equal(out.GroupKey) {
		return errors.New("PublicShares: inconsistent group key")
	}

''','''	// keep the key as it was stored
	newS.GroupKey = out.GroupKey

''')],
 src('''func main() {
	a, b := newKeygen(1, 0, 1, 2), newKeygen(1, 0, 1, 2)
	a.run()
	b.run()
	_, pa := a.keys()
	_, pb := b.keys()
	ja, err := json.Marshal(pa)
	must(err)
	ka, _ := json.Marshal(pa.GroupKey)
	kb, _ := json.Marshal(pb.GroupKey)
	var p eddsa.Public
	must(json.Unmarshal(ja, &p))
	check(p.Equal(pa), "public data changed")
	if json.Unmarshal(bytes.Replace(ja, ka, kb, 1), &p) == nil {
		fail("public data with a foreign group key was accepted")
	}
}
''','bytes','encoding/json','@eddsa'))

seed('c22-sum-of-one','C22','summing committed polynomials and using an operand afterwards',
 'Sum adds into its first operand, so that polynomial no longer commits to its own coefficients',
 [('pkg/internal/polynomial/exponent.go','	summed := polynomials[0].Copy()','	summed := &Exponent{coefficients: polynomials[0].coefficients}')],
 src('''func main() {
	a := polynomial.NewPolynomialExponent(polynomial.NewPolynomial(1, scalar.NewScalarRandom()))
	b := polynomial.NewPolynomialExponent(polynomial.NewPolynomial(1, scalar.NewScalarRandom()))
	c := a.Copy()
	_, err := polynomial.Sum([]*polynomial.Exponent{a, b})
	must(err)
	check(a.Equal(c), "Sum changed its first operand")
}
''','@internal/scalar','@internal/polynomial'))

seed('c25-share-to-self','C25','looking at the messages of the second round',
 'a party also sends out the share it keeps for itself, which is all that protects its final key share',
 [('pkg/frost/keygen/round1.go','''		if id == round.SelfID() {
			continue
		}
''','')],
 src('''func main() {
	k := newKeygen(1, 0, 1, 2, 3)
	m := deliver(k.ids, k.st, nil)
	for _, b := range deliver(k.ids, k.st, m) {
		x := dec(b)
		check(x.From != x.To, "party %d sends its own share", x.From)
	}
}
'''))
