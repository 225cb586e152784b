import os, runpy
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch3.py"))
src = B["src"]
SEEDS=[]
def seed(id,prop,needs,breaks,edits,main): SEEDS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,main=main))

STREAM='''type stream struct{ n byte }

func (s *stream) Read(p []byte) (int, error) {
	for i := range p {
		s.n = s.n*5 + 7
		p[i] = s.n
	}
	return len(p), nil
}

'''
seed('c26-binding-order','C26','a peer that is not this library',
 'the binding factors hash the message before the identifier of the party; all parties of the library agree, but no peer of an earlier release does',
 [('pkg/frost/sign/round1.go','	offsetID := len(hashDomainSeparation)\n','	offsetID := len(hashDomainSeparation) + len(messageHash)\n'),
  ('pkg/frost/sign/round1.go','	buffer = append(buffer, round.SelfID().Bytes()...)\n	buffer = append(buffer, messageHash[:]...)\n','	buffer = append(buffer, messageHash[:]...)\n	buffer = append(buffer, round.SelfID().Bytes()...)\n')],
 src(STREAM+'''func main() {
	ids := party.IDSlice{1, 2}
	_, sec := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, sec)
	rand.Reader = &stream{}
	var d, e ristretto.Scalar
	b := make([]byte, 64)
	// the nonces are drawn one after the other
	st := &stream{}
	st.Read(b)
	d.SetUniformBytes(b)
	st.Read(b)
	e.SetUniformBytes(b)
	s, _, err := frost.NewSignState(ids, sec[1], pub, []byte("m"), 0)
	must(err)
	m1 := s.ProcessAll()[0]
	var g ristretto.Element
	g.ScalarBaseMult(scalar.NewScalarUInt32(5))
	must(s.HandleMessage(messages.NewSign1(2, &g, &g)))
	out := s.ProcessAll()
	check(len(out) == 1, "no share")
	// the share as the description prescribes
	h := sha512.Sum512([]byte("m"))
	list := []byte{0, 1}
	list = append(list, m1.Sign1.Di.Bytes()...)
	list = append(list, m1.Sign1.Ei.Bytes()...)
	list = append(list, 0, 2)
	list = append(list, g.Bytes()...)
	list = append(list, g.Bytes()...)
	var R ristretto.Element
	R.Set(ristretto.NewIdentityElement())
	var rho1 ristretto.Scalar
	for id := byte(1); id <= 2; id++ {
		in := append([]byte("FROST-SHA512"), 0, id)
		in = append(append(in, h[:]...), list...)
		x := sha512.Sum512(in)
		var rho ristretto.Scalar
		rho.SetUniformBytes(x[:])
		D, E := &g, &g
		if id == 1 {
			rho1.Set(&rho)
			D, E = &m1.Sign1.Di, &m1.Sign1.Ei
		}
		var t ristretto.Element
		t.ScalarMult(&rho, E)
		t.Add(&t, D)
		R.Add(&R, &t)
	}
	c := eddsa.ComputeChallenge(&R, pub.GroupKey, []byte("m"))
	l, err := party.ID(1).Lagrange(ids)
	must(err)
	var z ristretto.Scalar
	z.Multiply(l, &sec[1].Secret)
	z.Multiply(&z, c)
	z.MultiplyAdd(&e, &rho1, &z)
	z.Add(&z, &d)
	check(z.Equal(&out[0].Sign2.Zi) == 1, "the share is not the one the protocol prescribes")
}
''','crypto/rand','crypto/sha512','@eddsa','@frost','@frost/party','@helpers','@internal/scalar','@messages','@ristretto'))

seed('c26-hex-share','C26','a key share stored by an earlier release',
 'stored key shares hold the scalar in big endian; storing and loading agree, but stored shares of earlier releases load as other keys',
 [('pkg/eddsa/secret_share.go','''	return json.Marshal(jsonSecretShare{
		ID:          int(sk.ID),
		SecretShare: sk.Secret.Bytes(),
	})''','''	return json.Marshal(jsonSecretShare{
		ID:          int(sk.ID),
		SecretShare: reversed(sk.Secret.Bytes()),
	})'''),
  ('pkg/eddsa/secret_share.go','''// UnmarshalJSON implements''','''// reversed returns the bytes in the opposite order.
func reversed(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

// UnmarshalJSON implements'''),
  ('pkg/eddsa/secret_share.go','SetCanonicalBytes(out.SecretShare)','SetCanonicalBytes(reversed(out.SecretShare))')],
 src('''func main() {
	var s eddsa.SecretShare
	if err := json.Unmarshal([]byte(`{"id":3,"secret":"BQAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA="}`), &s); err != nil {
		fail("stored share refused: %v", err)
	}
	check(s.ID == 3 && s.Secret.Equal(scalar.NewScalarUInt32(5)) == 1, "stored share read as another")
}
''','encoding/json','@eddsa','@internal/scalar'))

LIVE='''func live() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

'''
seed('c27-refusals-kept','C27','a flood of messages from outsiders',
 'a session counts refused messages by sender and never forgets, so outsiders can make it grow',
 [('pkg/state/state.go','''	queue            []*messages.Message

	timer
''','''	queue            []*messages.Message

	// refused counts what was refused, for diagnostics
	refused map[messages.Header]int

	timer
'''),
  ('pkg/state/state.go','''	if !s.round.PartyIDs().Contains(senderID) {
''','''	if !s.round.PartyIDs().Contains(senderID) {
		if s.refused == nil {
			s.refused = map[messages.Header]int{}
		}
		s.refused[msg.Header]++
''')],
 src(LIVE+'''func main() {
	k := newKeygen(1, 0, 1, 2)
	a := live()
	for i := 3; i < 65536; i++ {
		_ = k.st[1].HandleMessage(messages.NewKeyGen2(party.ID(i), 1, scalar.NewScalarUInt32(1)))
	}
	b := live()
	check(b < a+200000, "refused messages made the session grow by %d bytes", b-a)
	runtime.KeepAlive(k)
}
''','runtime','@frost/party','@internal/scalar','@messages'))

seed('c27-declared-degree','C27','a short message that declares a large degree',
 'the decoder of a committed polynomial reserves the declared number of points before it compares it with the length',
 [('pkg/internal/polynomial/exponent.go','''	remaining := data[party.IDByteSize:]

	count''','''	remaining := data[party.IDByteSize:]
	coefficients := make([]ristretto.Element, coefficientCount)

	count'''),
  ('pkg/internal/polynomial/exponent.go','''	coefficients := make([]ristretto.Element, coefficientCount)
	p.coefficients = make''','''	p.coefficients = make''')],
 src('''func main() {
	m := newKeygen(1, 0, 1, 2).st[1].ProcessAll()[0]
	b := enc([]*messages.Message{m})[0]
	b = append(b[:69], 0xff, 0xf0)
	var x, y runtime.MemStats
	runtime.ReadMemStats(&x)
	err := new(messages.Message).UnmarshalBinary(b)
	runtime.ReadMemStats(&y)
	check(err != nil, "decoded")
	check(y.TotalAlloc-x.TotalAlloc < 1000000, "decoding %d bytes allocates %d", len(b), y.TotalAlloc-x.TotalAlloc)
}
''','runtime','@messages'))

seed('c27-timer-after-abort','C27','sessions that abort long before their timeout',
 'the timer is stopped only by success, so an aborted session stays in memory until its timeout',
 [('pkg/state/state.go','''	s.queue = nil
	s.stopTimer()
''','''	s.queue = nil
	if s.err == nil {
		s.stopTimer()
	}
''')],
 src(LIVE+'''func main() {
	grown := func(n int) uint64 {
		a := live()
		for i := 0; i < n; i++ {
			st, _, err := frost.NewKeygenState(1, party.IDSlice{1, 2}, 1, 1000*time.Hour)
			must(err)
			st.ProcessAll()
			m := newKeygen(1, 0, 2, 3).st[2].ProcessAll()[0]
			b := enc([]*messages.Message{m})[0]
			b[40] ^= 1
			must(st.HandleMessage(dec(b)))
			st.ProcessAll()
			check(st.IsFinished(), "not aborted")
		}
		if b := live(); b > a {
			return b - a
		}
		return 0
	}
	g := grown(500)
	check(g < 200000, "500 aborted sessions still hold %d bytes", g)
}
''','runtime','time','@frost','@frost/party','@messages'))

seed('c12-whole-milliseconds','C12','a timeout of less than a millisecond, or of more than 24 days',
 'the timeout is kept in milliseconds in 32 bits, so some timeouts never come and others come early',
 [('pkg/state/state.go','''	if d > 0 {
		t = time.AfterFunc(d, f)''','''	if ms := int32(d / time.Millisecond); ms > 0 {
		t = time.AfterFunc(time.Duration(ms)*time.Millisecond, f)''')],
 src('''func main() {
	k := newKeygen(1, 600*time.Microsecond, 1, 2)
	k.st[1].ProcessAll()
	select {
	case <-k.st[1].Done():
	case <-time.After(20 * time.Second):
		fail("a session with a timeout of 600 microseconds did not time out")
	}
}
''','time'))

seed('c15-block-of-coefficients','C15','a group of threshold 17 or more',
 'the randomness of the coefficients is read in blocks of 16 and the first of a new block repeats the last of the old one',
 [('pkg/internal/polynomial/polynomial.go','''		_, err = rand.Read(randomBytes)
		if err != nil {
			panic(fmt.Errorf("edwards25519: failed to generate random Scalar: %w", err))
		}
		_, _ = polynomial.coefficients[i].SetUniformBytes(randomBytes)
''','''		if next == len(randomBytes) || i == 1 {
			_, err = rand.Read(randomBytes[:])
			if err != nil {
				panic(fmt.Errorf("edwards25519: failed to generate random Scalar: %w", err))
			}
			if i > 1 {
				copy(randomBytes, last)
			}
			next = 0
		}
		last = append(last[:0], randomBytes[next:next+64]...)
		_, _ = polynomial.coefficients[i].SetUniformBytes(last)
		next += 64
'''),('pkg/internal/polynomial/polynomial.go','	randomBytes := make([]byte, 64)\n','	var last []byte\n	next := 0\n	randomBytes := make([]byte, 16*64)\n')],
 src('''func main() {
	p := polynomial.NewPolynomial(40, scalar.NewScalarRandom())
	e := polynomial.NewPolynomialExponent(p)
	b, err := e.MarshalBinary()
	must(err)
	seen := map[string]bool{}
	for b = b[2:]; len(b) > 0; b = b[32:] {
		check(!seen[string(b[:32])], "two coefficients are equal")
		seen[string(b[:32])] = true
	}
}
''','@internal/polynomial','@internal/scalar'))
