import os, runpy
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch4.py"))
src = B["src"]
SEEDS=[]
def seed(id,prop,needs,breaks,edits,main): SEEDS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,main=main))

STRESS='''// stress calls f from many goroutines until it fails or the time is over.
func stress(f func() bool) bool {
	var bad int32
	var wg sync.WaitGroup
	end := time.Now().Add(20 * time.Second)
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) && atomic.LoadInt32(&bad) == 0 {
				if !f() {
					atomic.StoreInt32(&bad, 1)
				}
			}
		}()
	}
	wg.Wait()
	return bad == 0
}

'''
seed('c28-challenge-buffer','C28','two goroutines that verify at the same time',
 'the input of the challenge hash is put together in a buffer of the package, so concurrent verifications overwrite each other',
 [('pkg/eddsa/signature.go','''// ComputeChallenge computes''','''// challengeInput is kept so that verifying many signatures does not allocate
var challengeInput []byte

// ComputeChallenge computes'''),
  ('pkg/eddsa/signature.go','	data := make([]byte, 0, 64+len(message))\n','	data := challengeInput[:0]\n'),
  ('pkg/eddsa/signature.go','	data = append(data, message...)\n	digest','	data = append(data, message...)\n	challengeInput = data\n	digest')],
 src(STRESS+'''func main() {
	k := newKeygen(1, 0, 1, 2)
	k.run()
	sec, pub := k.keys()
	s := newSign(sec, pub, []byte("m"), 1, 2)
	s.run()
	s2 := newSign(sec, pub, []byte("another"), 1, 2)
	s2.run()
	sig, sig2 := s.out[1].Signature, s2.out[1].Signature
	check(stress(func() bool {
		return pub.GroupKey.Verify([]byte("m"), sig) && pub.GroupKey.Verify([]byte("another"), sig2)
	}), "concurrent verifications of a valid signature fail")
}
''','sync','sync/atomic','time'))

seed('c28-negated-in-place','C28','two goroutines that use one public key at the same time',
 'verification negates the key in place and negates it back afterwards, so whoever uses the key meanwhile sees the negated one',
 [('pkg/eddsa/public_key.go','''	var publicNeg, RPrime ristretto.Element
	publicNeg.Negate(&pk.pk)
''','''	var RPrime ristretto.Element
	pk.pk.Negate(&pk.pk)
'''),
  ('pkg/eddsa/public_key.go','''	RPrime.VarTimeDoubleScalarBaseMult(challenge, &publicNeg, &sig.S)
''','''	RPrime.VarTimeDoubleScalarBaseMult(challenge, &pk.pk, &sig.S)
	pk.pk.Negate(&pk.pk)
''')],
 src(STRESS+'''func main() {
	k := newKeygen(1, 0, 1, 2)
	k.run()
	sec, pub := k.keys()
	s := newSign(sec, pub, []byte("m"), 1, 2)
	s.run()
	sig := s.out[1].Signature
	check(stress(func() bool { return pub.GroupKey.Verify([]byte("m"), sig) }), "concurrent verifications of a valid signature fail")
}
''','sync','sync/atomic','time'))

seed('c28-remembered-coefficient','C28','two goroutines that compute coefficients, one between the two critical sections of the other',
 'the last coefficient is remembered under a lock, but its key is stored before and its value after the computation, so a second goroutine gets the previous coefficient',
 [('pkg/frost/party/id.go','''	"strconv"

''','''	"strconv"
	"sync"

'''),
  ('pkg/frost/party/id.go','''// RandID returns''','''// last remembers the coefficient computed last, since the group key needs the same ones again.
var last struct {
	sync.Mutex
	id     ID
	set    IDSlice
	result ristretto.Scalar
}

// RandID returns'''),
  ('pkg/frost/party/id.go','''	foundSelfInIDs := false
''','''	if partyIDs.Contains(id) {
		last.Lock()
		if last.id == id && last.set.Equal(partyIDs) {
			result := last.result
			last.Unlock()
			return &result, nil
		}
		last.id, last.set = id, partyIDs.Copy()
		last.Unlock()
		defer func() {
			last.Lock()
			if last.id == id && last.set.Equal(partyIDs) {
				last.result = num
			}
			last.Unlock()
		}()
	}

	foundSelfInIDs := false
''')],
 src(STRESS+'''func main() {
	ids := party.IDSlice{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	var want [11][]byte
	for _, id := range ids {
		l, err := id.Lagrange(ids)
		must(err)
		want[id] = l.Bytes()
	}
	ok := stress(func() bool {
		for _, id := range ids {
			l, err := id.Lagrange(ids)
			if err != nil || !bytes.Equal(l.Bytes(), want[id]) {
				return false
			}
		}
		return true
	})
	check(ok, "concurrent computations of coefficients give wrong ones")
}
''','bytes','sync','sync/atomic','time','@frost/party'))
