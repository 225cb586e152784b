//go:build go1.21

package sim

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vrt"
)

// Msg is one entry of a message menu.
type Msg struct {
	Name string
	B    []byte                   // encoding, or
	Make func() *messages.Message // a message object handed over directly
	From party.ID
	To   party.ID
	Type int
	// Cost is what delivering it takes from the deviation budget (0 for the expected messages).
	Cost int
	// After: deliverable only once the session has made this many steps (0: any time). Honest peers
	// cannot send their second-round message earlier than the session's first step.
	After int
	// AfterEnd: offered only once the session is over.
	AfterEnd bool
	// Malformed messages must be refused whenever they are offered.
	Malformed bool
}

// Enc makes a menu entry from an encoding.
func Enc(name string, b []byte) Msg {
	return Msg{Name: name, B: b, From: From(b), To: To(b), Type: Typ(b)}
}

// Proto describes one party's session and its environment.
type Proto struct {
	Name    string
	Keygen  bool
	Self    party.ID
	IDs     party.IDSlice
	T       party.Size
	Timeout time.Duration
	Keys    *Keys  // signing
	Text    []byte // signing: message to sign
	Label   string
	base    map[string]*Base
}

// New makes a fresh session; its randomness is the same every time.
func (p *Proto) New() *Sess {
	r := rnd.New(fmt.Sprintf("%s/%d", p.Label, p.Self))
	var s *Sess
	var err error
	if p.Keygen {
		s, err = NewKeygen(p.Self, p.IDs.Copy(), p.T, p.Timeout, r)
	} else {
		s, err = NewSign(p.IDs.Copy(), p.Keys.Secret[p.Self], p.Keys.Public, append([]byte(nil), p.Text...), p.Timeout, r)
	}
	if err != nil {
		panic(fmt.Sprintf("valid configuration refused: %v", err))
	}
	return s
}

// Types returns the message kinds of the two message rounds.
func (p *Proto) Types() [2]int {
	if p.Keygen {
		return [2]int{K1, K2}
	}
	return [2]int{S1, S2}
}

// Others returns the other participants.
func (p *Proto) Others() []party.ID {
	var out []party.ID
	for _, id := range p.IDs {
		if id != p.Self {
			out = append(out, id)
		}
	}
	return out
}

// Base is the behaviour of an undisturbed session given exactly these accepted messages in
// canonical order: what it emits in each step and how it ends.
type Base struct {
	Emit  [3][][]byte
	Steps int
	Err   bool
	Round int
	Who   map[party.ID]bool // acceptable culprits (0: nobody to blame)
	Out   string
}

// Accepted holds, per message round (1 or 2), the encoding accepted from each sender.
type Accepted [3]map[party.ID][]byte

func (a *Accepted) key(upto int) string {
	var sb strings.Builder
	for r := 1; r <= upto; r++ {
		var ids []int
		for id := range a[r] {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		for _, id := range ids {
			fmt.Fprintf(&sb, "%d/%d=%x;", r, id, a[r][party.ID(id)])
		}
	}
	return sb.String()
}

// Judge returns the senders whose accepted message of the round is invalid, and whether the round
// fails although nobody can be blamed (too few signers).
func (p *Proto) Judge(a *Accepted, round int, own [3][][]byte) (map[party.ID]bool, bool) {
	bad := map[party.ID]bool{}
	switch {
	case p.Keygen && round == 1:
		for id, m := range a[1] {
			if JudgeK1(p.T, m) {
				bad[id] = true
			}
		}
	case p.Keygen && round == 2:
		for id, m := range a[2] {
			if JudgeK2(p.Self, a[1][id], m) {
				bad[id] = true
			}
		}
	case round == 1:
		for id, m := range a[1] {
			if JudgeS1(m) {
				bad[id] = true
			}
		}
	case round == 2:
		v := p.View(a, own)
		for id, m := range a[2] {
			if v.JudgeS2(m) {
				bad[id] = true
			}
		}
		if len(bad) == 0 && len(p.IDs) <= int(p.Keys.T) {
			return bad, true
		}
	}
	return bad, false
}

// View builds the signer's view.
func (p *Proto) View(a *Accepted, own [3][][]byte) *View {
	v := &View{IDs: p.IDs, Msg: p.Text, S1: map[party.ID][]byte{}, Pub: map[party.ID][]byte{},
		Group: ref.BaseMul(p.Keys.Coeffs[0]).EncodeEd()}
	for id, m := range a[1] {
		v.S1[id] = m
	}
	v.S1[p.Self] = own[0][0]
	for _, id := range p.IDs {
		v.Pub[id] = BaseEnc(p.Keys.Share[id])
	}
	return v
}

// Baseline computes (once) the undisturbed behaviour for the accepted messages of the first upto
// message rounds.
func (p *Proto) Baseline(a *Accepted, upto int) *Base {
	if p.base == nil {
		p.base = map[string]*Base{}
	}
	key := fmt.Sprintf("%d|%s", upto, a.key(upto))
	if b, ok := p.base[key]; ok {
		return b
	}
	b := &Base{}
	p.base[key] = b
	// computed for one order of map iteration; the explorer compares all orders with it. The
	// virtual clock is not touched: the session of the baseline has no timeout.
	defer vrt.SetPerm(vrt.Perm())
	vrt.SetPerm(0)
	timeout := p.Timeout
	p.Timeout = 0
	defer func() { p.Timeout = timeout }()
	s := p.New()
	b.Emit[0] = s.Process()
	b.Steps = 1
	for r := 1; r <= upto; r++ {
		for _, id := range p.Others() {
			if err := s.Handle(a[r][id]); err != nil {
				panic(fmt.Sprintf("baseline: message kind %d from %d refused in canonical order: %v", p.Types()[r-1], id, err))
			}
		}
		bad, unattributed := p.Judge(a, r, b.Emit)
		b.Emit[r] = s.Process()
		b.Steps++
		if len(bad) > 0 || unattributed {
			b.Err, b.Round, b.Who = true, r, bad
			if unattributed {
				b.Who = map[party.ID]bool{0: true}
			}
			// the implementation's own verdict is compared by the lockstep checks
			return b
		}
	}
	if upto == 2 {
		b.Out = s.OutKey()
		p.checkOutput(s, a, b)
	}
	return b
}

// checkOutput checks the output of a successful session with reference arithmetic.
func (p *Proto) checkOutput(s *Sess, a *Accepted, b *Base) {
	if !s.St.IsFinished() {
		panic("baseline: valid messages, canonical order, but the session does not finish")
	}
	if err := s.St.WaitForError(); err != nil {
		panic(fmt.Sprintf("baseline: all accepted messages are valid but the session ends with error: %v", err))
	}
	if b.Out == "" || b.Out == "partial" {
		panic("baseline: successful session without output")
	}
	if p.Keygen {
		coms := map[party.ID][][]byte{p.Self: Commitments(b.Emit[0][0])}
		for id, m := range a[1] {
			coms[id] = Commitments(m)
		}
		var consts [][]byte
		for _, id := range p.IDs {
			consts = append(consts, coms[id][0])
		}
		o := s.KG
		want := Pt(AddEnc(consts...)).Clean().EncodeEd()
		if !bytes.Equal(want, o.Public.GroupKey.ToEd25519()) {
			panic("group key is not the sum of the contributions")
		}
		for x, id := range p.IDs {
			if len(p.IDs) > 16 && id != p.Self && x > 0 && x < len(p.IDs)-1 {
				continue // of a big group, the shares of three parties
			}
			var ev [][]byte
			for _, j := range p.IDs {
				ev = append(ev, EvalEnc(coms[j], uint16(id)))
			}
			if o.Public.Shares[id] == nil || !bytes.Equal(AddEnc(ev...), o.Public.Shares[id].Bytes()) {
				panic(fmt.Sprintf("public share of %d does not match the commitments", id))
			}
		}
		if len(o.Public.Shares) != len(p.IDs) || !o.Public.PartyIDs.Equal(p.IDs) || o.Public.Threshold != p.T {
			panic("public data has wrong parties or threshold")
		}
		if o.SecretKey.ID != p.Self {
			panic("secret share has the wrong identifier")
		}
		pub := o.Public.Shares[p.Self].Bytes()
		if !bytes.Equal(BaseEnc(Big(&o.SecretKey.Secret)), pub) || !bytes.Equal(o.SecretKey.Public.Bytes(), pub) {
			panic("secret share does not match the public share")
		}
		return
	}
	if err := p.VerifySig(s); err != nil {
		panic(err.Error())
	}
}

// VerifySig checks the session's signature with the standard verifier, the library and the
// reference.
func (p *Proto) VerifySig(s *Sess) error {
	sig := s.SG.Signature
	pk := ref.BaseMul(p.Keys.Coeffs[0]).EncodeEd()
	if !ed25519.Verify(ed25519.PublicKey(pk), p.Text, sig.ToEd25519()) {
		return fmt.Errorf("released signature is rejected by standard Ed25519")
	}
	if !p.Keys.Public.GroupKey.Verify(p.Text, sig) {
		return fmt.Errorf("released signature is rejected by the library")
	}
	return nil
}

// Verdict of handing over a message.
type Verdict int

const (
	Accept Verdict = iota
	Ignore
	Reject
)

func (v Verdict) String() string { return [...]string{"accept", "ignore", "refuse"}[v] }

// Model is the reference model of one session.
type Model struct {
	P        *Proto
	Acc      Accepted
	Round    int // 0: not started; 1, 2: waiting for the messages of that round; 3: over
	Done     bool
	Err      bool
	TimedOut bool
	ErrRound int
	Who      map[party.ID]bool
	ErrText  string
	Out      string
	Emit     [3][][]byte
	// virtual time
	Now, Last int64
}

// NewModel makes the model of a fresh session.
func NewModel(p *Proto) *Model {
	m := &Model{P: p}
	m.Acc[1] = map[party.ID][]byte{}
	m.Acc[2] = map[party.ID][]byte{}
	return m
}

// Key identifies the model state.
func (m *Model) Key() string {
	return fmt.Sprintf("%d %v %v %v %d %d|%s", m.Round, m.Done, m.Err, m.TimedOut, m.ErrRound, m.Now-m.Last, m.Acc.key(2))
}

// Handle is the admission rule.
func (m *Model) Handle(x *Msg) Verdict {
	if m.Done {
		return Reject
	}
	if x.Malformed && x.B != nil {
		return Reject // refused by decoding
	}
	if x.From == m.P.Self {
		return Ignore
	}
	if x.To != 0 && x.To != m.P.Self {
		return Ignore
	}
	if x.Malformed {
		return Reject
	}
	if !m.P.IDs.Contains(x.From) {
		return Reject
	}
	t := m.P.Types()
	r := 0
	for i := 1; i <= 2; i++ {
		if x.Type == t[i-1] && i >= m.Round {
			r = i
		}
	}
	if r == 0 {
		return Reject
	}
	if _, dup := m.Acc[r][x.From]; dup {
		return Reject
	}
	m.Acc[r][x.From] = x.B
	m.Last = m.Now
	return Accept
}

// Process predicts what a processing step emits.
func (m *Model) Process() [][]byte {
	var out [][]byte
	for !m.Done {
		if m.Round > 0 && len(m.Acc[m.Round]) != len(m.P.IDs)-1 {
			break
		}
		b := m.P.Baseline(&m.Acc, m.Round)
		if b.Err && b.Round == m.Round {
			m.Done, m.Err, m.ErrRound, m.Who = true, true, m.Round, b.Who
			m.Round = 3
			break
		}
		m.Emit[m.Round] = b.Emit[m.Round]
		out = append(out, b.Emit[m.Round]...)
		if m.Round == 2 {
			m.Done, m.Out = true, b.Out
		}
		m.Round++
	}
	return out
}

// Advance moves the virtual clock.
func (m *Model) Advance(d int64) {
	m.Now += d
	if !m.Done && m.P.Timeout > 0 && m.Now-m.Last >= int64(m.P.Timeout) {
		m.Done, m.Err, m.TimedOut, m.ErrRound, m.Who = true, true, true, m.Round, map[party.ID]bool{0: true}
		m.Round = 3
	}
}

// bigs is a helper for messages carrying a scalar.
func bigs(b []byte) *big.Int { return ref.FromLE(b) }
