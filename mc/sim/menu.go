//go:build go1.21

package sim

import (
	"fmt"
	"math/big"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vclock"
)

// World is a set of parties running one protocol honestly; the messages they send are the honest
// entries of the menus.
type World struct {
	Name   string
	Keygen bool
	IDs    party.IDSlice
	T      int
	Keys   *Keys
	Text   []byte
	Label  string
	Run    *Run
	RunErr error
	few    bool
	// nonces of alternative first-round messages, for making consistent second-round ones
	alt map[party.ID][2]*big.Int
}

// KeygenWorld runs key generation in lockstep.
func KeygenWorld(ids []party.ID, t int, label string) *World {
	w := &World{Name: fmt.Sprintf("keygen%v t=%d", ids, t), Keygen: true, IDs: party.NewIDSlice(ids), T: t, Label: "kg/" + label}
	return w
}

// SignWorld runs signing in lockstep.
func SignWorld(k *Keys, signers []party.ID, text []byte, label string) *World {
	w := &World{Name: fmt.Sprintf("sign%v of %v t=%d", signers, k.IDs, k.T), IDs: party.NewIDSlice(signers), T: int(k.T), Keys: k, Text: text, Label: "sg/" + label}
	return w
}

// NoRun marks a world whose honest run cannot succeed (too few signers); its messages are still
// those of the lockstep run.
func (w *World) NoRun() { w.few = true }

// Ready runs the honest run on first use. A failure of that run panics, so that the case that
// needed it is reported.
func (w *World) Ready() *Run {
	if w.Run == nil {
		w.run()
	}
	if w.RunErr != nil && !w.few {
		panic(fmt.Sprintf("%s: the undisturbed run fails: %v", w.Name, w.RunErr))
	}
	return w.Run
}

func (w *World) run() {
	vclock.Reset()
	sess := map[party.ID]*Sess{}
	for _, id := range w.IDs {
		sess[id] = w.Proto(id, 0).New()
	}
	w.Run, w.RunErr = Lockstep(w.IDs, sess)
}

// Proto returns the party's session description.
func (w *World) Proto(id party.ID, timeout time.Duration) *Proto {
	return &Proto{Name: w.Name + fmt.Sprintf(" party %d", id), Keygen: w.Keygen, Self: id, IDs: w.IDs, T: party.Size(w.T),
		Timeout: timeout, Keys: w.Keys, Text: w.Text, Label: w.Label}
}

// First returns the first-round broadcast of a party.
func (w *World) First(j party.ID) []byte { return w.Ready().Sent[j][0][0] }

// Second returns the second-round message from j to i.
func (w *World) Second(j, i party.ID) []byte {
	for _, m := range w.Ready().Sent[j][1] {
		if To(m) == 0 || To(m) == i {
			return m
		}
	}
	return nil
}

// Honest returns what the peers send to party i.
func (w *World) Honest(i party.ID) []Msg {
	var out []Msg
	for _, j := range w.IDs {
		if j == i {
			continue
		}
		out = append(out, Enc(fmt.Sprintf("r1 from %d", j), w.First(j)))
	}
	for _, j := range w.IDs {
		if j == i {
			continue
		}
		x := Enc(fmt.Sprintf("r2 from %d", j), w.Second(j, i))
		x.After = 1
		out = append(out, x)
	}
	return out
}

func sb(x *big.Int) []byte { return ref.LE(ref.Mod(x)) }

// AltPoly is an alternative polynomial of party j.
func (w *World) AltPoly(j party.ID, deg int, label string) []*big.Int {
	var c []*big.Int
	for i := 0; i <= deg; i++ {
		c = append(c, RandScalar(fmt.Sprintf("alt/%s/%s/%d/%d", w.Label, label, j, i)))
	}
	return c
}

// MakeK1 makes a KeyGen1 message for a polynomial with a proof made for proofID.
func MakeK1(from, proofID party.ID, coeffs []*big.Int) []byte {
	var enc [][]byte
	for _, c := range coeffs {
		enc = append(enc, BaseEnc(c))
	}
	k := RandScalar(fmt.Sprintf("proof/%d/%x", from, enc[0]))
	S := ref.ZKChallenge(uint16(proofID), make([]byte, 32), enc[0], BaseEnc(k))
	R := ref.Add(k, ref.Mul(coeffs[0], S))
	return K1Bytes(from, S, R, enc)
}

// K1Bytes assembles a KeyGen1 message.
func K1Bytes(from party.ID, S, R *big.Int, enc [][]byte) []byte {
	d := len(enc) - 1
	return Cat(Head(K1, from, 0), sb(S), sb(R), []byte{byte(d >> 8), byte(d)}, Cat(enc...))
}

// MakeK2 makes a share message.
func MakeK2(from, to party.ID, share *big.Int) []byte { return Cat(Head(K2, from, to), sb(share)) }

// MakeS1 makes a commitment message.
func MakeS1(from party.ID, D, E []byte) []byte { return Cat(Head(S1, from, 0), D, E) }

// MakeS2 makes a signature share message.
func MakeS2(from party.ID, z *big.Int) []byte { return Cat(Head(S2, from, 0), sb(z)) }

// AltFirst is a valid first-round message of j that differs from the honest one.
func (w *World) AltFirst(j party.ID) []byte {
	if w.Keygen {
		return MakeK1(j, j, w.AltPoly(j, w.T, "a"))
	}
	d, e := w.altNonces(j)
	return MakeS1(j, BaseEnc(d), BaseEnc(e))
}

func (w *World) altNonces(j party.ID) (*big.Int, *big.Int) {
	return RandScalar(fmt.Sprintf("alt/%s/d/%d", w.Label, j)), RandScalar(fmt.Sprintf("alt/%s/e/%d", w.Label, j))
}

// AltSecond is the second-round message of j to i that is consistent with AltFirst (and with the
// honest first-round messages of everybody else).
func (w *World) AltSecond(j, i party.ID) []byte {
	if w.Keygen {
		return MakeK2(j, i, ref.Eval(w.AltPoly(j, w.T, "a"), ref.Int(int64(i))))
	}
	v := w.viewWith(map[party.ID][]byte{j: w.AltFirst(j)})
	d, e := w.altNonces(j)
	return MakeS2(j, v.Share(j, d, e, w.Keys.Share[j]))
}

func (w *World) viewWith(repl map[party.ID][]byte) *View {
	v := &View{IDs: w.IDs, Msg: w.Text, S1: map[party.ID][]byte{}, Pub: map[party.ID][]byte{}, Group: ref.BaseMul(w.Keys.Coeffs[0]).EncodeEd()}
	for _, id := range w.IDs {
		v.S1[id] = w.First(id)
		v.Pub[id] = BaseEnc(w.Keys.Share[id])
	}
	for id, m := range repl {
		v.S1[id] = m
	}
	return v
}

// WrongSecond is a second-round message that does not verify.
func (w *World) WrongSecond(j, i party.ID, delta int64) []byte {
	h := w.Second(j, i)
	z := ref.Add(ref.FromLE(h[5:37]), ref.Int(delta))
	return Cat(h[:5], sb(z))
}

// Payloads of the other protocol with decodable contents.
func (w *World) foreign(from, to party.ID) []Msg {
	g := BaseEnc(big.NewInt(7))
	h := BaseEnc(big.NewInt(11))
	if w.Keygen {
		return []Msg{
			Enc(fmt.Sprintf("sign1 from %d", from), MakeS1(from, g, h)),
			Enc(fmt.Sprintf("sign2 from %d", from), MakeS2(from, big.NewInt(5))),
		}
	}
	return []Msg{
		Enc(fmt.Sprintf("keygen1 from %d", from), MakeK1(from, from, []*big.Int{big.NewInt(3), big.NewInt(4)})),
		Enc(fmt.Sprintf("keygen2 from %d", from), MakeK2(from, to, big.NewInt(5))),
	}
}

// Strays are messages that are repeats, conflicts, foreign, misaddressed or not from a participant.
// Each costs one deviation.
func (w *World) Strays(i party.ID) []Msg {
	var out []Msg
	add := func(x Msg) {
		x.Cost = 1
		out = append(out, x)
	}
	outsider := w.outsider()
	n := 0
	for _, j := range w.IDs {
		if j == i {
			continue
		}
		a := Enc(fmt.Sprintf("repeat r1 from %d", j), w.First(j))
		add(a)
		b := Enc(fmt.Sprintf("repeat r2 from %d", j), w.Second(j, i))
		add(b)
		add(Enc(fmt.Sprintf("other valid r1 from %d", j), w.AltFirst(j)))
		add(Enc(fmt.Sprintf("other valid r2 from %d", j), w.AltSecond(j, i)))
		add(Enc(fmt.Sprintf("wrong r2 from %d", j), w.WrongSecond(j, i, 1)))
		if n == 0 {
			for _, x := range w.foreign(j, i) {
				add(x)
			}
			if w.Keygen {
				for _, k := range w.IDs {
					if k != i && k != j {
						add(Enc(fmt.Sprintf("r2 from %d to %d", j, k), w.Second(j, k)))
						break
					}
				}
				add(Enc(fmt.Sprintf("r2 from %d to outsider", j), MakeK2(j, outsider, big.NewInt(9))))
			}
		}
		n++
	}
	add(Enc("own r1", w.First(i)))
	add(Enc("own other r1", w.AltFirst(i)))
	if w.Keygen {
		for _, k := range w.IDs {
			if k != i {
				add(Enc("own r2", w.Second(i, k)))
				add(Enc("own r2 to self", MakeK2(i, i, big.NewInt(4))))
				break
			}
		}
	} else {
		add(Enc("own r2", w.Second(i, i)))
	}
	if w.Keygen {
		add(Enc("r1 from outsider", MakeK1(outsider, outsider, w.AltPoly(outsider, w.T, "o"))))
		add(Enc("r2 from outsider", MakeK2(outsider, i, big.NewInt(6))))
	} else {
		add(Enc("r1 from outsider", MakeS1(outsider, BaseEnc(big.NewInt(8)), BaseEnc(big.NewInt(9)))))
		add(Enc("r2 from outsider", MakeS2(outsider, big.NewInt(6))))
	}
	return out
}

// outsider is an identifier that is not a participant (for signing preferably a key holder).
func (w *World) outsider() party.ID {
	if !w.Keygen {
		for _, id := range w.Keys.IDs {
			if !w.IDs.Contains(id) {
				return id
			}
		}
	}
	for id := party.ID(1); ; id++ {
		if !w.IDs.Contains(id) {
			return id
		}
	}
}

// Malformed are message objects without the content their kind requires, and objects of no valid
// kind.
func (w *World) Malformed(i party.ID) []Msg {
	var out []Msg
	for _, j := range w.IDs {
		if j == i {
			continue
		}
		j := j
		for t := 0; t <= 6; t++ {
			t := t
			to := party.ID(0)
			if t == K2 {
				to = i
			}
			out = append(out, Msg{Name: fmt.Sprintf("empty kind %d from %d", t, j), From: j, To: to, Type: t, Cost: 1, Malformed: true,
				Make: func() *messages.Message {
					return &messages.Message{Header: messages.Header{Type: messages.MessageType(t), From: j, To: to}}
				}})
		}
		break
	}
	return out
}

// FaultyFirst are variants of the first-round message of j, valid and invalid.
func (w *World) FaultyFirst(j party.ID) []Msg {
	h := w.First(j)
	var out []Msg
	add := func(name string, b []byte) { out = append(out, Enc(fmt.Sprintf("r1 from %d: %s", j, name), b)) }
	if w.Keygen {
		coms := Commitments(h)
		S, R := ref.FromLE(h[5:37]), ref.FromLE(h[37:69])
		add("response+1", K1Bytes(j, S, ref.Add(R, ref.Int(1)), coms))
		add("challenge+1", K1Bytes(j, ref.Add(S, ref.Int(1)), R, coms))
		add("zero proof", K1Bytes(j, ref.Int(0), ref.Int(0), coms))
		add("zero challenge", K1Bytes(j, ref.Int(0), R, coms))
		add("proof negated", K1Bytes(j, ref.Sub(ref.Int(0), S), ref.Sub(ref.Int(0), R), coms))
		for _, k := range w.IDs {
			if k == j {
				continue
			}
			kb := w.First(k)
			add(fmt.Sprintf("copy of %d's message", k), Cat(Head(K1, j, 0), kb[5:]))
			add(fmt.Sprintf("own commitments with %d's proof", k), Cat(Head(K1, j, 0), kb[5:69], h[69:]))
		}
		alt := w.AltPoly(j, w.T, "a")
		add("other valid polynomial", MakeK1(j, j, alt))
		add("proof made for identifier+1", MakeK1(j, j+1, alt))
		if w.T >= 1 {
			low := w.AltPoly(j, w.T-1, "low")
			add("degree too low", MakeK1(j, j, low))
		}
		high := w.AltPoly(j, w.T+1, "high")
		add("degree too high", MakeK1(j, j, high))
		add("degree much too high", MakeK1(j, j, w.AltPoly(j, w.T+3, "high2")))
		add("degree 0", MakeK1(j, j, w.AltPoly(j, 0, "zero")))
		add("constant term replaced", K1Bytes(j, S, R, append([][]byte{BaseEnc(alt[0])}, coms[1:]...)))
		// commitments other than the constant replaced: the proof still holds, the shares do not match
		rest := append([][]byte{}, coms...)
		rest[len(rest)-1] = BaseEnc(alt[len(alt)-1])
		add("top coefficient replaced", K1Bytes(j, S, R, rest))
		rest2 := append([][]byte{}, coms...)
		rest2[len(rest2)-1] = make([]byte, 32)
		add("top coefficient zero", K1Bytes(j, S, R, rest2))
		return out
	}
	D, E := h[5:37], h[37:69]
	zero := make([]byte, 32)
	add("D identity", MakeS1(j, zero, E))
	add("E identity", MakeS1(j, D, zero))
	add("both identity", MakeS1(j, zero, zero))
	add("swapped", MakeS1(j, E, D))
	add("D negated", MakeS1(j, Pt(D).Neg().EncodeRistretto(), E))
	add("other valid", w.AltFirst(j))
	for _, k := range w.IDs {
		if k != j {
			kb := w.First(k)
			add(fmt.Sprintf("copy of %d's", k), Cat(Head(S1, j, 0), kb[5:]))
			add(fmt.Sprintf("inverse of %d's", k), MakeS1(j, Pt(kb[5:37]).Neg().EncodeRistretto(), Pt(kb[37:69]).Neg().EncodeRistretto()))
		}
	}
	add("equal D and E", MakeS1(j, D, D))
	return out
}

// FaultySecond are variants of the second-round message from j to i.
func (w *World) FaultySecond(j, i party.ID) []Msg {
	h := w.Second(j, i)
	x := ref.FromLE(h[5:37])
	var out []Msg
	add := func(name string, v *big.Int) {
		out = append(out, Enc(fmt.Sprintf("r2 from %d: %s", j, name), Cat(h[:5], sb(v))))
	}
	add("+1", ref.Add(x, ref.Int(1)))
	add("-1", ref.Sub(x, ref.Int(1)))
	add("zero", ref.Int(0))
	add("negated", ref.Sub(ref.Int(0), x))
	add("low bit flipped", new(big.Int).Xor(x, big.NewInt(1)))
	out = append(out, Enc(fmt.Sprintf("r2 from %d: consistent with other valid r1", j), w.AltSecond(j, i)))
	for _, k := range w.IDs {
		if k == j {
			continue
		}
		if w.Keygen {
			if k != i {
				add(fmt.Sprintf("share meant for %d", k), ref.FromLE(w.Second(j, k)[5:37]))
				add(fmt.Sprintf("share of %d", k), ref.FromLE(w.Second(k, i)[5:37]))
			} else {
				add("receiver's own share", ref.FromLE(w.Second(i, j)[5:37]))
			}
		} else {
			add(fmt.Sprintf("share of %d", k), ref.FromLE(w.Second(k, k)[5:37]))
		}
	}
	if !w.Keygen {
		// components swapped or missing
		if d, e, ok := w.nonces(j); ok {
			v := w.viewWith(nil)
			lam := ref.Lagrange(uint16(j), U(w.IDs))
			add("without Lagrange coefficient", ref.Add(ref.Add(d, ref.Mul(e, v.Rho(j))), ref.Mul(w.Keys.Share[j], v.Chal())))
			add("nonces swapped", v.Share(j, e, d, w.Keys.Share[j]))
			add("without key", v.Share(j, d, e, big.NewInt(0)))
			_ = lam
		}
	}
	return out
}

// nonces finds the nonces of party j among the randomness it drew.
func (w *World) nonces(j party.ID) (d, e *big.Int, ok bool) {
	out := w.Ready().Sess[j].Rnd.Out
	m := w.First(j)
	d = FindScalar(out, m[5:37])
	e = FindScalar(out, m[37:69])
	return d, e, d != nil && e != nil
}

// FindScalar looks for a 64-byte window (at multiples of 64) of the stream whose reduction has the
// given public value.
func FindScalar(stream []byte, enc []byte) *big.Int {
	for o := 0; o+64 <= len(stream); o += 64 {
		k := ref.Wide(stream[o : o+64])
		if string(BaseEnc(k)) == string(enc) {
			return k
		}
	}
	return nil
}

// Nonces exports nonces.
func (w *World) Nonces(j party.ID) (d, e *big.Int, ok bool) { return w.nonces(j) }

// Script drains randomness in a fixed stream (helper for checks).
func Script(label string) *rnd.Stream { return rnd.New(label) }

// SecondGiven is the second-round message of an honest peer j to i when the broadcasts in repl were
// seen instead of the honest ones (everybody sees the same broadcasts).
func (w *World) SecondGiven(j, i party.ID, repl map[party.ID][]byte) []byte {
	if w.Keygen || len(repl) == 0 || repl[j] != nil {
		return w.Second(j, i)
	}
	for _, b := range repl {
		if JudgeS1(b) {
			return w.Second(j, i) // honest peers would not get this far
		}
	}
	d, e, ok := w.Nonces(j)
	if !ok {
		panic("nonces of the honest run not found in its randomness")
	}
	return MakeS2(j, w.viewWith(repl).Share(j, d, e, w.Keys.Share[j]))
}

// Combo is one choice of messages the peers of a party send.
type Combo struct {
	Name   string
	Faulty map[party.ID]bool // senders of at least one message that is not their honest one
	Menu   []Msg
}

// Combos enumerates every choice of messages sent to party i in which at least one and at most max
// messages are replaced by one of their variants. pick limits the number of variants per message (0:
// all).
func (w *World) Combos(i party.ID, max, pick int, f func(Combo)) {
	peers := w.Proto(i, 0).Others()
	firsts := map[party.ID][]Msg{}
	for _, j := range peers {
		firsts[j] = cut(w.FaultyFirst(j), pick)
	}
	n := len(peers)
	var rec func(k, left int, f1 map[party.ID]*Msg)
	rec = func(k, left int, f1 map[party.ID]*Msg) {
		if k == n {
			w.seconds(i, peers, f1, left, left < max, pick, f)
			return
		}
		rec(k+1, left, f1)
		if left > 0 {
			for x := range firsts[peers[k]] {
				f1[peers[k]] = &firsts[peers[k]][x]
				rec(k+1, left-1, f1)
			}
			delete(f1, peers[k])
		}
	}
	rec(0, max, map[party.ID]*Msg{})
}

func cut(m []Msg, n int) []Msg {
	if n > 0 && len(m) > n {
		return m[:n]
	}
	return m
}

func (w *World) seconds(i party.ID, peers []party.ID, f1 map[party.ID]*Msg, left int, some bool, pick int, f func(Combo)) {
	repl := map[party.ID][]byte{}
	name := ""
	base := make([]Msg, 0, 2*len(peers))
	for _, j := range peers {
		if x := f1[j]; x != nil {
			repl[j] = x.B
			base = append(base, *x)
			name += "; " + x.Name
		} else {
			base = append(base, Enc(fmt.Sprintf("r1 from %d", j), w.First(j)))
		}
	}
	var opts [][]Msg
	for _, j := range peers {
		h := Enc(fmt.Sprintf("r2 from %d", j), w.SecondGiven(j, i, repl))
		opts = append(opts, append([]Msg{h}, cut(w.faultySecondGiven(j, i, repl), pick)...))
	}
	var rec func(k, left int, name string, sel []Msg)
	rec = func(k, left int, name string, sel []Msg) {
		if k == len(peers) {
			if name == "" {
				return
			}
			c := Combo{Name: name[2:], Faulty: map[party.ID]bool{}}
			c.Menu = append(append(c.Menu, base...), sel...)
			for x := range c.Menu[len(base):] {
				c.Menu[len(base)+x].After = 1
			}
			for _, m := range c.Menu {
				if m.Name != fmt.Sprintf("r1 from %d", m.From) && m.Name != fmt.Sprintf("r2 from %d", m.From) {
					c.Faulty[m.From] = true
				}
			}
			f(c)
			return
		}
		rec(k+1, left, name, append(sel[:k:k], opts[k][0]))
		if left > 0 {
			for _, o := range opts[k][1:] {
				rec(k+1, left-1, name+"; "+o.Name, append(sel[:k:k], o))
			}
		}
	}
	rec(0, left, name, nil)
}

// faultySecondGiven are the variants of a second-round message, offset from what would be correct.
func (w *World) faultySecondGiven(j, i party.ID, repl map[party.ID][]byte) []Msg {
	if w.Keygen || len(repl) == 0 || repl[j] != nil {
		return w.FaultySecond(j, i)
	}
	h := w.SecondGiven(j, i, repl)
	x := ref.FromLE(h[5:37])
	return append([]Msg{
		Enc(fmt.Sprintf("r2 from %d: +1", j), Cat(h[:5], sb(ref.Add(x, ref.Int(1))))),
		Enc(fmt.Sprintf("r2 from %d: -1", j), Cat(h[:5], sb(ref.Sub(x, ref.Int(1))))),
	}, w.FaultySecond(j, i)[2:]...)
}

// StrayCount bounds the number of strays offered to any party, without running anything.
func StrayCount(w *World) int { return 5*(len(w.IDs)-1) + 10 }
