//go:build go1.21

// C26: sessions and stored data interoperate with any implementation of the documented protocol.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C26", Level: "exploration",
		Rule:   "mixed groups: every split of the participants of key generation and signing into sessions of this library and participants written from the description of the protocol in reference arithmetic (sharing no code with the library), run under every order of starts and deliveries for two participants and under systematic orders for more; the reference participants refuse whatever does not follow the description, and at the end every participant must hold the same results: public data, shares and signatures byte for byte. The key material of mixed key generation is carried as independently written documents into mixed signing. Formats: stored forms written by the library are read by an independent reader, and independently written ones (with other spacing, field and party orders) by the library, and the values must be equal; every wire message of every kind is taken apart and assembled independently",
		Bounds: "n <= 4 (thorough 6), all t, all splits, consecutive, far-apart and boundary identifiers; all orders for n = 2; 6 message lengths; formats over all identifier sets of size 2..3 from 14 boundary identifiers, groups of up to 40 (thorough 300)",
	}, run)
}

func run(c *lib.Ctx) {
	mixed(c)
	orders(c)
	stored(c)
	wire(c)
}

// node is a participant of either kind.
type node struct {
	s *sim.Sess
	r *sim.RefParty
}

func (x node) handle(c *lib.Ctx, where string, b []byte) {
	if x.s != nil {
		m := new(messages.Message)
		if err := m.UnmarshalBinary(append([]byte(nil), b...)); err != nil {
			c.Failf("%s: party %d cannot decode message %x: %v", where, x.s.ID, b, err)
		}
		if sim.To(b) != 0 && sim.To(b) != x.s.ID {
			return
		}
		if err := x.s.St.HandleMessage(m); err != nil {
			c.Failf("%s: party %d refuses message kind %d from %d: %v", where, x.s.ID, sim.Typ(b), sim.From(b), err)
		}
		return
	}
	if err := x.r.Handle(b); err != nil {
		c.Failf("%s: what party %d sends does not follow the description of the protocol: %v", where, sim.From(b), err)
	}
}

func (x node) process(c *lib.Ctx, where string) [][]byte {
	if x.s != nil {
		return x.s.Process()
	}
	out, err := x.r.Process()
	if err != nil {
		c.Failf("%s: reference party %d: %v", where, x.r.ID, err)
	}
	return out
}

func (x node) done() bool {
	if x.s != nil {
		return x.s.St.IsFinished()
	}
	return x.r.Done
}

// group is a set of participants in one run.
type group struct {
	name  string
	ids   party.IDSlice
	nodes map[party.ID]node
}

type event struct {
	to  party.ID
	msg []byte // nil: start
}

// play runs the group; pick chooses among the possible events.
func (g *group) play(c *lib.Ctx, pick func(ev []event) int) {
	var ev []event
	for _, id := range g.ids {
		ev = append(ev, event{to: id})
	}
	for len(ev) > 0 {
		k := pick(ev)
		e := ev[k]
		ev = append(append([]event(nil), ev[:k]...), ev[k+1:]...)
		x := g.nodes[e.to]
		if e.msg != nil {
			x.handle(c, g.name, e.msg)
		}
		for _, m := range x.process(c, g.name) {
			for _, to := range g.ids {
				if to != e.to && (sim.To(m) == 0 || sim.To(m) == to) {
					ev = append(ev, event{to, m})
				}
			}
		}
		c.Trans(1)
	}
	for _, id := range g.ids {
		x := g.nodes[id]
		c.Check(x.done(), "%s: party %d is not finished after everything was delivered", g.name, id)
		if x.s != nil {
			c.Check(x.s.St.WaitForError() == nil, "%s: party %d ended with error %v", g.name, id, x.s.St.Err())
			k := x.s.OutKey()
			c.Check(k != "" && k != "partial", "%s: party %d has no output", g.name, id)
		}
	}
	c.Eval(1)
	c.State(len(g.ids))
	c.Trace(1)
}

// pickers are the systematic orders.
func pickers(ids party.IDSlice) map[string]func(ev []event) int {
	p := map[string]func(ev []event) int{
		"first sent first": func([]event) int { return 0 },
		"last sent first":  func(ev []event) int { return len(ev) - 1 },
	}
	for _, id := range ids {
		id := id
		p[fmt.Sprintf("%d late", id)] = func(ev []event) int {
			for k, e := range ev {
				if e.to != id {
					return k
				}
			}
			return 0
		}
		p[fmt.Sprintf("from %d late", id)] = func(ev []event) int {
			for k := len(ev) - 1; k >= 0; k-- {
				if ev[k].msg == nil || sim.From(ev[k].msg) != id {
					return k
				}
			}
			return 0
		}
	}
	return p
}

// keyData is what key generation leaves, in reference terms.
type keyData struct {
	ids   party.IDSlice
	t     int
	share map[party.ID]*big.Int
	pub   map[party.ID][]byte
	enc   []byte // ristretto encoding of the group key
	ed    []byte
}

func refKeys(ids party.IDSlice, t int, label string) *keyData {
	k := &keyData{ids: ids, t: t, share: map[party.ID]*big.Int{}, pub: map[party.ID][]byte{}}
	var co []*big.Int
	for i := 0; i <= t; i++ {
		co = append(co, sim.RandScalar(fmt.Sprint("c26", label, ids, t, i)))
	}
	for _, id := range ids {
		k.share[id] = ref.Eval(co, ref.Int(int64(id)))
		k.pub[id] = sim.BaseEnc(k.share[id])
	}
	k.enc = sim.BaseEnc(co[0])
	k.ed = ref.BaseMul(co[0]).EncodeEd()
	return k
}

// publicDoc is the stored form of the public data, written independently. style varies what has no
// meaning: spacing, the order of fields and of parties.
func (k *keyData) publicDoc(style int) []byte {
	var sh []string
	for _, id := range k.ids {
		sh = append(sh, fmt.Sprintf("%q:%q", fmt.Sprint(id), base64.StdEncoding.EncodeToString(k.pub[id])))
	}
	if style > 0 {
		for i, j := 0, len(sh)-1; i < j; i, j = i+1, j-1 {
			sh[i], sh[j] = sh[j], sh[i]
		}
	}
	f := []string{fmt.Sprintf(`"t":%d`, k.t), fmt.Sprintf(`"groupkey":%q`, base64.StdEncoding.EncodeToString(k.enc)), `"shares":{` + strings.Join(sh, ",") + `}`}
	switch style {
	case 1:
		f[0], f[2] = f[2], f[0]
	case 2:
		f[0], f[1] = f[1], f[0]
		return []byte(" {\n\t" + strings.Replace(strings.Join(f, " ,\r\n"), ":", " : ", -1) + "\n} ")
	}
	return []byte("{" + strings.Join(f, ",") + "}")
}

func (k *keyData) shareDoc(id party.ID, style int) []byte {
	s := base64.StdEncoding.EncodeToString(ref.LE(k.share[id]))
	if style == 0 {
		return []byte(fmt.Sprintf(`{"id":%d,"secret":%q}`, id, s))
	}
	return []byte(fmt.Sprintf("{ \"secret\" : %q ,\n \"id\" : %d }", s, id))
}

func (k *keyData) load(c *lib.Ctx, style int) (*eddsa.Public, map[party.ID]*eddsa.SecretShare) {
	pub := new(eddsa.Public)
	err := json.Unmarshal(k.publicDoc(style), pub)
	c.Check(err == nil, "public data %s cannot be read: %v", k.publicDoc(style), err)
	k.samePublic(c, "public data read from its documented form", pub)
	sec := map[party.ID]*eddsa.SecretShare{}
	for i, id := range k.ids {
		s := new(eddsa.SecretShare)
		if (i+style)%2 == 0 {
			err = json.Unmarshal(k.shareDoc(id, style), s)
			c.Check(err == nil, "key share %s cannot be read: %v", k.shareDoc(id, style), err)
		} else {
			b := sim.Cat([]byte{byte(id >> 8), byte(id)}, ref.LE(k.share[id]))
			err = s.UnmarshalBinary(b)
			c.Check(err == nil, "key share %x cannot be read: %v", b, err)
		}
		k.sameShare(c, "key share read from its documented form", s, id)
		sec[id] = s
	}
	return pub, sec
}

func (k *keyData) samePublic(c *lib.Ctx, what string, p *eddsa.Public) {
	c.Check(p.PartyIDs.Equal(k.ids) && len(p.Shares) == len(k.ids), "%s: parties %v and %d shares instead of %v", what, p.PartyIDs, len(p.Shares), k.ids)
	c.Check(int(p.Threshold) == k.t, "%s: threshold %d instead of %d", what, p.Threshold, k.t)
	for _, id := range k.ids {
		c.Check(p.Shares[id] != nil && bytes.Equal(p.Shares[id].Bytes(), k.pub[id]), "%s: public share of %d", what, id)
	}
	c.Check(p.GroupKey != nil && bytes.Equal(p.GroupKey.ToEd25519(), k.ed), "%s: the group key is not %x", what, k.ed)
}

func (k *keyData) sameShare(c *lib.Ctx, what string, s *eddsa.SecretShare, id party.ID) {
	c.Check(s.ID == id && sim.Big(&s.Secret).Cmp(k.share[id]) == 0, "%s: share of %d", what, id)
	c.Check(bytes.Equal(s.Public.Bytes(), k.pub[id]), "%s: public part of the share of %d", what, id)
}

// keygen runs key generation with the given parties played by the library, and compares all results.
func keygen(c *lib.Ctx, ids party.IDSlice, t int, real map[party.ID]bool, order string, pick func(ev []event) int) *keyData {
	g := &group{name: fmt.Sprintf("key generation among %v with t=%d, of which %v by the library, order %q", ids, t, list(ids, real), order), ids: ids, nodes: map[party.ID]node{}}
	for _, id := range ids {
		if !real[id] {
			g.nodes[id] = node{r: sim.RefKeygen(id, ids, t, "c26")}
			continue
		}
		s, err := sim.NewKeygen(id, ids, party.Size(t), 0, rnd.New(fmt.Sprint("c26 kg ", id)))
		c.Check(err == nil, "%s: no session for %d: %v", g.name, id, err)
		g.nodes[id] = node{s: s}
	}
	g.play(c, pick)
	k := &keyData{ids: ids, t: t, share: map[party.ID]*big.Int{}}
	for _, id := range ids {
		if r := g.nodes[id].r; r != nil {
			c.Check(k.enc == nil || bytes.Equal(k.enc, r.GroupEnc), "%s: the reference parties disagree", g.name)
			k.enc, k.ed, k.pub = r.GroupEnc, r.Group, r.Pub
			k.share[id] = r.Share
		}
	}
	for _, id := range ids {
		if s := g.nodes[id].s; s != nil {
			if k.enc == nil { // no reference party took part
				k.ed = s.KG.Public.GroupKey.ToEd25519()
				k.pub = map[party.ID][]byte{}
				for _, j := range ids {
					k.pub[j] = s.KG.Public.Shares[j].Bytes()
				}
				var e ristretto.Element
				j, err := json.Marshal(s.KG.Public.GroupKey)
				c.Check(err == nil && json.Unmarshal(j, &e) == nil, "%s: the group key is not written as the text of an element: %s", g.name, j)
				k.enc = e.Bytes()
			}
			k.share[id] = sim.Big(&s.KG.SecretKey.Secret)
			k.samePublic(c, fmt.Sprintf("%s: result of %d", g.name, id), s.KG.Public)
			k.sameShare(c, fmt.Sprintf("%s: result of %d", g.name, id), s.KG.SecretKey, id)
		}
		c.Check(bytes.Equal(sim.BaseEnc(k.share[id]), k.pub[id]), "%s: share of %d does not fit its public share", g.name, id)
	}
	c.Distinct(g.name)
	return k
}

func sign(c *lib.Ctx, k *keyData, signers party.IDSlice, text []byte, real map[party.ID]bool, style int, order string, pick func(ev []event) int) {
	g := &group{name: fmt.Sprintf("signing of %d bytes by %v of %v with t=%d, of which %v by the library, order %q", len(text), signers, k.ids, k.t, list(signers, real), order), ids: signers, nodes: map[party.ID]node{}}
	pub, sec := k.load(c, style)
	for _, id := range signers {
		if !real[id] {
			g.nodes[id] = node{r: sim.RefSign(id, signers, k.share[id], k.pub, k.ed, text, "c26")}
			continue
		}
		s, err := sim.NewSign(signers, sec[id], pub, text, 0, rnd.New(fmt.Sprint("c26 sg ", id)))
		c.Check(err == nil, "%s: no session for %d: %v", g.name, id, err)
		g.nodes[id] = node{s: s}
	}
	g.play(c, pick)
	var R, ed []byte
	for _, id := range signers {
		if r := g.nodes[id].r; r != nil {
			c.Check(ed == nil || bytes.Equal(ed, r.SigEd), "%s: the reference parties disagree", g.name)
			R, ed = r.SigR, r.SigEd
		}
	}
	for _, id := range signers {
		if s := g.nodes[id].s; s != nil {
			if ed == nil {
				R, ed = s.SG.Signature.R.Bytes(), s.SG.Signature.ToEd25519()
			}
			c.Check(bytes.Equal(s.SG.Signature.ToEd25519(), ed), "%s: the Ed25519 form of the signature of %d is %x instead of %x", g.name, id, s.SG.Signature.ToEd25519(), ed)
			b, err := s.SG.Signature.MarshalBinary()
			want := sim.Cat(R, ed[32:])
			c.Check(err == nil && bytes.Equal(b, want), "%s: the signature of %d is stored as %x instead of %x", g.name, id, b, want)
			c.Check(sim.CheckSig(pub, text, s.SG.Signature) == nil, "%s: %v", g.name, sim.CheckSig(pub, text, s.SG.Signature))
			sig := new(eddsa.Signature)
			c.Check(sig.UnmarshalBinary(want) == nil && sig.Equal(s.SG.Signature) && pub.GroupKey.Verify(text, sig), "%s: the signature cannot be read from %x", g.name, want)
		}
	}
	c.Distinct(g.name)
}

func list(ids party.IDSlice, real map[party.ID]bool) []party.ID {
	var out []party.ID
	for _, id := range ids {
		if real[id] {
			out = append(out, id)
		}
	}
	return out
}

func splits(ids party.IDSlice) []map[party.ID]bool {
	var out []map[party.ID]bool
	for m := 1; m < 1<<uint(len(ids)); m++ {
		real := map[party.ID]bool{}
		for i, id := range ids {
			if m>>uint(i)&1 == 1 {
				real[id] = true
			}
		}
		out = append(out, real)
	}
	return out
}

var lengths = []int{0, 1, 32, 64, 127, 1000}

func mixed(c *lib.Ctx) {
	max := c.Pick(4, 6)
	for n := 2; n <= max; n++ {
		for t := 1; t < n; t++ {
			for v, ids := range []party.IDSlice{sim.Seq(n), sim.Spread(n), append(sim.IDSets([]party.ID{1, 255, 256, 257, 32768, 65534}, n)[0], 65535)[1:]} {
				for m, real := range splits(ids) {
					n, t, v, ids, m, real := n, t, v, ids, m, real
					c.Case(fmt.Sprintf("mixed/%v t=%d/split %d", ids, t, m), func() {
						var k *keyData
						for name, pick := range pickers(ids) {
							if n > 3 && v > 0 && name != "first sent first" && name != "last sent first" {
								continue
							}
							k = keygen(c, ids, t, real, name, pick)
						}
						for i, signers := range sim.Sub(ids, t+1, n) {
							if n > 4 && i%3 != m%3 {
								continue
							}
							text := rnd.Bytes(fmt.Sprint("text", i), lengths[(i+m)%len(lengths)])
							if n > 3 {
								sign(c, k, signers, text, real, i%3, "last sent first", func(ev []event) int { return len(ev) - 1 })
								continue
							}
							for name, pick := range pickers(signers) {
								sign(c, k, signers, text, real, i%3, name, pick)
							}
						}
					})
				}
			}
		}
	}
	// larger groups, one or all but one played by the library
	sizes := []int{7, 10, 17, 33, 40}
	if !c.Quick() {
		sizes = append(sizes, 64, 70, 130)
	}
	for _, n := range sizes {
		for _, one := range []bool{true, false} {
			n, one := n, one
			c.Case(fmt.Sprintf("larger/%d parties, one %v", n, one), func() {
				ids := sim.Spread(n)
				real := map[party.ID]bool{}
				for i, id := range ids {
					real[id] = (i == n/2) == one
				}
				for name, pick := range pickers(ids[:1]) {
					k := keygen(c, ids, n/3, real, name, pick)
					sign(c, k, ids[1:], []byte(name), real, 1, name, pick)
				}
			})
		}
	}
}

// orders runs two participants under every order of starts and deliveries.
func orders(c *lib.Ctx) {
	for _, ids := range []party.IDSlice{{1, 2}, {256, 65535}} {
		for m, real := range splits(ids) {
			ids, m, real := ids, m, real
			c.Case(fmt.Sprintf("orders/%v/split %d", ids, m), func() {
				k := refKeys(ids, 1, "orders")
				each(func(pick func(ev []event) int) { keygen(c, ids, 1, real, "every", pick) })
				each(func(pick func(ev []event) int) { sign(c, k, ids, []byte("text"), real, 0, "every", pick) })
			})
		}
	}
}

// each calls run with every sequence of choices.
func each(run func(pick func(ev []event) int)) {
	var path, width []int
	for {
		at := 0
		run(func(ev []event) int {
			if at == len(path) {
				path, width = append(path, 0), append(width, len(ev))
			}
			at++
			return path[at-1]
		})
		for len(path) > 0 && path[len(path)-1]+1 >= width[len(path)-1] {
			path, width = path[:len(path)-1], width[:len(width)-1]
		}
		if len(path) == 0 {
			return
		}
		path[len(path)-1]++
	}
}

// ---- stored forms ----

func b64(c *lib.Ctx, what string, v interface{}) []byte {
	s, ok := v.(string)
	c.Check(ok, "%s is written as %v", what, v)
	b, err := base64.StdEncoding.Strict().DecodeString(s)
	c.Check(err == nil, "%s is written as %q", what, s)
	return b
}

// readPublic reads public data without the library.
func (k *keyData) readPublic(c *lib.Ctx, doc []byte) {
	var m map[string]interface{}
	c.Check(json.Unmarshal(doc, &m) == nil, "public data is written as %s", doc)
	t, ok := m["t"].(float64)
	c.Check(ok && int(t) == k.t, "the threshold %d is written as %v", k.t, m["t"])
	c.Check(bytes.Equal(b64(c, "group key", m["groupkey"]), k.enc), "the group key %x is written as %v", k.enc, m["groupkey"])
	sh, ok := m["shares"].(map[string]interface{})
	c.Check(ok && len(sh) == len(k.ids), "the public shares of %d parties are written as %v", len(k.ids), m["shares"])
	for _, id := range k.ids {
		c.Check(bytes.Equal(b64(c, fmt.Sprintf("public share of %d", id), sh[fmt.Sprint(id)]), k.pub[id]), "the public share %x of %d is written as %v", k.pub[id], id, sh[fmt.Sprint(id)])
	}
}

func (k *keyData) formats(c *lib.Ctx) {
	for style := 0; style < 3; style++ {
		pub, sec := k.load(c, style)
		doc, err := json.Marshal(pub)
		c.Check(err == nil, "public data cannot be written: %v", err)
		k.readPublic(c, doc)
		for _, id := range k.ids {
			s := sec[id]
			b, err := s.MarshalBinary()
			want := sim.Cat([]byte{byte(id >> 8), byte(id)}, ref.LE(k.share[id]))
			c.Check(err == nil && bytes.Equal(b, want), "the share of %d is written as %x instead of %x", id, b, want)
			j, err := json.Marshal(s)
			c.Check(err == nil, "the share of %d cannot be written: %v", id, err)
			var m map[string]interface{}
			c.Check(json.Unmarshal(j, &m) == nil, "the share of %d is written as %s", id, j)
			n, ok := m["id"].(float64)
			c.Check(ok && party.ID(n) == id, "the identifier %d is written as %v", id, m["id"])
			c.Check(bytes.Equal(b64(c, "secret", m["secret"]), ref.LE(k.share[id])), "the share of %d is written as %s", id, j)
		}
		c.Eval(1 + len(k.ids))
		// the key alone
		j, err := json.Marshal(pub.GroupKey)
		c.Check(err == nil && string(j) == fmt.Sprintf("%q", base64.StdEncoding.EncodeToString(k.enc)), "the group key %x is written as %s", k.enc, j)
		key := new(eddsa.PublicKey)
		c.Check(json.Unmarshal(j, key) == nil && bytes.Equal(key.ToEd25519(), k.ed), "the group key cannot be read from %s", j)
	}
	c.Distinct("formats", fmt.Sprint(k.ids), k.t)
}

func stored(c *lib.Ctx) {
	var sets []party.IDSlice
	for n := 2; n <= 3; n++ {
		sets = append(sets, sim.IDSets(sim.IDAlphabet, n)...)
	}
	for n := 4; n <= c.Pick(40, 60); n += 4 {
		sets = append(sets, sim.Seq(n), sim.Spread(n))
	}
	if !c.Quick() {
		sets = append(sets, sim.Spread(150), sim.Spread(300))
	}
	for _, ids := range sets {
		for _, t := range []int{1, len(ids) / 2, len(ids) - 1} {
			if t == 0 || (t == len(ids)/2 && t <= 1) || (t == len(ids)-1 && len(ids) == 2) {
				continue
			}
			ids, t := ids, t
			c.Case(fmt.Sprintf("stored/%v t=%d", ids, t), func() { refKeys(ids, t, "stored").formats(c) })
		}
	}
	c.Case("stored/edge values", func() {
		for _, x := range sim.Scalars() {
			if x.Sign() == 0 {
				continue
			}
			for _, id := range sim.IDAlphabet[:4] {
				k := &keyData{ids: party.IDSlice{id}, share: map[party.ID]*big.Int{id: x}, pub: map[party.ID][]byte{id: sim.BaseEnc(x)}}
				for style := 0; style < 2; style++ {
					s := new(eddsa.SecretShare)
					err := json.Unmarshal(k.shareDoc(id, style), s)
					c.Check(err == nil, "key share %s cannot be read: %v", k.shareDoc(id, style), err)
					k.sameShare(c, "edge value", s, id)
				}
			}
			enc := sim.BaseEnc(x)
			var e ristretto.Element
			want := base64.StdEncoding.EncodeToString(enc)
			c.Check(e.UnmarshalText([]byte(want)) == nil && bytes.Equal(e.Bytes(), enc), "element %s cannot be read", want)
			txt, err := e.MarshalText()
			c.Check(err == nil && string(txt) == want, "element %x is written as %q instead of %q", enc, txt, want)
			c.Eval(1)
		}
	})
	c.Case("stored/identifiers", func() {
		for id := 0; id <= 65535; id++ {
			txt, err := party.ID(id).MarshalText()
			c.Check(err == nil && string(txt) == fmt.Sprint(id), "identifier %d is written as %q", id, txt)
			b := party.ID(id).Bytes()
			c.Check(bytes.Equal(b, []byte{byte(id >> 8), byte(id)}), "identifier %d is encoded as %x", id, b)
		}
		c.Eval(65536)
	})
}

// ---- wire ----

func wire(c *lib.Ctx) {
	same := func(m *messages.Message, want []byte) {
		b, err := m.MarshalBinary()
		c.Check(err == nil && bytes.Equal(b, want), "message kind %d from %d to %d is encoded as %x (%v) instead of %x", m.Type, m.From, m.To, b, err, want)
		back := new(messages.Message)
		c.Check(back.UnmarshalBinary(want) == nil && back.Equal(m), "message %x cannot be decoded", want)
		c.Eval(1)
	}
	elem := func(x *big.Int) *ristretto.Element {
		e := new(ristretto.Element)
		_, err := e.SetCanonicalBytes(sim.BaseEnc(x))
		c.Check(err == nil, "element %x: %v", sim.BaseEnc(x), err)
		return e
	}
	for _, from := range sim.IDAlphabet {
		from := from
		c.Case(fmt.Sprintf("wire/from %d", from), func() {
			for _, x := range sim.Scalars() {
				for _, to := range sim.IDAlphabet {
					same(messages.NewKeyGen2(from, to, sim.Sc(x)), sim.MakeK2(from, to, x))
				}
				same(messages.NewSign2(from, sim.Sc(x)), sim.MakeS2(from, x))
				y := sim.RandScalar(fmt.Sprint("c26 wire", from, x))
				same(messages.NewSign1(from, elem(x), elem(y)), sim.MakeS1(from, sim.BaseEnc(x), sim.BaseEnc(y)))
			}
			for _, deg := range []int{0, 1, 2, 7, 255, 256, 300} {
				if deg > 7 && from != 258 {
					continue
				}
				var enc [][]byte
				for i := 0; i <= deg; i++ {
					enc = append(enc, sim.BaseEnc(ref.Int(int64(i%20+1))))
				}
				b := sim.K1Bytes(from, sim.RandScalar("S"), sim.RandScalar("R"), enc)
				m := new(messages.Message)
				err := m.UnmarshalBinary(b)
				c.Check(err == nil, "message %.100x cannot be decoded: %v", b, err)
				c.Check(m.Type == messages.MessageTypeKeyGen1 && m.From == from && m.To == 0 && int(m.KeyGen1.Commitments.Degree()) == deg && bytes.Equal(m.KeyGen1.Commitments.Constant().Bytes(), enc[0]), "message %.100x is decoded as something else", b)
				p, err := m.KeyGen1.Proof.MarshalBinary()
				c.Check(err == nil && bytes.Equal(p, b[5:69]), "the proof in message %.100x is decoded as %x", b, p)
				same(m, b)
			}
			c.Distinct("wire", from)
		})
	}
}
