//go:build go1.21

// C09: every wire message has exactly one encoding and decodes to itself.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C09", Level: "exploration",
		Rule:   "messages of every kind built with the constructors over the product of identifier and value alphabets and degrees: encode, size, append to buffers of every capacity relation, decode, equality, re-encode; every byte string of a catalogue of damage to each (all truncations, all single-bit flips, extensions, all kind bytes, identifiers, special field values, degrees) must decode exactly if an independent grammar calls it canonical, and then re-encode to itself; every inconsistent combination of kind, addressing and contents must fail to encode",
		Bounds: "10 identifiers, 7 scalars, 7 points, degrees 0..6, 15, 255, 256, 300 (thorough 65534); bit flips and damage on one message of each kind and degree 0..3; all byte strings of length <= 2",
	}, run)
}

var idAlpha = []party.ID{1, 2, 255, 256, 257, 32767, 32768, 65280, 65534, 65535}

func scalars() []*big.Int {
	m := func(x int64) *big.Int { return ref.Mod(big.NewInt(x)) }
	return []*big.Int{m(0), m(1), m(255), m(256), m(-1), new(big.Int).Rsh(ref.Q, 1), sim.RandScalar("x")}
}

func point(x *big.Int) *ristretto.Element {
	var e ristretto.Element
	if _, err := e.SetCanonicalBytes(sim.BaseEnc(x)); err != nil {
		panic(err)
	}
	return &e
}

func schnorr(s, r *big.Int) *zk.Schnorr {
	var p zk.Schnorr
	if err := p.UnmarshalBinary(sim.Cat(ref.LE(s), ref.LE(r))); err != nil {
		panic(err)
	}
	return &p
}

func exponent(deg int, label string) (*polynomial.Exponent, [][]byte) {
	b := []byte{byte(deg >> 8), byte(deg)}
	var enc [][]byte
	for i := 0; i <= deg; i++ {
		e := sim.BaseEnc(big.NewInt(int64((i*7 + len(label)) % 100)))
		enc = append(enc, e)
		b = append(b, e...)
	}
	var p polynomial.Exponent
	if err := p.UnmarshalBinary(b); err != nil {
		panic(fmt.Sprintf("canonical committed polynomial of degree %d refused: %v", deg, err))
	}
	return &p, enc
}

// round checks one message against its expected encoding.
func round(c *lib.Ctx, name string, m *messages.Message, want []byte) {
	c.Eval(1)
	b, err := m.MarshalBinary()
	if err != nil {
		c.Failf("%s: cannot be encoded: %v", name, err)
	}
	if want != nil && !bytes.Equal(b, want) {
		c.Failf("%s: encodes to %x, expected %x", name, b, want)
	}
	if m.Size() != len(b) {
		c.Failf("%s: Size is %d, the encoding has %d bytes", name, m.Size(), len(b))
	}
	for _, pre := range [][]byte{nil, {}, {1}, bytes.Repeat([]byte{7}, 40)} {
		for _, spare := range []int{0, 1, 5, len(b) - 1, len(b), len(b) + 9, 2*len(b) + 1, 4*len(b) + 4096} {
			buf := make([]byte, len(pre), len(pre)+spare)
			copy(buf, pre)
			got, err := m.BytesAppend(buf)
			if err != nil || !bytes.Equal(got, sim.Cat(pre, b)) || !bytes.Equal(buf, pre) {
				c.Failf("%s: appended to %d bytes with room for %d: error %v, result %x", name, len(pre), spare, err, got)
			}
		}
	}
	x := decode(c, name, b, b)
	if x == nil {
		c.Failf("%s: its own encoding is refused", name)
	}
	if !m.Equal(x) || !x.Equal(m) || !m.Equal(m) {
		c.Failf("%s: does not equal what its encoding decodes to", name)
	}
	others(c, name, m)
	if x.Type != m.Type || x.From != m.From || x.To != m.To {
		c.Failf("%s: decodes to kind %d from %d to %d", name, x.Type, x.From, x.To)
	}
	c.Distinct(b)
}

// others compares a message and its parts with values of other kinds.
func others(c *lib.Ctx, name string, m *messages.Message) {
	type eq interface{ Equal(other interface{}) bool }
	alien := []interface{}{nil, 5, "x", []byte{1}, struct{}{}, &struct{ X int }{}, new(int)}
	parts := map[string]eq{"message": m, "header": &m.Header}
	if m.KeyGen1 != nil {
		parts["content"], parts["proof"], parts["commitments"] = m.KeyGen1, m.KeyGen1.Proof, m.KeyGen1.Commitments
	}
	if m.KeyGen2 != nil {
		parts["content"] = m.KeyGen2
	}
	if m.Sign1 != nil {
		parts["content"] = m.Sign1
	}
	if m.Sign2 != nil {
		parts["content"] = m.Sign2
	}
	for what, p := range parts {
		for _, a := range alien {
			var is bool
			if r := lib.Catch(func() { is = p.Equal(a) }); r != nil {
				c.Failf("%s: comparing its %s with a %T panics: %v", name, what, a, r)
			}
			c.Check(!is, "%s: its %s equals a %T", name, what, a)
		}
	}
}

// decode decodes into a fresh message and into one that already holds something else; the input must
// stay as it is, and what comes out must encode to want.
func decode(c *lib.Ctx, name string, b, want []byte) *messages.Message {
	in := append([]byte(nil), b...)
	var m messages.Message
	err := m.UnmarshalBinary(in)
	if !bytes.Equal(in, b) {
		c.Failf("%s: decoding changes its input", name)
	}
	if err != nil {
		return nil
	}
	for i := range in {
		in[i] ^= 0xff // the message must not depend on the buffer
	}
	out, err := m.MarshalBinary()
	if err != nil || !bytes.Equal(out, want) {
		c.Failf("%s: %x decodes to a message that encodes to %x (error %v)", name, b, out, err)
	}
	if m.Size() != len(want) {
		c.Failf("%s: Size after decoding is %d, the encoding has %d bytes", name, m.Size(), len(want))
	}
	return &m
}

func run(c *lib.Ctx) {
	for k := range idAlpha {
		from := idAlpha[k]
		c.Case(fmt.Sprintf("round trip/from %d", from), func() {
			for si, s := range scalars() {
				round(c, fmt.Sprintf("signature share %d from %d", si, from), messages.NewSign2(from, sim.Sc(s)), sim.MakeS2(from, s))
				for _, to := range idAlpha {
					round(c, fmt.Sprintf("share %d from %d to %d", si, from, to), messages.NewKeyGen2(from, to, sim.Sc(s)), sim.MakeK2(from, to, s))
				}
				for ri, r := range scalars() {
					round(c, fmt.Sprintf("commitments %d %d from %d", si, ri, from), messages.NewSign1(from, point(s), point(r)), sim.MakeS1(from, sim.BaseEnc(s), sim.BaseEnc(r)))
					ex, enc := exponent((si+ri)%4, "rt")
					round(c, fmt.Sprintf("keygen commitments with proof %d %d from %d", si, ri, from), messages.NewKeyGen1(from, schnorr(s, r), ex), sim.K1Bytes(from, s, r, enc))
				}
			}
			c.Sample("all kinds from %d over %d values", from, len(scalars()))
		})
	}
	degs := []int{0, 1, 2, 3, 4, 5, 6, 15, 254, 255, 256, 257, 300}
	if !c.Quick() {
		degs = append(degs, 1000, 4095, 32767, 65533, 65534)
	}
	for _, d := range degs {
		d := d
		c.Case(fmt.Sprintf("degree/%d", d), func() {
			ex, enc := exponent(d, "deg")
			if int(ex.Degree()) != d {
				c.Failf("degree %d is read as %d", d, ex.Degree())
			}
			round(c, fmt.Sprintf("keygen commitments of degree %d", d), messages.NewKeyGen1(3, schnorr(ref.Int(5), ref.Int(6)), ex), sim.K1Bytes(3, ref.Int(5), ref.Int(6), enc))
		})
	}
	c.Case("produced by sessions", func() {
		for n := 2; n <= 4; n++ {
			r, err := sim.RunKeygen(sim.Spread(n), n-1, "c09")
			if err != nil {
				c.Failf("%v", err)
			}
			k := sim.Deal(sim.Spread(n), n-1, "c09")
			g, err := sim.RunSign(k.IDs, k.Public, k.Secret, []byte("m"), "c09")
			if err != nil {
				c.Failf("%v", err)
			}
			for _, x := range []*sim.Run{r, g} {
				for _, id := range x.IDs {
					for _, step := range x.Sent[id] {
						for _, b := range step {
							m := decode(c, "message of a session", b, b)
							c.Check(m != nil && sim.Canonical(b), "a session sends %x, which is not a canonical message", b)
							round(c, "message of a session", m, b)
						}
					}
				}
			}
		}
	})
	// damage
	msgs := map[string][]byte{
		"share":           sim.MakeK2(258, 772, sim.RandScalar("s")),
		"commitments":     sim.MakeS1(258, sim.BaseEnc(sim.RandScalar("d")), sim.BaseEnc(sim.RandScalar("e"))),
		"signature share": sim.MakeS2(258, sim.RandScalar("z")),
	}
	for d := 0; d <= 3; d++ {
		var co []*big.Int
		for i := 0; i <= d; i++ {
			co = append(co, sim.RandScalar(fmt.Sprint("co", i)))
		}
		msgs[fmt.Sprintf("keygen commitments of degree %d", d)] = sim.MakeK1(258, 258, co)
	}
	for _, name := range []string{"share", "commitments", "signature share", "keygen commitments of degree 0", "keygen commitments of degree 1", "keygen commitments of degree 2", "keygen commitments of degree 3"} {
		name := name
		const parts = 4
		for part := 0; part < parts; part++ {
			part := part
			c.Case(fmt.Sprintf("damage/%s part %d", name, part), func() {
				ok := 0
				ms := sim.Mutants(msgs[name], append([]party.ID{0}, idAlpha...), true)
				for i := range ms {
					if i%parts != part {
						continue
					}
					x := ms[i]
					what := name + ": " + x.Name
					want := sim.Canonical(x.B)
					m := decode(c, what, x.B, x.B)
					if (m != nil) != want {
						c.Failf("%s: accepted by decoding: %v, canonical by the grammar: %v (%x)", what, m != nil, want, x.B)
					}
					if m != nil {
						ok++
						if !bytes.Equal(x.B, msgs[name]) && sameKind(x.B, msgs[name]) {
							o, _ := sim.Decode(msgs[name])
							if m.Equal(o) || o.Equal(m) {
								c.Failf("%s: equals the original", what)
							}
						}
					}
					dirty(c, what, x.B, want)
					c.Eval(1)
					c.Distinct(x.B)
				}
				c.Sample("%s: %d damaged encodings, %d of them canonical", name, len(ms), ok)
			})
		}
	}
	for part := 0; part < 8; part++ {
		part := part
		c.Case(fmt.Sprintf("short/part %d", part), func() {
			for i, x := range sim.Short(2) {
				if i%8 == part {
					c.Check(decode(c, x.Name, x.B, x.B) == nil, "%x decodes", x.B)
					c.Eval(1)
				}
			}
		})
	}
	// parts decoded on their own
	c.Case("parts", func() {
		parts(c)
	})
	c.Case("inconsistent", func() { inconsistent(c) })
}

func sameKind(a, b []byte) bool { return a[0] == b[0] }

// dirty decodes into messages that already hold another message.
func dirty(c *lib.Ctx, name string, b []byte, want bool) {
	for _, old := range [][]byte{sim.MakeS2(9, ref.Int(77)), sim.MakeK2(9, 8, ref.Int(77))} {
		m, err := sim.Decode(old)
		if err != nil {
			panic(err)
		}
		err = m.UnmarshalBinary(append([]byte(nil), b...))
		if (err == nil) != want {
			c.Failf("%s: decoding into a used message: error %v, canonical: %v", name, err, want)
		}
		if err == nil {
			out, err := m.MarshalBinary()
			if err != nil || !bytes.Equal(out, b) {
				c.Failf("%s: decoding into a used message gives one that encodes to %x (error %v)", name, out, err)
			}
		}
	}
}

// parts checks the contents' own encodings.
func parts(c *lib.Ctx) {
	check := func(name string, in, fresh messages.FROSTMarshaler, enc []byte) {
		b, err := in.MarshalBinary()
		if err != nil || !bytes.Equal(b, enc) {
			c.Failf("%s: encodes to %x (%v), expected %x", name, b, err, enc)
		}
		c.Check(in.Size() == len(b), "%s: Size is %d for %d bytes", name, in.Size(), len(b))
		a, err := in.BytesAppend([]byte{1, 2, 3})
		c.Check(err == nil && bytes.Equal(a, append([]byte{1, 2, 3}, b...)), "%s: BytesAppend gives %x, %v", name, a, err)
		if err := fresh.UnmarshalBinary(b); err != nil {
			c.Failf("%s: its encoding is refused: %v", name, err)
		}
		c.Check(in.Equal(fresh) && fresh.Equal(in), "%s: not equal after decoding", name)
		c.Check(!in.Equal(nil) && !in.Equal(3), "%s: equals something of another type", name)
		for n := 0; n < len(b); n++ {
			c.Check(lib.Catch(func() {
				if fresh.UnmarshalBinary(b[:n:n]) == nil && name != "header" {
					c.Failf("%s: accepted when cut to %d bytes", name, n)
				}
			}) == nil, "%s: decoding of %d bytes fails", name, n)
		}
		if name != "header" {
			c.Check(fresh.UnmarshalBinary(append(append([]byte(nil), b...), 0)) != nil, "%s: accepted with a byte appended", name)
		}
		c.Eval(1)
		c.Distinct(name, enc)
	}
	dec := func(enc []byte, m messages.FROSTMarshaler) messages.FROSTMarshaler {
		if err := m.UnmarshalBinary(enc); err != nil {
			c.Failf("%x refused by %T: %v", enc, m, err)
		}
		return m
	}
	for _, s := range scalars() {
		e := ref.LE(s)
		check("keygen share", dec(e, &messages.KeyGen2{}), &messages.KeyGen2{}, e)
		check("signature share", dec(e, &messages.Sign2{}), &messages.Sign2{}, e)
		for _, r := range scalars() {
			e := sim.Cat(sim.BaseEnc(s), sim.BaseEnc(r))
			check("commitments", dec(e, &messages.Sign1{}), &messages.Sign1{}, e)
			e = sim.Cat(ref.LE(s), ref.LE(r))
			check("proof", dec(e, &zk.Schnorr{}), &zk.Schnorr{}, e)
			e = sim.Cat(sim.BaseEnc(s), ref.LE(r))
			check("signature", dec(e, &eddsa.Signature{}), &eddsa.Signature{}, e)
		}
	}
	for d := 0; d < 5; d++ {
		ex, enc := exponent(d, "parts")
		e := sim.Cat(append([][]byte{{byte(d >> 8), byte(d)}}, enc...)...)
		check("committed polynomial", ex, &polynomial.Exponent{}, e)
		e = sim.Cat(ref.LE(ref.Int(3)), ref.LE(ref.Int(4)), e)
		check("keygen commitments", dec(e, &messages.KeyGen1{}), &messages.KeyGen1{}, e)
	}
	for _, id := range idAlpha {
		for t := 1; t <= 4; t++ {
			to := party.ID(0)
			if t == sim.K2 {
				to = 65535 - id + 1
			}
			e := sim.Head(t, id, to)
			check("header", dec(e, &messages.Header{}), &messages.Header{}, e)
		}
	}
	// unequal values are not Equal
	var all []messages.FROSTMarshaler
	for _, s := range scalars() {
		all = append(all, dec(ref.LE(s), &messages.KeyGen2{}), dec(ref.LE(s), &messages.Sign2{}), dec(sim.Cat(sim.BaseEnc(s), sim.BaseEnc(ref.Int(1))), &messages.Sign1{}),
			dec(sim.Cat(sim.BaseEnc(ref.Int(1)), sim.BaseEnc(ref.Add(s, ref.Int(3)))), &messages.Sign1{}), schnorr(s, ref.Int(1)), schnorr(ref.Int(2), s),
			dec(sim.Cat(sim.BaseEnc(s), ref.LE(ref.Int(2))), &eddsa.Signature{}), dec(sim.Cat(sim.BaseEnc(ref.Int(2)), ref.LE(ref.Add(s, ref.Int(9)))), &eddsa.Signature{}))
	}
	for d := 0; d < 4; d++ {
		for _, l := range []string{"", "x", "yy"} {
			ex, _ := exponent(d, l)
			all = append(all, ex)
		}
	}
	for _, x := range all {
		for _, y := range all {
			bx, _ := x.MarshalBinary()
			by, _ := y.MarshalBinary()
			want := fmt.Sprintf("%T", x) == fmt.Sprintf("%T", y) && bytes.Equal(bx, by)
			if x.Equal(y) != want {
				c.Failf("%T %x Equal %T %x is %v", x, bx, y, by, !want)
			}
			c.Eval(1)
		}
	}
}

// inconsistent encodes messages with every combination of kind, addressing and contents.
func inconsistent(c *lib.Ctx) {
	ex, _ := exponent(2, "inc")
	ids := []party.ID{0, 1, 256, 65535}
	for typ := 0; typ < 256; typ++ {
		for content := 0; content < 64; content++ {
			for _, from := range ids {
				for _, to := range ids {
					m := &messages.Message{Header: messages.Header{Type: messages.MessageType(typ), From: from, To: to}}
					if content&1 != 0 {
						m.KeyGen1 = &messages.KeyGen1{Proof: schnorr(ref.Int(1), ref.Int(2)), Commitments: ex}
						if content&16 != 0 {
							m.KeyGen1.Proof = nil
						}
						if content&32 != 0 {
							m.KeyGen1.Commitments = nil
						}
					} else if content&48 != 0 {
						continue
					}
					if content&2 != 0 {
						m.KeyGen2 = messages.NewKeyGen2(1, 2, sim.Sc(ref.Int(9))).KeyGen2
					}
					if content&4 != 0 {
						m.Sign1 = messages.NewSign1(1, point(ref.Int(4)), point(ref.Int(5))).Sign1
					}
					if content&8 != 0 {
						m.Sign2 = messages.NewSign2(1, sim.Sc(ref.Int(9))).Sign2
					}
					has := typ >= 1 && typ <= 4 && content>>(typ-1)&1 == 1 && !(typ == sim.K1 && content&48 != 0)
					ok := has && from != 0 && (to != 0) == (typ == sim.K2)
					var b []byte
					var err error
					what := fmt.Sprintf("kind %d, from %d, to %d, contents %06b", typ, from, to, content)
					if p := lib.Catch(func() { b, err = m.MarshalBinary() }); p != nil {
						c.Failf("encoding a message of %s panics: %v", what, p)
					}
					if err == nil && !ok {
						c.Failf("a message of %s is encoded as %x", what, b)
					}
					if ok && content == 1<<(typ-1) {
						if err != nil {
							c.Failf("a message of %s cannot be encoded: %v", what, err)
						}
						c.Check(sim.Canonical(b), "a message of %s is encoded as %x, which is not canonical", what, b)
					}
					if ok && err == nil {
						x := decode(c, what, b, b)
						c.Check(x != nil, "a message of %s is encoded as %x, which does not decode", what, b)
					}
					pre := []byte{1, 2}
					if p := lib.Catch(func() { _, err = m.BytesAppend(pre) }); p != nil || (err == nil && !ok) {
						c.Failf("appending a message of %s: panic %v, error %v", what, p, err)
					}
					c.Eval(1)
				}
			}
		}
		c.Distinct("inconsistent", typ)
	}
}
