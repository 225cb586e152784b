//go:build go1.21

// C18: stored key material survives storage and damaged data is refused.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C18", Level: "exploration",
		Rule:   "round trips of every stored form (key share, public data, group key, signature; binary, JSON, inside an indented document) over all identifier sets and thresholds of the bound, edge-value secrets, and the outputs of key generation; histories: all sequences of 3 (thorough 4) documents, damaged ones included, loaded into one value; damage: every field removed, set to null, doubled with another value, or replaced by each value of a menu of wrong kinds, edge numbers, other valid values and non-canonical encodings; every truncation; every single-bit change. A reference reader decides what the damaged document says: it must be refused unless what it says is consistent (group key interpolated from the shares in reference arithmetic, 1 <= identifiers <= 65535, threshold stated and below the number of parties), and what is accepted must be what the document says",
		Bounds: "identifier sets: all of size 2..4 over 6 identifiers, and of size up to 12 (thorough 40), groups of up to 130 (thorough 1000) parties undamaged and with one share, the threshold or the key wrong; damage on 5 documents of each kind",
	}, run)
}

func mustJSON(c *lib.Ctx, v interface{}) []byte {
	b, err := json.Marshal(v)
	c.Check(err == nil, "encoding fails: %v", err)
	return b
}

func run(c *lib.Ctx) {
	var sets []party.IDSlice
	for n := 2; n <= 4; n++ {
		sets = append(sets, sim.IDSets([]party.ID{1, 2, 9, 10, 256, 65535}, n)...)
	}
	for n := 5; n <= c.Pick(12, 40); n++ {
		sets = append(sets, sim.Seq(n), sim.Spread(n))
	}
	for _, ids := range sets {
		for t := 1; t < len(ids); t++ {
			if len(ids) > 6 && t > 3 && t < len(ids)-2 {
				continue
			}
			ids, t := ids, t
			c.Case(fmt.Sprintf("round trip ids=%v t=%d", ids, t), func() {
				k := sim.Deal(ids, t, fmt.Sprint("store", ids, t))
				roundPublic(c, k.Public)
				for _, s := range k.Secret {
					roundShare(c, s)
				}
				c.Distinct("rt", fmt.Sprint(ids, t))
			})
		}
	}
	bigSets(c)
	for _, cfg := range []struct{ n, t int }{{2, 1}, {3, 1}, {3, 2}, {4, 2}} {
		cfg := cfg
		c.Case(fmt.Sprintf("key generation output %d of %d", cfg.t, cfg.n), func() {
			r, err := sim.RunKeygen(sim.Spread(cfg.n), cfg.t, fmt.Sprint("store", cfg))
			c.Check(err == nil, "key generation fails: %v", err)
			for _, s := range r.Sess {
				roundPublic(c, s.KG.Public)
				roundShare(c, s.KG.SecretKey)
			}
			c.Trace(1)
		})
	}
	c.Case("edge shares", func() {
		for _, id := range sim.IDAlphabet {
			for _, x := range sim.Scalars() {
				s := eddsa.NewSecretShare(id, sim.Sc(x))
				c.Check(bytes.Equal(s.Public.Bytes(), sim.BaseEnc(x)), "public share of %s", x)
				roundShare(c, s)
			}
		}
	})
	c.Case("edge signatures", func() {
		for _, a := range []interface{}{nil, 5, "x", []byte{1}, new(int), new(eddsa.PublicKey)} {
			sig := &eddsa.Signature{R: *sim.FromEnc(big.NewInt(3)), S: *sim.Sc(big.NewInt(4))}
			is := false
			if p := lib.Catch(func() { is = sig.Equal(a) }); p != nil || is {
				c.Failf("comparing a signature with a %T: equal %v, panic %v", a, is, p)
			}
		}
		for _, r := range sim.Scalars() {
			for _, x := range sim.Scalars() {
				for _, rep := range []int{0, 1, 3, 5} {
					sig := &eddsa.Signature{R: *sim.Reps(r)[rep].E, S: *sim.Sc(x)}
					b, err := sig.MarshalBinary()
					c.Check(err == nil && bytes.Equal(b, sim.Cat(sim.BaseEnc(r), ref.LE(x))), "binary form %x %v", b, err)
					b2, err := sig.BytesAppend([]byte("x"))
					c.Check(err == nil && bytes.Equal(b2, append([]byte("x"), b...)), "appended form %x %v", b2, err)
					c.Check(sig.Size() == 64, "Size is %d", sig.Size())
					var s2 eddsa.Signature
					c.Check(s2.UnmarshalBinary(b) == nil, "a stored signature is refused")
					c.Check(s2.Equal(sig) && sig.Equal(&s2) && bytes.Equal(s2.ToEd25519(), sig.ToEd25519()), "a stored signature differs from the original")
					c.Eval(1)
				}
			}
		}
	})
	histories(c)
	signatureDamage(c)
	shareDamage(c)
	keyDamage(c)
	publicDamage(c)
}

// bigSets stores and reads the data of big groups, and documents of them in which one thing is wrong.
func bigSets(c *lib.Ctx) {
	ns := []int{33, 65, 130}
	if !c.Quick() {
		ns = append(ns, 63, 64, 66, 127, 128, 129, 255, 256, 257, 258, 300, 1000)
	}
	for _, n := range ns {
		for _, t := range []int{1, n / 2, n - 1} {
			n, t := n, t
			c.Case(fmt.Sprintf("big set n=%d t=%d", n, t), func() {
				k := sim.Deal(sim.Spread(n), t, fmt.Sprint("store big", n, t))
				roundPublic(c, k.Public)
				for _, j := range []int{0, 1, n / 2, n - 2, n - 1} {
					roundShare(c, k.Secret[k.IDs[j]])
				}
				c.Distinct("big", n, t)
			})
		}
		for part := 0; part < 4; part++ {
			n, part := n, part
			c.Case(fmt.Sprintf("big damaged n=%d part %d", n, part), func() {
				k := sim.Deal(sim.Spread(n), 2, fmt.Sprint("store big", n))
				var m map[string]json.RawMessage
				json.Unmarshal(mustJSON(c, k.Public), &m)
				var sh map[string]json.RawMessage
				json.Unmarshal(m["shares"], &sh)
				refused := func(what string, t int, gk json.RawMessage) {
					b := mustJSON(c, map[string]interface{}{"t": t, "groupkey": gk, "shares": sh})
					var p eddsa.Public
					c.Check(json.Unmarshal(b, &p) != nil, "public data of %d parties with %s is accepted", n, what)
					c.Eval(1)
				}
				name := func(j int) string { return fmt.Sprint(k.IDs[j]) }
				for j := part; j < n; j += 4 {
					if c.Quick() && n > 40 && j > 8 && j < n-8 && j%16 > 3 {
						continue
					}
					old := sh[name(j)]
					next := name((j + 1) % n)
					sh[name(j)] = sh[next]
					refused(fmt.Sprintf("share %d replaced by the next", j), 2, m["groupkey"])
					sh[next] = old
					refused(fmt.Sprintf("share %d exchanged with the next", j), 2, m["groupkey"])
					sh[next] = sh[name(j)]
					sh[name(j)] = json.RawMessage(b64(make([]byte, 32)))
					refused(fmt.Sprintf("share %d neutral", j), 2, m["groupkey"])
					sh[name(j)] = json.RawMessage("null")
					refused(fmt.Sprintf("share %d null", j), 2, m["groupkey"])
					sh[name(j)] = json.RawMessage(b64(bytes.Repeat([]byte{255}, 32)))
					refused(fmt.Sprintf("share %d not canonical", j), 2, m["groupkey"])
					sh[name(j)] = old
					c.Distinct("big damaged", n, j)
				}
				for _, t := range []int{-1, n, n + 1, n + 256, 65535, 65536, 65538} {
					refused(fmt.Sprintf("threshold %d", t), t, m["groupkey"])
				}
				refused("another group key", 2, sh[name(0)])
				b := mustJSON(c, map[string]interface{}{"t": 2, "groupkey": m["groupkey"], "shares": sh})
				var p eddsa.Public
				c.Check(json.Unmarshal(b, &p) == nil, "the undamaged public data of %d parties is refused", n)
			})
		}
	}
}

func roundPublic(c *lib.Ctx, p *eddsa.Public) {
	want := sim.PublicKey(p)
	forms := [][]byte{mustJSON(c, p), mustJSON(c, p)}
	ind, err := json.MarshalIndent(struct{ P *eddsa.Public }{p}, "", "   ")
	c.Check(err == nil, "indented: %v", err)
	var box struct{ P *eddsa.Public }
	c.Check(json.Unmarshal(ind, &box) == nil && box.P != nil, "public data inside a document is refused")
	c.Check(sim.PublicKey(box.P) == want, "public data inside a document is read as %s, was %s", sim.PublicKey(box.P), want)
	for _, f := range forms {
		for _, into := range []*eddsa.Public{{}, sim.Deal([]party.ID{3, 4}, 1, "old").Public} {
			err := json.Unmarshal(f, into)
			c.Check(err == nil, "stored public data %s is refused: %v", f, err)
			c.Check(sim.PublicKey(into) == want, "stored public data is read as %s, was %s", sim.PublicKey(into), want)
			c.Check(into.Equal(p) && p.Equal(into), "public data is not equal to itself after storage")
			c.Check(bytes.Equal(mustJSON(c, into), f), "public data is written differently after storage")
			c.Eval(1)
		}
	}
	c.Check(sim.PublicKey(p) == want, "storing public data changes it")
	var gk eddsa.PublicKey
	js := mustJSON(c, p.GroupKey)
	c.Check(json.Unmarshal(js, &gk) == nil && gk.Equal(p.GroupKey) && bytes.Equal(gk.ToEd25519(), p.GroupKey.ToEd25519()), "the group key does not survive storage")
	// equality tells different data apart
	for _, other := range variants(p) {
		c.Check(!p.Equal(other) && !other.Equal(p), "Equal does not tell different public data apart: %s / %s", want, sim.PublicKey(other))
	}
}

// variants returns public data that differs from p in one respect.
func variants(p *eddsa.Public) []*eddsa.Public {
	var out []*eddsa.Public
	get := func() *eddsa.Public {
		b, _ := json.Marshal(p)
		var q eddsa.Public
		if err := json.Unmarshal(b, &q); err != nil {
			panic(err)
		}
		return &q
	}
	q := get()
	q.Threshold++
	out = append(out, q)
	q = get()
	q.GroupKey = eddsa.NewPublicKeyFromPoint(sim.FromEnc(big.NewInt(77)))
	out = append(out, q)
	for _, id := range p.PartyIDs {
		q = get()
		q.Shares[id] = sim.FromEnc(big.NewInt(77))
		out = append(out, q)
	}
	q = get()
	q.PartyIDs = q.PartyIDs[:len(q.PartyIDs)-1]
	out = append(out, q)
	return out
}

func roundShare(c *lib.Ctx, s *eddsa.SecretShare) {
	x := sim.Big(&s.Secret)
	same := func(how string, s2 *eddsa.SecretShare) {
		c.Check(s2.ID == s.ID && sim.Big(&s2.Secret).Cmp(x) == 0, "%s: a key share of party %d is read as party %d, secret changed: %v", how, s.ID, s2.ID, sim.Big(&s2.Secret).Cmp(x) != 0)
		c.Check(bytes.Equal(s2.Public.Bytes(), sim.BaseEnc(x)), "%s: the public share is not rebuilt", how)
		c.Check(s2.Equal(s) && s.Equal(s2), "%s: a key share does not equal itself", how)
		c.Eval(1)
	}
	olds := func() []*eddsa.SecretShare {
		return []*eddsa.SecretShare{{}, eddsa.NewSecretShare(77, sim.Sc(big.NewInt(99))), eddsa.NewSecretShare(s.ID, sim.Sc(big.NewInt(99))), eddsa.NewSecretShare(77, &s.Secret)}
	}
	b, err := s.MarshalBinary()
	c.Check(err == nil && bytes.Equal(b, sim.Cat([]byte{byte(s.ID >> 8), byte(s.ID)}, ref.LE(x))), "binary form %x, %v", b, err)
	for _, into := range olds() {
		c.Check(into.UnmarshalBinary(b) == nil, "a stored key share is refused")
		same("binary", into)
	}
	js := mustJSON(c, s)
	for _, into := range olds() {
		err := json.Unmarshal(js, into)
		c.Check(err == nil, "a stored key share %s is refused: %v", js, err)
		same("JSON", into)
	}
	ind, err := json.MarshalIndent(map[party.ID]*eddsa.SecretShare{s.ID: s}, " ", "\t")
	c.Check(err == nil, "indented: %v", err)
	var box map[party.ID]*eddsa.SecretShare
	c.Check(json.Unmarshal(ind, &box) == nil && len(box) == 1 && box[s.ID] != nil, "a key share inside a document is refused")
	same("inside a document", box[s.ID])
	c.Check(!s.Equal(eddsa.NewSecretShare(s.ID+1, &s.Secret)), "Equal ignores the identifier")
	c.Check(!s.Equal(eddsa.NewSecretShare(s.ID, sim.Sc(ref.Add(x, big.NewInt(1))))), "Equal ignores the secret")
}

// doc is one document of a history: load reads it into the receiver and, if that succeeded, compares.
type doc struct {
	name string
	load func() (accepted bool, wrong string)
	ok   bool
}

// histories loads all sequences of documents, damaged ones included, into one and the same value.
func histories(c *lib.Ctx) {
	all := func(kind string, docs func() []doc) {
		n := len(docs())
		for first := 0; first < n; first++ {
			first := first
			c.Case(fmt.Sprintf("history of a %s starting with %d", kind, first), func() {
				lib.Tuples([]int{n, n, n}[:c.Pick(2, 3)], func(rest []int) {
					seq := docs()
					var trace []string
					for _, i := range append([]int{first}, rest...) {
						d := seq[i]
						trace = append(trace, d.name)
						acc, wrong := d.load()
						c.Check(acc == d.ok, "%s: after loading %v the last document was accepted: %v, expected %v", kind, trace, acc, d.ok)
						c.Check(wrong == "", "%s: after loading %v: %s", kind, trace, wrong)
						c.Eval(1)
					}
					c.Distinct("history", kind, fmt.Sprint(first, rest))
				})
			})
		}
	}
	all("key share", func() []doc {
		s := &eddsa.SecretShare{}
		var out []doc
		add := func(name string, id party.ID, x *big.Int, ok bool, load func() error) {
			out = append(out, doc{name, func() (bool, string) {
				if err := load(); err != nil {
					return false, ""
				}
				if s.ID != id || sim.Big(&s.Secret).Cmp(x) != 0 {
					return true, "the value is not the one stored"
				}
				if !bytes.Equal(s.Public.Bytes(), sim.BaseEnc(x)) {
					return true, "the public share does not belong to the secret"
				}
				return true, ""
			}, ok})
		}
		for _, v := range []struct {
			id party.ID
			x  *big.Int
		}{{1, big.NewInt(11)}, {1, big.NewInt(12)}, {2, big.NewInt(11)}, {2, big.NewInt(0)}} {
			v := v
			bin, _ := eddsa.NewSecretShare(v.id, sim.Sc(v.x)).MarshalBinary()
			js, _ := json.Marshal(eddsa.NewSecretShare(v.id, sim.Sc(v.x)))
			add(fmt.Sprintf("binary %d/%s", v.id, v.x), v.id, v.x, true, func() error { return s.UnmarshalBinary(bin) })
			add(fmt.Sprintf("JSON %d/%s", v.id, v.x), v.id, v.x, true, func() error { return json.Unmarshal(js, s) })
		}
		add("binary with secret q", 0, nil, false, func() error { return s.UnmarshalBinary(sim.Cat([]byte{0, 1}, ref.LE(ref.Q))) })
		add("JSON with secret q", 0, nil, false, func() error {
			return json.Unmarshal([]byte(`{"id":1,"secret":`+b64(ref.LE(ref.Q))+`}`), s)
		})
		add("JSON without secret", 0, nil, false, func() error { return json.Unmarshal([]byte(`{"id":1}`), s) })
		add("JSON without ID", 0, nil, false, func() error {
			return json.Unmarshal([]byte(`{"secret":`+b64(ref.LE(big.NewInt(11)))+`}`), s)
		})
		return out
	})
	all("public data", func() []doc {
		p := &eddsa.Public{}
		var out []doc
		add := func(name string, k *sim.Keys, js []byte) {
			out = append(out, doc{name, func() (bool, string) {
				if err := json.Unmarshal(js, p); err != nil {
					return false, ""
				}
				if got, want := sim.PublicKey(p), sim.PublicKey(k.Public); got != want {
					return true, "the value is " + got + ", stored was " + want
				}
				return true, ""
			}, k != nil})
		}
		for _, k := range []*sim.Keys{sim.Deal([]party.ID{1, 2}, 1, "h1"), sim.Deal([]party.ID{1, 2}, 1, "h2"), sim.Deal([]party.ID{1, 2, 3}, 1, "h3"), sim.Deal([]party.ID{1, 2, 3}, 2, "h4"), sim.Deal([]party.ID{4, 5}, 1, "h5")} {
			js, _ := json.Marshal(k.Public)
			add(fmt.Sprint(k.IDs, k.T), k, js)
			var m map[string]json.RawMessage
			json.Unmarshal(js, &m)
			for _, f := range []string{"t", "groupkey", "shares"} {
				keep := m[f]
				delete(m, f)
				js, _ := json.Marshal(m)
				if k.IDs[0] == 1 && len(k.IDs) == 3 {
					add(fmt.Sprint(k.IDs, k.T, " without ", f), nil, js)
				}
				m[f] = keep
			}
		}
		return out
	})
	all("group key", func() []doc {
		p := &eddsa.PublicKey{}
		var out []doc
		for _, x := range []int64{0, 1, 2} {
			x := big.NewInt(x)
			js, _ := json.Marshal(eddsa.NewPublicKeyFromPoint(sim.FromEnc(x)))
			out = append(out, doc{"key " + x.String(), func() (bool, string) {
				if err := json.Unmarshal(js, p); err != nil {
					return false, ""
				}
				if !bytes.Equal(p.ToEd25519(), ref.BaseMul(x).EncodeEd()) {
					return true, "the key is not the one stored"
				}
				return true, ""
			}, true})
		}
		for _, d := range []string{"null", "1", `""`, b64(ref.LE(ref.Q)), "{}"} {
			d := d
			out = append(out, doc{d, func() (bool, string) { return json.Unmarshal([]byte(d), p) == nil, "" }, false})
		}
		return out
	})
	all("signature", func() []doc {
		s := &eddsa.Signature{}
		var out []doc
		for _, x := range [][2]int64{{1, 2}, {1, 3}, {2, 2}} {
			b := sim.Cat(sim.BaseEnc(big.NewInt(x[0])), ref.LE(big.NewInt(x[1])))
			out = append(out, doc{fmt.Sprint(x), func() (bool, string) {
				if s.UnmarshalBinary(b) != nil {
					return false, ""
				}
				if o, err := s.MarshalBinary(); err != nil || !bytes.Equal(o, b) {
					return true, "the signature is not the one stored"
				}
				return true, ""
			}, true})
		}
		for n, b := range map[string][]byte{"short": make([]byte, 63), "response q": sim.Cat(sim.BaseEnc(big.NewInt(1)), ref.LE(ref.Q)), "bad nonce": sim.Cat(ref.LE(big.NewInt(1)), ref.LE(big.NewInt(1)))} {
			b := b
			out = append(out, doc{n, func() (bool, string) { return s.UnmarshalBinary(b) == nil, "" }, false})
		}
		return out
	})
}

func canonicalScalar(b []byte) bool { return len(b) == 32 && ref.FromLE(b).Cmp(ref.Q) < 0 }
func canonicalPoint(b []byte) bool  { _, ok := ref.DecodeRistretto(b); return ok }

// damage yields truncations, extensions, single-bit changes and single-byte deletions.
func damage(b []byte, f func(name string, x []byte)) {
	for n := 0; n < len(b); n++ {
		f(fmt.Sprintf("cut to %d", n), b[:n:n])
	}
	for i := 0; i < 8*len(b); i++ {
		x := append([]byte(nil), b...)
		x[i/8] ^= 1 << uint(i%8)
		f(fmt.Sprintf("bit %d", i), x)
	}
	for i := range b {
		f(fmt.Sprintf("without byte %d", i), append(append([]byte(nil), b[:i]...), b[i+1:]...))
		f(fmt.Sprintf("byte %d twice", i), append(append(append([]byte(nil), b[:i+1]...), b[i]), b[i+1:]...))
	}
	for n := 1; n <= 40; n++ {
		f(fmt.Sprintf("%d more bytes", n), append(append([]byte(nil), b...), make([]byte, n)...))
	}
}

func signatureDamage(c *lib.Ctx) {
	for i, x := range []int64{1, 5, 1000003} {
		i := i
		sig := sim.Cat(sim.BaseEnc(big.NewInt(x)), ref.LE(sim.RandScalar(fmt.Sprint("sd", x))))
		c.Case(fmt.Sprintf("damaged signature %d", i), func() {
			try := func(name string, b []byte) {
				want := len(b) == 64 && canonicalPoint(b[:32]) && canonicalScalar(b[32:])
				s := eddsa.Signature{R: *sim.FromEnc(big.NewInt(3)), S: *sim.Sc(big.NewInt(4))}
				in := append([]byte(nil), b...)
				err := s.UnmarshalBinary(in)
				c.Check((err == nil) == want, "signature %x (%s): error %v, but well-formed=%v", b, name, err, want)
				c.Check(bytes.Equal(in, b), "reading changes the data")
				if err == nil {
					out, err := s.MarshalBinary()
					c.Check(err == nil && bytes.Equal(out, b), "signature %x (%s) is read as %x", b, name, out)
				}
				c.Eval(1)
			}
			damage(sig, try)
			for n, v := range sim.Fields32() {
				try("first "+n, sim.Cat(v, sig[32:]))
				try("second "+n, sim.Cat(sig[:32], v))
				c.Distinct("sig", n)
			}
			try("nil", nil)
		})
	}
}

func shareDamage(c *lib.Ctx) {
	for i, id := range []party.ID{1, 10, 65535} {
		i, id := i, id
		x := sim.RandScalar(fmt.Sprint("shd", id))
		s := eddsa.NewSecretShare(id, sim.Sc(x))
		old := func() *eddsa.SecretShare { return eddsa.NewSecretShare(77, sim.Sc(big.NewInt(99))) }
		c.Case(fmt.Sprintf("damaged binary key share %d", i), func() {
			bin, _ := s.MarshalBinary()
			try := func(name string, b []byte) {
				want := len(b) == 34 && canonicalScalar(b[2:]) && (b[0] != 0 || b[1] != 0)
				for _, s := range []*eddsa.SecretShare{{}, old()} {
					in := append([]byte(nil), b...)
					err := s.UnmarshalBinary(in)
					c.Check((err == nil) == want, "key share %x (%s): error %v, but well-formed=%v", b, name, err, want)
					if err == nil {
						out, err := s.MarshalBinary()
						c.Check(err == nil && bytes.Equal(out, b), "key share %x (%s) is read as %x", b, name, out)
						c.Check(bytes.Equal(s.Public.Bytes(), sim.BaseEnc(ref.FromLE(b[2:]))), "key share %x (%s): public share not rebuilt", b, name)
					}
					c.Check(bytes.Equal(in, b), "reading changes the data")
					c.Eval(1)
				}
			}
			damage(bin, try)
			for n, v := range sim.Fields32() {
				try("secret "+n, sim.Cat(bin[:2], v))
			}
			for _, h := range [][]byte{{0, 0}, {0, 1}, {1, 0}, {255, 255}} {
				try("id", sim.Cat(h, bin[2:]))
			}
			try("nil", nil)
		})
		c.Case(fmt.Sprintf("damaged JSON key share %d", i), func() {
			js := mustJSON(c, s)
			try := func(name string, b []byte) {
				id, sec, dup, ok := readShare(b)
				for _, s := range []*eddsa.SecretShare{{}, old()} {
					in := append([]byte(nil), b...)
					err := json.Unmarshal(in, s)
					if err != nil {
						c.Check(!ok || !strings.HasPrefix(name, "="), "key share %s (%s) is refused: %v", b, name, err)
						c.Note("refused", 1)
					} else if dup {
						c.Check(s.ID != 0 && bytes.Equal(s.Public.Bytes(), sim.BaseEnc(sim.Big(&s.Secret))), "key share %s (%s) is read inconsistently", b, name)
					} else {
						c.Check(ok, "key share %s (%s) is accepted as party %d", b, name, s.ID)
						c.Check(int64(s.ID) == id && bytes.Equal(s.Secret.Bytes(), sec), "key share %s (%s) is read as party %d secret %x", b, name, s.ID, s.Secret.Bytes())
						c.Check(bytes.Equal(s.Public.Bytes(), sim.BaseEnc(ref.FromLE(sec))), "key share %s (%s): public share not rebuilt", b, name)
						c.Note("accepted", 1)
					}
					c.Eval(1)
				}
			}
			damage(js, try)
			var m map[string]json.RawMessage
			json.Unmarshal(js, &m)
			fields(m, shareMenu(), try)
		})
	}
}

func b64(b []byte) string { return `"` + base64.StdEncoding.EncodeToString(b) + `"` }

func wrongKinds() []string {
	return []string{"null", "true", "false", "{}", "[]", `""`, `"a"`, `"0"`, `"1"`, "0", "1", "-1", "2", "3", "4", "5", "1.5", "1e0", "65535", "65536", "65537", "131073", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551617", "1e999", "-0", "[1]", `{"1":1}`, "NaN", "01"}
}

func values() []string {
	var out []string
	f := sim.Fields32()
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, b64(f[k]))
	}
	ok := sim.BaseEnc(big.NewInt(5))
	out = append(out, b64(ok[:31]), b64(append(append([]byte(nil), ok...), 0)), b64(nil),
		`"`+base64.RawStdEncoding.EncodeToString(ok)+`"`, `"`+base64.URLEncoding.EncodeToString(f["2^256-1"])+`"`, fmt.Sprintf("%q", fmt.Sprintf("%x", ok)))
	return out
}

func shareMenu() []string { return append(wrongKinds(), values()...) }

// fields takes a document apart and damages every field.
func fields(m map[string]json.RawMessage, menu []string, try func(string, []byte)) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	build := func(order []string, repl map[string]string, extra string) []byte {
		var parts []string
		for _, k := range order {
			v := string(m[k])
			if r, ok := repl[k]; ok {
				v = r
			}
			parts = append(parts, fmt.Sprintf("%q: %s", k, v))
		}
		if extra != "" {
			parts = append(parts, extra)
		}
		return []byte("{" + strings.Join(parts, ", ") + "}")
	}
	lib.Perms(len(ks), func(p []int) {
		var o []string
		for _, i := range p {
			o = append(o, ks[i])
		}
		try("=order", build(o, nil, ""))
	})
	try("=extra field", build(ks, nil, `"zzz": [1, {"a": null}]`))
	for _, k := range ks {
		var o []string
		for _, x := range ks {
			if x != k {
				o = append(o, x)
			}
		}
		try("without "+k, build(o, nil, ""))
		for _, v := range menu {
			try(k+"="+v, build(ks, map[string]string{k: v}, ""))
			try(k+" twice, then "+v, build(ks, nil, fmt.Sprintf("%q: %s", k, v)))
			for _, k2 := range ks {
				if k2 > k && !strings.HasPrefix(v, `"`) {
					try(k+","+k2+"="+v, build(ks, map[string]string{k: v, k2: v}, ""))
				}
			}
		}
	}
	for _, x := range []string{"", "null", "{}", "[]", "0", "1", `""`, "true", "{", "}", "nul", "[null]", `"x"`, strings.Repeat("[", 50000), strings.Repeat(`{"t":`, 20000)} {
		try("document", []byte(x))
	}
}

// look reads a document loosely, names compared as encoding/json does. What a document says that has a
// field twice is not defined; dup reports that.
func look(b []byte, names ...string) (out map[string]json.RawMessage, dup, ok bool) {
	dec := json.NewDecoder(bytes.NewReader(b))
	if !json.Valid(b) {
		return nil, false, false
	}
	t, err := dec.Token()
	if err != nil || t != json.Delim('{') {
		return nil, false, false
	}
	out = map[string]json.RawMessage{}
	for dec.More() {
		k, err := dec.Token()
		if err != nil {
			return nil, false, false
		}
		var v json.RawMessage
		if dec.Decode(&v) != nil {
			return nil, false, false
		}
		for _, n := range names {
			if strings.EqualFold(n, k.(string)) {
				if out[n] != nil {
					dup = true
				}
				out[n] = v
			}
		}
	}
	return out, dup, true
}

func number(v json.RawMessage, lo, hi int64) (int64, bool) {
	n, err := strconv.ParseInt(string(v), 10, 64)
	return n, err == nil && n >= lo && n <= hi && !strings.HasPrefix(string(v), `"`)
}

func text(v json.RawMessage) ([]byte, bool) {
	var s string
	if len(v) == 0 || v[0] != '"' || json.Unmarshal(v, &s) != nil {
		return nil, false
	}
	b, err := base64.StdEncoding.DecodeString(s)
	return b, err == nil
}

func readShare(b []byte) (id int64, sec []byte, dup, ok bool) {
	m, dup, ok := look(b, "id", "secret")
	if !ok || dup {
		return 0, nil, dup, false
	}
	id, ok1 := number(m["id"], 1, 65535)
	sec, ok2 := text(m["secret"])
	return id, sec, false, ok1 && ok2 && canonicalScalar(sec)
}

func keyDamage(c *lib.Ctx) {
	for i, x := range []int64{1, 5, 1000003} {
		i, x := i, x
		c.Case(fmt.Sprintf("damaged group key %d", i), func() {
			js := mustJSON(c, eddsa.NewPublicKeyFromPoint(sim.FromEnc(big.NewInt(x))))
			try := func(name string, b []byte) {
				enc, ok := text(bytes.TrimSpace(b))
				ok = ok && canonicalPoint(enc)
				for k, into := range []*eddsa.PublicKey{{}, eddsa.NewPublicKeyFromPoint(sim.FromEnc(big.NewInt(3)))} {
					err := json.Unmarshal(b, into)
					c.Check((err == nil) == ok, "group key %s (%s): error %v, but well-formed=%v", b, name, err, ok)
					if err == nil {
						c.Check(into.Equal(eddsa.NewPublicKeyFromPoint(fromBytes(enc))), "group key %s (%s) is read as another key", b, name)
					}
					_ = k
					c.Eval(1)
				}
			}
			damage(js, try)
			for _, v := range append(wrongKinds(), values()...) {
				try("document", []byte(v))
				try("document", []byte(" "+v+"\n"))
				c.Distinct("key", v)
			}
		})
	}
}

type saying struct {
	t     int64
	gk    []byte
	share map[party.ID][]byte
}

// readPublic is the reference reader of public data: what the document says, and whether it is
// consistent.
func readPublic(b []byte) (s saying, dup, ok bool) {
	m, dup, ok := look(b, "t", "groupkey", "shares")
	if !ok || dup {
		return s, dup, false
	}
	var ok1, ok2 bool
	s.t, ok1 = number(m["t"], 0, 65535)
	s.gk, ok2 = text(m["groupkey"])
	if !ok1 || !ok2 || !canonicalPoint(s.gk) || len(m["shares"]) == 0 || m["shares"][0] != '{' {
		return s, false, false
	}
	s.share = map[party.ID][]byte{}
	dec := json.NewDecoder(bytes.NewReader(m["shares"]))
	dec.Token()
	for dec.More() {
		k, err := dec.Token()
		if err != nil {
			return s, false, false
		}
		var v json.RawMessage
		if dec.Decode(&v) != nil {
			return s, false, false
		}
		id, err := strconv.ParseUint(k.(string), 10, 16)
		if err != nil || id == 0 {
			return s, false, false
		}
		p, ok := text(v)
		if !ok || !canonicalPoint(p) {
			return s, false, false
		}
		s.share[party.ID(id)] = p
	}
	if int64(len(s.share)) <= s.t || len(s.share) == 0 {
		return s, false, false
	}
	return s, false, consistent(s.gk, s.share)
}

// consistent reports whether the group key is the interpolation of the shares.
func consistent(gk []byte, share map[party.ID][]byte) bool {
	var ids []party.ID
	for id := range share {
		ids = append(ids, id)
	}
	var sum [][]byte
	for _, id := range ids {
		sum = append(sum, sim.MulEnc(ref.Lagrange(uint16(id), sim.U(ids)), share[id]))
	}
	return bytes.Equal(sim.AddEnc(sum...), gk)
}

func publicDamage(c *lib.Ctx) {
	docs := []struct {
		ids party.IDSlice
		t   int
	}{{party.IDSlice{1, 2}, 1}, {party.IDSlice{1, 2, 3}, 1}, {party.IDSlice{2, 10, 65535}, 2}, {party.IDSlice{1, 3, 5, 7}, 2}}
	for i, d := range docs {
		i, d := i, d
		k := sim.Deal(d.ids, d.t, fmt.Sprint("pd", i))
		js, err := json.Marshal(k.Public)
		if err != nil {
			panic(err)
		}
		seen := map[string]bool{}
		try := func(name string, b []byte) {
			if seen[string(b)] {
				return
			}
			seen[string(b)] = true
			s, dup, ok := readPublic(b)
			for _, into := range []*eddsa.Public{{}, sim.Deal([]party.ID{3, 4}, 1, "old").Public} {
				err := json.Unmarshal(b, into)
				if err != nil {
					c.Check(!ok || !strings.HasPrefix(name, "="), "public data %s (%s) is refused: %v", short(b), name, err)
					c.Note("refused", 1)
				} else if dup {
					sh := map[party.ID][]byte{}
					for id, e := range into.Shares {
						c.Check(id != 0 && e != nil, "public data %s (%s): share of %d", short(b), name, id)
						sh[id] = e.Bytes()
					}
					c.Check(consistent(mustBytes(into.GroupKey), sh) && int(into.Threshold) < len(sh) && len(into.PartyIDs) == len(sh), "public data %s (%s) is read inconsistently", short(b), name)
				} else {
					c.Check(ok, "public data %s (%s) is accepted as %s", short(b), name, sim.PublicKey(into))
					c.Check(int64(into.Threshold) == s.t && len(into.Shares) == len(s.share) && len(into.PartyIDs) == len(s.share), "public data %s (%s) is read as %s", short(b), name, sim.PublicKey(into))
					for j, id := range into.PartyIDs {
						c.Check(j == 0 || into.PartyIDs[j-1] < id, "public data %s (%s): party list %v", short(b), name, into.PartyIDs)
						c.Check(into.Shares[id] != nil && bytes.Equal(into.Shares[id].Bytes(), s.share[id]), "public data %s (%s): share of %d", short(b), name, id)
					}
					c.Check(into.GroupKey.Equal(eddsa.NewPublicKeyFromPoint(fromBytes(s.gk))), "public data %s (%s): group key", short(b), name)
					c.Note("accepted", 1)
				}
				c.Eval(1)
			}
		}
		var m map[string]json.RawMessage
		json.Unmarshal(js, &m)
		for part := 0; part < 8; part++ {
			part := part
			c.Case(fmt.Sprintf("damaged public data %d part %d", i, part), func() {
				seen = map[string]bool{}
				n := 0
				damage(js, func(name string, b []byte) {
					n++
					if n%8 == part {
						try(name, b)
					}
				})
			})
		}
		menu := append(wrongKinds(), values()...)
		// shares moved between parties, dropped, added, doubled
		var sh map[string]json.RawMessage
		json.Unmarshal(m["shares"], &sh)
		for part := 0; part < 4; part++ {
			part := part
			c.Case(fmt.Sprintf("altered public data %d part %d", i, part), func() {
				seen = map[string]bool{}
				n := 0
				fields(m, append(menu, sharesMenu(sh)...), func(name string, b []byte) {
					n++
					if n%4 == part {
						try(name, b)
						c.Distinct("pub", i, name)
					}
				})
			})
		}
	}
}

// sharesMenu returns values for the field "shares".
func sharesMenu(sh map[string]json.RawMessage) []string {
	var ks, out []string
	for k := range sh {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	build := func(kv ...string) string {
		var parts []string
		for i := 0; i < len(kv); i += 2 {
			parts = append(parts, fmt.Sprintf("%q:%s", kv[i], kv[i+1]))
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	full := func() (kv []string) {
		for _, k := range ks {
			kv = append(kv, k, string(sh[k]))
		}
		return
	}
	for i := range ks {
		kv := full()
		out = append(out, build(append(append([]string{}, kv[:2*i]...), kv[2*i+2:]...)...)) // dropped
		for _, id := range []string{"0", "", "-1", "+1", "65536", "65537", "131073", "x", "1.0", " 1", "01", "001", "00", "4", "65535", "1e1", "0x1"} {
			kv := full()
			kv[2*i] = id
			out = append(out, build(kv...))
			kv = append(full(), id, string(sh[ks[i]]))
			out = append(out, build(kv...))
			out = append(out, build(append([]string{id, string(sh[ks[(i+1)%len(ks)]])}, full()...)...))
		}
		for j := range ks {
			if j > i {
				kv := full()
				kv[2*i+1], kv[2*j+1] = kv[2*j+1], kv[2*i+1]
				out = append(out, build(kv...))
				kv = full()
				kv[2*i+1] = kv[2*j+1]
				out = append(out, build(kv...))
			}
		}
		for _, v := range append(wrongKinds(), values()...) {
			kv := full()
			kv[2*i+1] = v
			if json.Valid([]byte(build(kv...))) {
				out = append(out, build(kv...))
			}
		}
		out = append(out, build(append(full(), ks[i], b64(sim.BaseEnc(big.NewInt(5))))...))
		out = append(out, build(append(full(), ks[i], "null")...))
	}
	lib.Perms(len(ks), func(p []int) {
		var kv []string
		for _, i := range p {
			kv = append(kv, ks[i], string(sh[ks[i]]))
		}
		out = append(out, build(kv...))
	})
	return out
}

func short(b []byte) string {
	if len(b) > 1200 {
		return string(b[:1200]) + "..."
	}
	return string(b)
}

func mustBytes(k *eddsa.PublicKey) []byte {
	js, err := json.Marshal(k)
	b, ok := text(js)
	if err != nil || !ok {
		panic("a group key cannot be encoded")
	}
	return b
}

func fromBytes(b []byte) *ristretto.Element {
	var e ristretto.Element
	if _, err := e.SetCanonicalBytes(b); err != nil {
		panic(err)
	}
	return &e
}
