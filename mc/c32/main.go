//go:build go1.21

// C32: secrets do not leave the library.
package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/deep"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vclock"
)

func ids(v ...party.ID) []party.ID { return v }

const T = time.Second

func main() {
	lib.Run(lib.Config{
		ID: "C32", Level: "model_checking",
		Rule:        "sessions are driven through every order of messages, processing steps and timeout expiries, honest, with each faulty message, and with each stray or malformed message inserted at every position; stored keys and messages are read back with every truncation, byte change, omission and repetition; sessions are created with every kind of unusable argument. Everything that comes out - error texts and error objects, panic texts, what is written to standard output and standard error, every message sent, and every public output in all its encodings - is searched for any piece of any secret of the session (drawn scalars and raw randomness, key share, weighted share, polynomial evaluations, received shares, sums) in raw, hexadecimal, base64, decimal, quoted and list-of-bytes form. A share may be in the one message to the party it is for, and nowhere else",
		Bounds:      "2 to 4 parties, both protocols, one faulty or inserted message at any place; groups of 9 and 34 parties in systematic orders",
		Assumptions: []string{"pieces shorter than 8 raw bytes (14 characters, 20 in lists and quoted text) are not looked for", "files and network connections are not watched", "formatting a secret value itself (fmt of a SecretShare) is the caller's doing"},
	}, run)
}

func run(c *lib.Ctx) {
	kg := func(t int, v ...party.ID) *sim.World { return sim.KeygenWorld(v, t, fmt.Sprint("c32", v, t)) }
	sg := func(all []party.ID, t int, v ...party.ID) *sim.World {
		return sim.SignWorld(sim.Deal(all, t, "c32"), v, []byte("message"), fmt.Sprint("c32", v, t))
	}
	few := sg(ids(1, 2, 3), 2, 1, 3)
	few.NoRun()
	small := []*sim.World{kg(1, 1, 2), sg(ids(1, 2, 3), 1, 2, 3), few}
	mid := []*sim.World{kg(1, 1, 2, 3), kg(2, 3, 4, 65535), sg(ids(5, 6, 7, 8), 2, 5, 6, 8)}
	for _, w := range small {
		for _, id := range w.IDs {
			faults(c, w, id, 0)
			if w != few {
				strays(c, w, id, 2)
			}
		}
	}
	for _, w := range mid {
		for _, id := range w.IDs {
			objects(c, w, id)
			routine(c, w, id)
		}
		for _, id := range w.IDs {
			faults(c, w, id, c.Pick(4, 0))
			strays(c, w, id, 1)
		}
	}
	for _, w := range small[:2] {
		for _, id := range w.IDs {
			objects(c, w, id)
			routine(c, w, id)
		}
	}
	stored(c)
	incoming(c, mid)
	refused(c)
	for _, n := range []int{9, 34} {
		for _, t := range []int{1, n - 1} {
			big1(c, n, t)
		}
	}
	if !c.Quick() {
		for _, w := range []*sim.World{kg(2, 1, 2, 3, 4), sg(ids(5, 6, 7, 8), 3, 5, 6, 7, 8)} {
			faults(c, w, w.IDs[2], 2)
		}
	}
}

// ---- what comes out, and what must not

// watch collects, during a case, everything that came out and all secrets there were.
type watch struct {
	c     *lib.Ctx
	name  string
	out   map[string]string // what came out -> when
	errs  []error
	sc    map[string]*big.Int
	raw   map[string][]byte
	f     *os.File
	saved [2]int
	pos   int64
}

func listen(c *lib.Ctx, name string) *watch {
	wa := &watch{c: c, name: name, out: map[string]string{}, sc: map[string]*big.Int{}, raw: map[string][]byte{}}
	f, err := os.CreateTemp("", "c32")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	wa.f = f
	for i := range wa.saved {
		if os.Getenv("C32_LOUD") != "" {
			break
		}
		if wa.saved[i], err = syscall.Dup(i + 1); err == nil {
			err = syscall.Dup3(int(f.Fd()), i+1, 0)
		}
		if err != nil {
			panic(err)
		}
	}
	return wa
}

func (wa *watch) restore() {
	for i, fd := range wa.saved {
		if fd > 0 {
			syscall.Dup3(fd, i+1, 0)
			syscall.Close(fd)
			wa.saved[i] = 0
		}
	}
}

// printed takes what was written to standard output or error since the last call.
func (wa *watch) printed(when string) {
	end, err := wa.f.Seek(0, 1)
	if err != nil {
		panic(err)
	}
	if end == wa.pos {
		return
	}
	b := make([]byte, end-wa.pos)
	wa.f.ReadAt(b, wa.pos)
	wa.pos = end
	wa.text(string(b), "printed "+when)
}

func (wa *watch) text(s, when string) {
	if s == "" {
		return
	}
	if _, ok := wa.out[s]; !ok {
		wa.out[s] = when
	}
}

// err takes an error in all the ways it can be shown.
func (wa *watch) err(err error, when string) {
	if err == nil {
		return
	}
	known := true
	for e := err; e != nil; e = errors.Unwrap(e) {
		if _, ok := wa.out[e.Error()]; !ok {
			known = false
		}
		wa.text(e.Error(), "error "+when)
		wa.text(fmt.Sprintf("%+v", e), "error (%+v) "+when)
	}
	if !known {
		wa.errs = append(wa.errs, err)
	}
}

func (wa *watch) message(b []byte, sc map[string]*big.Int, when string) {
	if sim.Typ(b) == sim.K2 {
		if x := sc[fmt.Sprintf("polynomial evaluated at %d", sim.To(b))]; x != nil && string(b[5:]) == string(ref.LE(x)) {
			b = b[:5]
		}
	}
	wa.text(string(b), fmt.Sprintf("message kind %d from %d to %d %s", sim.Typ(b), sim.From(b), sim.To(b), when))
}

func (wa *watch) secrets(w *sim.World, s *sim.Sess, m *sim.Model) map[string]*big.Int {
	sc, raw := sim.SecretScalars(w, s, m)
	for n, x := range sc {
		wa.secret(n, x)
	}
	for n, x := range raw {
		wa.raw[n] = x
	}
	return sc
}

func (wa *watch) secret(n string, x *big.Int) {
	if x.BitLen() > 200 {
		wa.sc[n+"/"+x.String()[:12]] = x
	}
}

type form struct {
	name string
	s    string
	l    int
}

func forms(b []byte) []form {
	var out []form
	add := func(name, s string, l int) { out = append(out, form{name, s, l}) }
	add("raw", string(b), 8)
	add("hexadecimal", hex.EncodeToString(b), 14)
	add("upper hexadecimal", strings.ToUpper(hex.EncodeToString(b)), 14)
	add("spaced hexadecimal", fmt.Sprintf("% x", b), 20)
	for k := 0; k < 3; k++ {
		p := append(make([]byte, k), b...)
		cut := []int{0, 2, 3}[k]
		add("base64", strings.TrimRight(base64.StdEncoding.EncodeToString(p), "=")[cut:], 14)
		add("base64 (url)", strings.TrimRight(base64.URLEncoding.EncodeToString(p), "=")[cut:], 14)
	}
	v := fmt.Sprint(b)
	add("list", v[1:len(v)-1], 20)
	add("list (commas)", strings.ReplaceAll(v[1:len(v)-1], " ", ","), 20)
	add("list (commas and spaces)", strings.ReplaceAll(v[1:len(v)-1], " ", ", "), 20)
	g := fmt.Sprintf("%#v", b)
	add("list (Go)", g[strings.Index(g, "{")+1:len(g)-1], 20)
	q := strconv.Quote(string(b))
	add("quoted", q[1:len(q)-1], 20)
	return out
}

// done ends the case: nothing that came out contains a piece of a secret.
func (wa *watch) done() {
	wa.printed("at the end")
	wa.restore()
	wa.f.Close()
	idx := map[int]map[string]string{}
	add := func(name string, f form) {
		if idx[f.l] == nil {
			idx[f.l] = map[string]string{}
		}
		for i := 0; i+f.l <= len(f.s); i++ {
			win := f.s[i : i+f.l]
			var seen [256]bool
			n := 0
			for k := 0; k < len(win); k++ {
				if !seen[win[k]] {
					seen[win[k]] = true
					n++
				}
			}
			if n >= 5 {
				idx[f.l][win] = name + " (" + f.name + ")"
			}
		}
	}
	pats := map[string][]byte{}
	for n, x := range wa.sc {
		le := ref.LE(x)
		be := make([]byte, len(le))
		for i := range be {
			be[len(be)-1-i] = le[i]
		}
		pats[n] = le
		pats[n+" (big endian)"] = be
		for _, f := range forms(le) {
			add(n, f)
		}
		for _, f := range forms(be) {
			add(n+" big endian", f)
		}
		neg := ref.LE(ref.Sub(big.NewInt(0), x))
		add(n+" negated", form{"raw", string(neg), 8})
		add(n+" negated", form{"hexadecimal", hex.EncodeToString(neg), 14})
		add(n, form{"decimal", x.String(), 14})
		add(n, form{"as printed", strings.Trim(fmt.Sprint(*sim.Sc(x)), "{}[]"), 20})
	}
	for n, b := range wa.raw {
		pats[n] = b
		for _, f := range forms(b) {
			add(n, f)
		}
	}
	var texts []string
	for s := range wa.out {
		texts = append(texts, s)
	}
	sort.Strings(texts)
	for _, s := range texts {
		for l, wins := range idx {
			for i := 0; i+l <= len(s); i++ {
				if n, ok := wins[s[i:i+l]]; ok {
					wa.c.Failf("%s: a piece of a secret comes out: %s: %q contains part of %s", wa.name, wa.out[s], clip(s), n)
				}
			}
		}
		wa.c.Distinct(wa.name, s)
	}
	for _, err := range wa.errs {
		if found := deep.Find(err, pats); len(found) > 0 {
			sort.Strings(found)
			wa.c.Failf("%s: the error object %q holds secrets: %s", wa.name, err, strings.Join(found, "; "))
		}
	}
	wa.c.Eval(len(texts) * (len(wa.sc) + len(wa.raw)))
	wa.c.Note("different things that came out", len(texts))
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// when runs a case with everything captured.
func when(c *lib.Ctx, key string, f func(wa *watch)) {
	c.Case(key, func() {
		wa := listen(c, key)
		defer wa.restore()
		f(wa)
		wa.done()
	})
}

// ---- sessions

func (wa *watch) explore(w *sim.World, e *sim.Explorer) {
	sc := map[string]*big.Int{}
	e.OnErr = func(err error, h []sim.Event) { wa.err(err, "of the last message after "+e.Show(h)) }
	e.Each = func(s *sim.Sess, m *sim.Model, h []sim.Event) {
		wa.printed("after " + e.Show(h))
		if err := s.St.Err(); err != nil {
			wa.err(err, "after "+e.Show(h))
		}
	}
	e.Leaf = func(s *sim.Sess, m *sim.Model, h []sim.Event) {
		for n, x := range wa.secrets(w, s, m) {
			sc[n] = x
		}
		wa.err(s.St.WaitForError(), "of the session after "+e.Show(h))
		wa.outputs(w, s, m, e.Show(h))
		for _, step := range m.Emit {
			for _, b := range step {
				wa.message(b, sc, "after "+e.Show(h))
			}
		}
		wa.printed("after " + e.Show(h))
	}
	e.Run()
}

// outputs takes the public outputs of a session, as objects and encoded.
func (wa *watch) outputs(w *sim.World, s *sim.Sess, m *sim.Model, when string) {
	var objs []interface{}
	if s.KG != nil && s.KG.Public != nil {
		p := s.KG.Public
		objs = append(objs, p)
		b, err := json.Marshal(p)
		wa.err(err, when)
		wa.text(string(b), "public data (JSON) after "+when)
		wa.text(fmt.Sprintf("%v %+v", *p, *p), "public data (printed) after "+when)
		wa.text(string(p.GroupKey.ToEd25519()), "group key after "+when)
		for id, e := range p.Shares {
			wa.text(string(e.Bytes()), fmt.Sprintf("public share of %d after %s", id, when))
		}
	}
	if s.SG != nil && s.SG.Signature != nil {
		x := s.SG.Signature
		objs = append(objs, x)
		b, err := x.MarshalBinary()
		wa.err(err, when)
		wa.text(string(b), "signature (binary) after "+when)
		wa.text(string(x.ToEd25519()), "signature after "+when)
		wa.text(fmt.Sprintf("%v %+v", *x, *x), "signature (printed) after "+when)
	}
	pats := sim.Secrets(w, s, m)
	for _, o := range objs {
		if found := deep.Find(o, pats); len(found) > 0 {
			sort.Strings(found)
			wa.c.Failf("%s: after %s the public output holds secrets: %s", wa.name, when, strings.Join(found, "; "))
		}
	}
}

func faults(c *lib.Ctx, w *sim.World, id party.ID, pick int) {
	const parts = 8
	for part := 0; part < parts; part++ {
		part := part
		when(c, fmt.Sprintf("faults/%s/party %d/part %d", w.Name, id, part), func(wa *watch) {
			n := 0
			do := func(x sim.Combo) {
				n++
				if n%parts != part || c.Expired() {
					return
				}
				wa.explore(w, &sim.Explorer{C: c, P: w.Proto(id, T), Menu: x.Menu, Advances: []int64{int64(T)}, MaxTime: int64(T)})
			}
			do(sim.Combo{Name: "honest", Menu: w.Honest(id)})
			w.Combos(id, 1, pick, do)
		})
	}
}

func strays(c *lib.Ctx, w *sim.World, id party.ID, steps int) {
	all := append(w.Strays(id), w.Malformed(id)...)
	for k := range all {
		k := k
		when(c, fmt.Sprintf("strays/%s/party %d/%s", w.Name, id, all[k].Name), func(wa *watch) {
			menu := append(w.Honest(id), all[k])
			if all[k].Type == sim.K2 && len(all[k].B) == 37 {
				if ref.FromLE(all[k].B[5:]).BitLen() < 200 { // a made-up share
					menu[len(menu)-1].B = sim.MakeK2(all[k].From, all[k].To, sim.RandScalar("made up"))
				}
				all[k] = menu[len(menu)-1]
				wa.secret("share in "+all[k].Name, ref.FromLE(all[k].B[5:]))
			}
			wa.explore(w, &sim.Explorer{C: c, P: w.Proto(id, T), Menu: menu, Budget: 1, Repeats: 1,
				Advances: []int64{int64(T)}, MaxTime: int64(T), AfterEnd: steps})
		})
	}
}

// objects looks at the message objects a session returns, which the caller may pass on, print or
// encode as it likes.
func objects(c *lib.Ctx, w *sim.World, id party.ID) {
	when(c, fmt.Sprintf("objects/%s/party %d", w.Name, id), func(wa *watch) {
		vclock.Reset()
		p := w.Proto(id, 0)
		s, m := p.New(), sim.NewModel(p)
		var msgs []*messages.Message
		h := w.Honest(id)
		for step := 0; step < 3; step++ {
			for k := range h {
				if h[k].Type == p.Types()[1] != (step == 2) || step == 0 {
					continue
				}
				c.Check(s.Handle(h[k].B) == nil, "honest message refused")
				m.Handle(&h[k])
			}
			msgs = append(msgs, s.ProcessMsgs()...)
			m.Process()
			c.Trans(1)
		}
		c.Check(m.Done && !m.Err, "the honest run does not end well")
		sc := wa.secrets(w, s, m)
		c.Check(len(sc) > 1, "no secrets known")
		for _, x := range msgs {
			pats := sim.Secrets(w, s, m)
			b, err := x.MarshalBinary()
			wa.err(err, "encoding a message")
			if x.Type == messages.MessageTypeKeyGen2 {
				// the share itself may be in it
				for n := range pats {
					if strings.HasPrefix(n, fmt.Sprintf("polynomial evaluated at %d", x.To)) {
						delete(pats, n)
					}
				}
			} else {
				wa.text(fmt.Sprintf("%v %+v", *x, *x), "printed message")
				for _, part := range []interface{}{x.KeyGen1, x.Sign1, x.Sign2} {
					wa.text(fmt.Sprintf("%v %+v", part, part), "printed message")
				}
			}
			wa.message(b, sc, "sent")
			if found := deep.Find(x, pats); len(found) > 0 {
				sort.Strings(found)
				c.Failf("the message object of type %d from %d to %d holds secrets: %s", x.Type, x.From, x.To, strings.Join(found, "; "))
			}
			c.State(1)
		}
		wa.outputs(w, s, m, "the honest run")
		c.Trace(1)
	})
}

// routine drives sessions with helpers.PartyRoutine.
func routine(c *lib.Ctx, w *sim.World, id party.ID) {
	when(c, fmt.Sprintf("routine/%s/party %d", w.Name, id), func(wa *watch) {
		p := w.Proto(id, 0)
		one := func(x sim.Combo, broken int) {
			vclock.Reset()
			s, m := p.New(), sim.NewModel(p)
			for step := 0; step < 3; step++ {
				var in [][]byte
				for k := range x.Menu {
					y := &x.Menu[k]
					if step == 0 || y.B == nil || y.Type == p.Types()[1] != (step == 2) {
						continue
					}
					b := append([]byte(nil), y.B...)
					if k == broken {
						b = b[:len(b)-1]
					}
					in = append(in, b)
					if y.Type == sim.K2 && len(y.B) == 37 {
						wa.secret("share in "+y.Name, ref.FromLE(y.B[5:]))
					}
				}
				rnd.Use(s.Rnd)
				out, err := helpers.PartyRoutine(in, s.St)
				rnd.Use(nil)
				sc := wa.secrets(w, s, m)
				wa.err(err, "of PartyRoutine with "+x.Name)
				for _, b := range out {
					wa.message(b, sc, "with "+x.Name)
				}
				wa.printed("with " + x.Name)
				c.Trans(1)
			}
			c.Trace(1)
			c.State(3)
		}
		w.Combos(id, 1, 0, func(x sim.Combo) { one(x, -1) })
		honest := w.Honest(id)
		for k := range honest {
			one(sim.Combo{Name: "honest", Menu: honest}, k)
		}
		for _, x := range w.Strays(id) {
			one(sim.Combo{Name: x.Name, Menu: append(w.Honest(id), x)}, -1)
		}
	})
}

// ---- stored keys and messages

// damage yields the damaged forms of an encoding.
func damage(b []byte, with []byte, f func(d []byte, how string)) {
	for i := range b {
		f(append([]byte(nil), b[:i]...), fmt.Sprintf("cut at %d", i))
		f(append([]byte(nil), b[i+1:]...), fmt.Sprintf("without the first %d", i+1))
		f(append(append([]byte(nil), b[:i]...), b[i+1:]...), fmt.Sprintf("without byte %d", i))
		f(append(append([]byte(nil), b[:i+1]...), b[i:]...), fmt.Sprintf("byte %d doubled", i))
		for _, x := range with {
			if x != b[i] {
				d := append([]byte(nil), b...)
				d[i] = x
				f(d, fmt.Sprintf("byte %d = %q", i, x))
			}
		}
	}
	f(append(append([]byte(nil), b...), 'x'), "with a byte more")
	f(append(append([]byte(nil), b...), b...), "twice")
}

func stored(c *lib.Ctx) {
	for _, label := range []string{"a", "b", "c"} {
		for _, id := range ids(1, 300, 65535) {
			label, id := label, id
			when(c, fmt.Sprintf("stored/%s/%d", label, id), func(wa *watch) {
				x := sim.RandScalar("c32 stored " + label)
				wa.secret("key share", x)
				sk := eddsa.NewSecretShare(id, sim.Sc(x))
				read := func(how string, f func() error) {
					p := lib.Catch(func() { wa.err(f(), how) })
					if p != nil {
						wa.text(fmt.Sprint(p), "panic "+how)
					}
					wa.printed(how)
					c.Trace(1)
					c.State(1)
					c.Trans(1)
				}
				bin, err := sk.MarshalBinary()
				c.Check(err == nil, "cannot be encoded: %v", err)
				js, err := json.Marshal(sk)
				c.Check(err == nil, "cannot be encoded: %v", err)
				damage(bin, []byte{0, 1, 0x10, 0x1f, 0x7f, 0x80, 0xff, '{'}, func(d []byte, how string) {
					read("reading a binary share "+how, func() error { return new(eddsa.SecretShare).UnmarshalBinary(d) })
					read("reading a binary share as JSON "+how, func() error { return json.Unmarshal(d, new(eddsa.SecretShare)) })
				})
				damage(js, []byte{0, '"', '\\', '{', '}', '[', ',', ':', '=', '0', '9', 'A', '-', '.', ' ', 0xff}, func(d []byte, how string) {
					read("reading a share as JSON "+how, func() error { return json.Unmarshal(d, new(eddsa.SecretShare)) })
					read("reading a share directly as JSON "+how, func() error { return new(eddsa.SecretShare).UnmarshalJSON(d) })
					read("reading a JSON share as binary "+how, func() error { return new(eddsa.SecretShare).UnmarshalBinary(d) })
					read("reading a share as public data "+how, func() error { return json.Unmarshal(d, new(eddsa.Public)) })
				})
				le := ref.LE(x)
				b64 := base64.StdEncoding.EncodeToString(le)
				for _, s := range []string{
					`{"id":%d,"secret":"` + hex.EncodeToString(le) + `"}`,
					`{"id":%d,"secret":"` + b64[:43] + `"}`,
					`{"id":%d,"secret":"` + b64[:40] + `"}`,
					`{"id":%d,"secret":"` + base64.StdEncoding.EncodeToString(le[:31]) + `"}`,
					`{"id":%d,"secret":"` + base64.StdEncoding.EncodeToString(append(append([]byte{}, le...), 0)) + `"}`,
					`{"id":%d,"secret":"` + base64.StdEncoding.EncodeToString(append(append([]byte{}, le[:31]...), 0x9f)) + `"}`,
					`{"id":0,"secret":"` + b64 + `"}`, `{"id":-%d,"secret":"` + b64 + `"}`,
					`{"id":70000,"secret":"` + b64 + `"}`, `{"secret":"` + b64 + `"}`,
					`{"id":null,"secret":"` + b64 + `"}`, `{"id":"%d","secret":"` + b64 + `"}`,
					`{"id":%d.5,"secret":"` + b64 + `"}`, `{"id":%d,"secret":["` + b64 + `"]}`,
					`{"id":%d,"secret":{"x":"` + b64 + `"}}`, `["` + b64 + `"]`, `"` + b64 + `"`,
					`{"id":%d,"secret":"` + b64 + `","secret":1}`, `{"id":%d,"secret":"` + b64 + `"} x`,
				} {
					if strings.Contains(s, "%d") {
						s = fmt.Sprintf(s, id)
					}
					read("reading "+s[:10], func() error { return json.Unmarshal([]byte(s), new(eddsa.SecretShare)) })
					read("reading "+s[:10], func() error { return new(eddsa.SecretShare).UnmarshalJSON([]byte(s)) })
				}
				for n := 0; n < 70; n++ {
					d := append(append([]byte{}, le...), append(le, le...)...)[:n]
					read(fmt.Sprintf("reading %d bytes as scalar", n), func() error {
						_, err := ristretto.NewScalar().SetCanonicalBytes(d)
						return err
					})
				}
				d := append([]byte{}, le...)
				d[31] |= 0x80
				read("reading a number too large", func() error { _, err := ristretto.NewScalar().SetCanonicalBytes(d); return err })
			})
		}
	}
}

// incoming reads damaged private messages.
func incoming(c *lib.Ctx, ws []*sim.World) {
	for _, w := range ws {
		if !w.Keygen {
			continue
		}
		w := w
		for _, j := range w.IDs {
			for _, i := range w.IDs {
				i, j := i, j
				if i == j {
					continue
				}
				when(c, fmt.Sprintf("incoming/%s/%d to %d", w.Name, j, i), func(wa *watch) {
					b := w.Second(j, i)
					wa.secret("share", ref.FromLE(b[5:]))
					p := w.Proto(i, 0)
					n := 0
					damage(b, []byte{0, 1, 2, 3, 4, 5, 0x7f, 0xff}, func(d []byte, how string) {
						n++
						m, err := sim.Decode(d)
						wa.err(err, how)
						wa.err(new(messages.KeyGen2).UnmarshalBinary(d), how)
						if len(d) > 5 {
							wa.err(new(messages.KeyGen2).UnmarshalBinary(d[5:]), how)
						}
						if err == nil {
							vclock.Reset()
							s := p.New()
							wa.err(s.St.HandleMessage(m), how)
							s.Process()
							wa.err(s.St.HandleMessage(m), how+" after the first step")
							wa.err(s.St.Err(), how)
						}
						wa.printed(how)
						c.Trace(1)
						c.State(1)
						c.Trans(1)
					})
				})
			}
		}
	}
}

// refused creates sessions from arguments that cannot be used.
func refused(c *lib.Ctx) {
	k := sim.Deal(ids(1, 2, 3, 4), 2, "c32 refused")
	other := sim.Deal(ids(1, 2, 3, 4), 2, "c32 refused other")
	shares := map[string]*eddsa.SecretShare{"its share": k.Secret[1], "share of 2": k.Secret[2], "foreign share": other.Secret[1],
		"share with another number": eddsa.NewSecretShare(3, sim.Sc(k.Share[1])), "share of nobody": eddsa.NewSecretShare(9, sim.Sc(k.Share[1])),
		"share without number": eddsa.NewSecretShare(0, sim.Sc(k.Share[1])), "no share": nil,
		"share with a wrong public part": {ID: 1, Secret: *sim.Sc(k.Share[1]), Public: k.Secret[2].Public},
		"share without public part":      {ID: 1, Secret: *sim.Sc(k.Share[1])}}
	less := *k.Public
	less.Shares = map[party.ID]*ristretto.Element{1: k.Public.Shares[1], 2: k.Public.Shares[2]}
	holes := *k.Public
	holes.Shares = map[party.ID]*ristretto.Element{1: k.Public.Shares[1], 2: nil, 3: k.Public.Shares[3]}
	bare := eddsa.Public{PartyIDs: k.Public.PartyIDs, Threshold: 2}
	pubs := map[string]*eddsa.Public{"its public data": k.Public, "foreign public data": other.Public, "too few shares": &less, "missing share": &holes, "no shares": &bare, "no public data": nil}
	signers := []party.IDSlice{nil, {1}, {2}, {1, 2}, {2, 1}, {1, 1}, {0, 1}, {1, 2, 3}, {2, 3, 4}, {1, 2, 3, 4}, {1, 2, 9}, {1, 3, 2}, {1, 2, 2, 3}}
	for _, sn := range sorted(shares) {
		sn := sn
		when(c, "refused/"+sn, func(wa *watch) {
			for _, x := range k.Share {
				wa.secret("key share", x)
			}
			for _, x := range other.Share {
				wa.secret("foreign key share", x)
			}
			for _, pn := range []string{"its public data", "foreign public data", "too few shares", "missing share", "no shares", "no public data"} {
				for _, set := range signers {
					how := fmt.Sprintf("creating a session with %s, %s, %v", sn, pn, set)
					r := rnd.New(how)
					p := lib.Catch(func() {
						vclock.Reset()
						rnd.Use(r)
						st, _, err := frost.NewSignState(set.Copy(), shares[sn], pubs[pn], []byte("m"), 0)
						wa.err(err, how)
						if err == nil {
							st.ProcessAll()
							wa.err(st.Err(), how)
						}
					})
					rnd.Use(nil)
					if p != nil {
						wa.text(fmt.Sprint(p), "panic "+how)
					}
					wa.printed(how)
					for o := 0; o+64 <= len(r.Out); o += 64 {
						wa.secret("drawn scalar", ref.Wide(r.Out[o:o+64]))
					}
					c.Trace(1)
					c.State(1)
					c.Trans(1)
				}
			}
		})
	}
	when(c, "refused/keygen", func(wa *watch) {
		for self := party.ID(0); self < 5; self++ {
			for _, set := range signers {
				for _, t := range []party.Size{0, 1, 2, 3, 65535} {
					how := fmt.Sprintf("creating a key generation of %d among %v, threshold %d", self, set, t)
					r := rnd.New(how)
					rnd.Use(r)
					p := lib.Catch(func() {
						vclock.Reset()
						st, _, err := frost.NewKeygenState(self, set.Copy(), t, 0)
						wa.err(err, how)
						if err == nil {
							st.ProcessAll()
						}
					})
					rnd.Use(nil)
					if p != nil {
						wa.text(fmt.Sprint(p), "panic "+how)
					}
					wa.printed(how)
					for o := 0; o+64 <= len(r.Out); o += 64 {
						wa.secret("drawn scalar", ref.Wide(r.Out[o:o+64]))
					}
					c.Trace(1)
					c.State(1)
					c.Trans(1)
				}
			}
		}
	})
}

func sorted(m map[string]*eddsa.SecretShare) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// big1 takes groups of n parties through all ways of ending, in the systematic orders.
func big1(c *lib.Ctx, n, t int) {
	for _, keygen := range []bool{true, false} {
		keygen := keygen
		when(c, fmt.Sprintf("big/%d parties t=%d keygen %v", n, t, keygen), func(wa *watch) {
			w, i := sim.BigWorld(keygen, n, t, n/2, "c32 big")
			h := w.Honest(i)
			for k := range h {
				h[k].After = 0
			}
			do := func(menu []sim.Msg, hist []sim.Event) {
				e := &sim.Explorer{C: c, P: w.Proto(i, T), Menu: menu}
				e.OnErr = func(err error, h []sim.Event) { wa.err(err, "of a message") }
				s, m := e.Replay(hist)
				sc := wa.secrets(w, s, m)
				wa.err(s.St.Err(), "of the session")
				if m.Done {
					wa.outputs(w, s, m, "the run")
				}
				for _, step := range m.Emit {
					for _, b := range step {
						wa.message(b, sc, "sent")
					}
				}
				wa.printed("during a run")
				c.Trans(len(hist))
				c.Trace(1)
				c.State(len(hist))
			}
			for _, o := range []sim.Order{sim.Orders(n - 1)[0], sim.Orders(n - 1)[3]} {
				do(h, o.Deliver(false, nil))
				do(h, append(o.Deliver(true, nil)[:n], sim.Event{Kind: 'p'}, sim.Event{Kind: 't', D: int64(T)}))
				for _, x := range []int{0, n - 2} {
					j := h[x].From
					for _, f := range []sim.Msg{w.FaultyFirst(j)[0], sim.Enc("wrong", w.WrongSecond(j, i, 1))} {
						menu := append([]sim.Msg{}, h...)
						for k := range menu {
							if menu[k].From == j && menu[k].Type == f.Type {
								menu[k] = f
							}
						}
						do(menu, o.Deliver(false, nil))
					}
				}
			}
		})
	}
}
