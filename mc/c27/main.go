//go:build go1.21

// C27: sessions hold bounded memory and leave nothing behind.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C27", Level: "exploration",
		Rule:        "floods: in every state of a session (every subset of the genuine messages of both rounds, started or not, and every kind of ending) every class of message (from each participant, the party itself, nobody, ever different outsiders; to everybody, the party itself, others; of every kind, with ever different or no contents), with and without processing calls in between, is delivered thousands of times as separate objects, and the live heap measured after garbage collection must not have grown by more than a constant (growth is confirmed with four times as many). Decoding: for every kind of message and stored form, every value of the size-declaring bytes in turn, every truncation and extension: bytes allocated against length of the input. Endings: sessions brought to every kind of end, and refused configurations, all with a timeout of hours, hundreds of times, then let go of: live heap and number of goroutines have to return. Operations without state (verification, encoding, arithmetic, validation) repeated on ever different inputs: live heap",
		Bounds:      "2 to 4 parties, both protocols, all states; groups of 40 and 200 in chosen states; 500 deliveries per class of message (thorough 4000), doubled twice to confirm; growth up to 16 kB plus 400 bytes per participant is tolerated; 200 bytes per input byte plus 24 kB may be allocated in decoding; 300 sessions per ending (thorough 2000)",
		Assumptions: []string{"memory is what the garbage collector of the Go runtime reports as live"},
	}, run)
}

const hours = 10 * time.Hour

func run(c *lib.Ctx) {
	kg := func(t int, v ...party.ID) *sim.World { return sim.KeygenWorld(v, t, fmt.Sprint("c27", v, t)) }
	sg := func(all []party.ID, t int, v ...party.ID) *sim.World {
		return sim.SignWorld(sim.Deal(all, t, "c27"), v, []byte("message"), fmt.Sprint("c27", v, t))
	}
	ws := []*sim.World{
		kg(1, 1, 2), kg(1, 1, 2, 3), sg([]party.ID{1, 2, 3}, 1, 1, 3), sg([]party.ID{5, 6, 7, 65535}, 2, 5, 7, 65535),
	}
	if !c.Quick() {
		ws = append(ws, kg(2, 1, 2, 3, 4), sg([]party.ID{1, 2, 3, 4}, 3, 1, 2, 3, 4))
	}
	for _, w := range ws {
		floods(c, w, w.IDs[len(w.IDs)/2], 1<<30)
	}
	for _, n := range []int{40, 200} {
		for _, k := range []bool{true, false} {
			w, i := sim.BigWorld(k, n, 2, n/2, "c27 big")
			floods(c, w, i, 6)
		}
	}
	decoding(c)
	endings(c)
	stateless(c)
}

// live returns the bytes of the live heap.
func live() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// grows makes an object, does n things with it and measures by how much the live heap has grown; beyond the
// limit it measures again with more, to tell a leak from a buffer of fixed size.
func grows(mk func() interface{}, do func(x interface{}, n int), n int, limit int64) (int64, int, bool) {
	for try := 0; ; try++ {
		x := mk()
		before := live()
		do(x, n)
		got := live() - before
		runtime.KeepAlive(x)
		if got < limit {
			return got, n, false
		}
		if try == 2 {
			return got, n, true
		}
		n *= 2
	}
}

// state of a session to be flooded
type place struct {
	name string
	make func() *sim.Sess
}

func places(w *sim.World, i party.ID, max int) []place {
	h := w.Honest(i)
	p := w.Proto(i, hours)
	var out []place
	add := func(name string, do func(s *sim.Sess)) {
		out = append(out, place{name, func() *sim.Sess { s := p.New(); do(s); return s }})
	}
	add("fresh", func(s *sim.Sess) {})
	some := func(k int, pick func(x int) bool) {
		var name []string
		for x := range h {
			if pick(x) {
				name = append(name, fmt.Sprint(x))
			}
		}
		nm := strings.Join(name, ",")
		if len(nm) > 30 {
			nm = fmt.Sprint(len(name), " messages")
		}
		add(fmt.Sprintf("started, %s received, processed %d", nm, k), func(s *sim.Sess) {
			s.Process()
			for x := range h {
				if pick(x) {
					must(s.Handle(h[x].B))
				}
			}
			if k > 0 {
				s.Process()
			}
		})
	}
	if len(h) <= 6 {
		for mask := 0; mask < 1<<len(h); mask++ {
			for k := 0; k < 2; k++ {
				mask := mask
				some(k, func(x int) bool { return mask>>x&1 == 1 })
			}
		}
		for x := 0; x < len(h)/2; x++ { // before the start
			x := x
			add(fmt.Sprintf("not started, %d received", x), func(s *sim.Sess) { must(s.Handle(h[x].B)) })
		}
	} else {
		half := len(h) / 2
		some(0, func(x int) bool { return x < half-1 })
		some(0, func(x int) bool { return x > 0 })
		some(1, func(x int) bool { return x < half })
		some(1, func(x int) bool { return x != len(h)-1 })
		some(1, func(x int) bool { return true })
	}
	// aborted ones
	j := p.Others()[0]
	for k, b := range [][]byte{w.FaultyFirst(j)[0].B, w.WrongSecond(j, i, 1)} {
		b, name := b, []string{"first", "second"}[k]
		add("aborted by a faulty "+name+" message", func(s *sim.Sess) {
			s.Process()
			for _, x := range h {
				if x.From == j && x.Type == sim.Typ(b) {
					must(s.Handle(b))
				} else if x.Type == h[0].Type || sim.Typ(b) != h[0].Type {
					must(s.Handle(x.B))
				}
			}
			s.Process()
			if !s.St.IsFinished() {
				panic("not aborted")
			}
		})
		if max < 100 {
			break
		}
	}
	if len(out) > max {
		out = out[:max]
	}
	return out
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// contents makes messages of kind t with ever different contents.
func contents(w *sim.World, n int) map[int][]*messages.Message {
	out := map[int][]*messages.Message{}
	var pts [][]byte
	for k := 1; k <= 24; k++ {
		pts = append(pts, sim.BaseEnc(big.NewInt(int64(k))))
	}
	coms := [][]byte{}
	for k := 0; k <= w.T; k++ {
		coms = append(coms, pts[k%24])
	}
	for k := 0; k < n; k++ {
		x := big.NewInt(int64(k + 2))
		for _, b := range [][]byte{
			sim.K1Bytes(1, x, ref.Int(77), coms), sim.MakeK2(1, 2, x),
			sim.MakeS1(1, pts[k%24], pts[k/24%24]), sim.MakeS2(1, x)} {
			if sim.Typ(b) == sim.K1 && k >= 64 {
				continue // costly to make; the others are enough to differ in
			}
			m, err := sim.Decode(b)
			must(err)
			out[sim.Typ(b)] = append(out[sim.Typ(b)], m)
		}
	}
	return out
}

func floods(c *lib.Ctx, w *sim.World, i party.ID, max int) {
	N := c.Pick(500, 4000)
	member := map[party.ID]bool{}
	for _, id := range w.IDs {
		member[id] = true
	}
	var outside []party.ID
	for id := party.ID(65535); len(outside) < 20000; id-- {
		if !member[id] {
			outside = append(outside, id)
		}
	}
	p := w.Proto(i, hours)
	others := p.Others()
	if len(others) > 3 {
		others = []party.ID{others[0], others[len(others)-1]}
	}
	type who struct {
		name string
		id   func(k int) party.ID
	}
	one := func(name string, id party.ID) who { return who{name, func(int) party.ID { return id }} }
	from := []who{one("itself", i), one("nobody", 0),
		{"different outsiders", func(k int) party.ID { return outside[k%len(outside)] }},
		{"anybody", func(k int) party.ID { return party.ID(k) }}}
	for _, j := range others {
		from = append(from, one(fmt.Sprint("party ", j), j))
	}
	to := []who{one("all", 0), one("the party", i), {"others", func(k int) party.ID { return outside[k%len(outside)] }}}
	var data map[int][]*messages.Message
	for _, pl := range places(w, i, max) {
		pl := pl
		c.Case(fmt.Sprintf("flood/%s/party %d/%s", w.Name, i, pl.name), func() {
			if data == nil {
				data = contents(w, 576)
			}
			limit := int64(16<<10 + 400*len(w.IDs))
			mk := func() interface{} { return pl.make() }
			if got, n, bad := grows(mk, func(x interface{}, n int) {
				for k := 0; k < n; k++ {
					x.(*sim.Sess).ProcessMsgs()
				}
			}, 21*N, limit); bad {
				c.Failf("%s, party %d, %s: %d processing calls make the session grow by %d bytes", w.Name, i, pl.name, n, got)
			}
			for _, f := range from {
				for _, proc := range []bool{false, true} {
					if c.Expired() {
						c.Cap("floods")
						return
					}
					got, n, bad := grows(mk, func(x interface{}, n int) {
						s := x.(*sim.Sess)
						for k := 0; k < n; k++ {
							typ, t, v := k%7, to[k/7%3], k/21
							m := &messages.Message{}
							if d := data[typ]; d != nil {
								*m = *d[v%len(d)]
							}
							m.Type = messages.MessageType(typ)
							if typ == 6 {
								m.Type = messages.MessageType(5 + v%251)
							}
							m.From, m.To = f.id(v), t.id(v)
							_ = s.St.HandleMessage(m)
							if proc {
								s.ProcessMsgs()
							}
						}
					}, 21*N, limit)
					c.Trans(n)
					c.Eval(1)
					if bad {
						c.Failf("%s, party %d, %s: %d messages of all kinds from %s (processing in between: %v) make the session grow by %d bytes", w.Name, i, pl.name, n, f.name, proc, got)
					}
				}
			}
			c.State(1)
			c.Distinct(w.Name, pl.name)
		})
	}
}

// spent returns the bytes f allocates.
func spent(f func()) int64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int64(b.TotalAlloc - a.TotalAlloc)
}

func decoding(c *lib.Ctx) {
	check := func(name string, in []byte, f func(in []byte)) {
		limit := int64(200*len(in) + 24<<10)
		got := spent(func() { f(in) })
		if got > limit { // once more, something else may have been running
			got = spent(func() { f(in) })
		}
		c.Eval(1)
		if got > limit {
			show := fmt.Sprintf("%x", in)
			if len(show) > 300 {
				show = show[:300] + "…"
			}
			c.Failf("%s: decoding %d bytes allocates %d bytes: %s", name, len(in), got, show)
		}
	}
	msg := func(in []byte) { _ = new(messages.Message).UnmarshalBinary(in) }
	kw := sim.KeygenWorld([]party.ID{1, 2, 3}, 2, "c27 decoding")
	sw := sim.SignWorld(sim.Deal([]party.ID{1, 2, 3}, 1, "c27"), []party.ID{1, 2}, []byte("m"), "c27 decoding")
	for k, b := range [][]byte{kw.First(2), kw.Second(2, 1), sw.First(2), sw.Second(2, 1)} {
		b, kind := b, []string{"commitments", "share", "nonces", "signature share"}[k]
		for part := 0; part < 4; part++ {
			part := part
			c.Case(fmt.Sprintf("decode/message/%s/part %d", kind, part), func() {
				// every value of every two neighbouring bytes where a size may be declared
				var at []int
				for o := 0; o < 6; o++ {
					at = append(at, o)
				}
				if sim.Typ(b) == sim.K1 {
					at = append(at, 68, 69, 70, 71)
				}
				step := c.Pick(7, 1)
				for _, o := range at {
					for v := part; v < 65536; v += 4 * step {
						x := append([]byte(nil), b...)
						x[o], x[o+1] = byte(v>>8), byte(v)
						check(kind, x, msg)
						if v < 64*4 || v > 65536-64*4 {
							for n := o + 2; n < len(x); n += 1 + len(x)/16 {
								check(kind+" cut", x[:n], msg)
							}
						}
					}
				}
				for o := 0; o+4 <= len(b); o++ {
					for _, v := range []uint32{0, 0xffffffff, 0x7fffffff, 0x80000000, 0x01000000, 0x00ffffff, 0x000000ff, 0x0000ffff, 0xffff0000} {
						x := append([]byte(nil), b...)
						x[o], x[o+1], x[o+2], x[o+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
						check(kind, x, msg)
					}
				}
				for n := 0; n <= len(b); n++ {
					check(kind+" cut", b[:n], msg)
				}
				for n := 1; n < 4096; n = n*3/2 + 1 {
					check(kind+" extended", append(append([]byte(nil), b...), bytes.Repeat([]byte{1}, n)...), msg)
				}
				c.Distinct(kind, part)
			})
		}
	}
	c.Case("decode/stored", func() {
		key := func(in []byte) { var s eddsa.SecretShare; _ = json.Unmarshal(in, &s) }
		bin := func(in []byte) { var s eddsa.SecretShare; _ = s.UnmarshalBinary(in) }
		pub := func(in []byte) { var p eddsa.Public; _ = json.Unmarshal(in, &p) }
		pk := func(in []byte) { var p eddsa.PublicKey; _ = json.Unmarshal(in, &p) }
		sig := func(in []byte) { var s eddsa.Signature; _ = s.UnmarshalBinary(in) }
		all := func(name string, in []byte) {
			check(name+" as key share", in, key)
			check(name+" as key share", in, bin)
			check(name+" as public data", in, pub)
			check(name+" as public key", in, pk)
			check(name+" as signature", in, sig)
			check(name+" as message", in, msg)
		}
		k := sim.Deal([]party.ID{1, 2, 65535}, 1, "c27")
		pj, _ := json.Marshal(k.Public)
		sj, _ := json.Marshal(k.Secret[1])
		kj, _ := json.Marshal(k.Public.GroupKey)
		sb, _ := k.Secret[1].MarshalBinary()
		nums := []string{"0", "1", "2", "16", "255", "256", "65534", "65535", "65536", "16777216", "2147483647", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "1e9", "1e300", "-1"}
		for _, doc := range [][]byte{pj, sj, kj, sb} {
			all("stored form", doc)
			for n := range doc {
				all("cut stored form", doc[:n])
			}
			for o := range doc { // every number replaced
				if doc[o] < '0' || doc[o] > '9' || o > 0 && doc[o-1] != ':' && doc[o-1] != '"' {
					continue
				}
				e := o
				for e < len(doc) && doc[e] >= '0' && doc[e] <= '9' {
					e++
				}
				for _, v := range nums {
					all("number replaced by "+v, []byte(string(doc[:o])+v+string(doc[e:])))
				}
			}
		}
		for _, n := range []int{10, 100, 1000} {
			all("nested arrays", []byte(strings.Repeat("[", n)))
			all("nested objects", []byte(strings.Repeat(`{"t":`, n)))
			all("bytes", bytes.Repeat([]byte{0xff}, n))
			long := base64.StdEncoding.EncodeToString(make([]byte, n*30))
			all("long value", []byte(`{"id":1,"secret":"`+long+`"}`))
			all("long value", []byte(`"`+long+`"`))
			all("long value", []byte(`{"t":1,"groupkey":"`+long+`","shares":{"1":"`+long+`"}}`))
		}
		c.Distinct("stored")
	})
}

func endings(c *lib.Ctx) {
	R := c.Pick(300, 2000)
	kg := func(t int, v ...party.ID) *sim.World { return sim.KeygenWorld(v, t, fmt.Sprint("c27e", v, t)) }
	sg := func(all []party.ID, t int, v ...party.ID) *sim.World {
		return sim.SignWorld(sim.Deal(all, t, "c27e"), v, []byte("message"), fmt.Sprint("c27e", v, t))
	}
	leaks := func(name string, n int, once func()) {
		c.Case("endings/"+name, func() {
			once()
			g := runtime.NumGoroutine()
			got, n, bad := grows(func() interface{} { return nil }, func(_ interface{}, n int) {
				for k := 0; k < n; k++ {
					once()
				}
			}, n, 24<<10)
			c.Eval(1)
			c.Trace(n)
			if bad {
				c.Failf("%s: after %d sessions that the caller let go of, the live heap has grown by %d bytes", name, n, got)
			}
			for k := 0; runtime.NumGoroutine() > g+5; k++ {
				if k == 200 {
					c.Failf("%s: after %d sessions there are %d goroutines, %d before", name, n, runtime.NumGoroutine(), g)
				}
				time.Sleep(10 * time.Millisecond)
			}
			c.Distinct(name)
		})
	}
	for _, w := range []*sim.World{kg(1, 1, 2), kg(2, 1, 2, 3), sg([]party.ID{1, 2, 3}, 1, 1, 3), sg([]party.ID{1, 2, 3}, 2, 1, 2, 3)} {
		w := w
		i := w.IDs[1]
		p := w.Proto(i, hours)
		h := w.Honest(i)
		j := p.Others()[0]
		play := func(p *sim.Proto, repl []byte, upto int) *sim.Sess {
			s := p.New()
			s.Process()
			for k, x := range h {
				if k >= upto {
					return s
				}
				b := x.B
				if repl != nil && x.From == j && x.Type == sim.Typ(repl) {
					b = repl
				}
				if s.St.IsFinished() {
					return s
				}
				if err := s.Handle(b); err != nil {
					panic(err)
				}
				s.Process()
			}
			return s
		}
		ended := func(s *sim.Sess, ok bool) {
			c.Check(s.St.IsFinished() && (s.St.Err() == nil) == ok, "%s: session ends unexpectedly (finished %v, error %v)", w.Name, s.St.IsFinished(), s.St.Err())
		}
		leaks(w.Name+"/success", R, func() { ended(play(p, nil, 99), true) })
		for _, f := range append(w.FaultyFirst(j), w.FaultySecond(j, i)...) {
			s := play(p, f.B, 99)
			if !s.St.IsFinished() || s.St.Err() == nil {
				continue // a valid variant, or undecodable
			}
			f := f
			leaks(w.Name+"/"+f.Name, R/3, func() { ended(play(p, f.B, 99), false) })
		}
		// timeouts at every stage
		quick := w.Proto(i, time.Millisecond)
		for upto := 0; upto < len(h); upto++ {
			upto := upto
			leaks(fmt.Sprintf("%s/timeout after %d messages", w.Name, upto), 60, func() {
				s := play(p, nil, upto)
				_ = s
				var q *sim.Sess
				if lib.Catch(func() { q = play(quick, nil, upto) }) == nil {
					_ = q.St.WaitForError()
				}
				// the first one is still running: it is ended by the last messages
				for _, x := range h[upto:] {
					_ = s.Handle(x.B)
					s.Process()
				}
				ended(s, true)
			})
		}
		// waiting for the end
		leaks(w.Name+"/with somebody waiting", R/3, func() {
			s := p.New()
			done := make(chan error, 2)
			go func() { done <- s.St.WaitForError() }()
			go func() { <-s.St.Done(); done <- s.St.Err() }()
			s.Process()
			for _, x := range h {
				must(s.Handle(x.B))
				s.Process()
			}
			must(<-done)
			must(<-done)
		})
	}
	// refused at creation
	k := sim.Deal([]party.ID{1, 2, 3}, 1, "c27r")
	type attempt struct {
		name string
		f    func() error
	}
	refused := []attempt{
		{"keygen without oneself", func() error { _, _, err := frost.NewKeygenState(9, []party.ID{1, 2, 3}, 1, hours); return err }},
		{"keygen threshold too high", func() error { _, _, err := frost.NewKeygenState(1, []party.ID{1, 2, 3}, 3, hours); return err }},
		{"keygen with identifier 0", func() error { _, _, err := frost.NewKeygenState(1, []party.ID{0, 1, 2}, 1, hours); return err }},
		{"keygen with duplicates", func() error { _, _, err := frost.NewKeygenState(1, []party.ID{1, 2, 2}, 1, hours); return err }},
		{"signing without oneself", func() error {
			_, _, err := frost.NewSignState([]party.ID{2, 3}, k.Secret[1], k.Public, []byte("m"), hours)
			return err
		}},
		{"signing with duplicates", func() error {
			_, _, err := frost.NewSignState([]party.ID{1, 1, 2}, k.Secret[1], k.Public, []byte("m"), hours)
			return err
		}},
		{"signing with a stranger", func() error {
			_, _, err := frost.NewSignState([]party.ID{1, 2, 9}, k.Secret[1], k.Public, []byte("m"), hours)
			return err
		}},
	}
	for _, a := range refused {
		a := a
		leaks("refused/"+a.name, R, func() {
			if a.f() == nil {
				panic("configuration accepted")
			}
		})
	}
}

// stateless repeats operations that have no reason to keep anything.
func stateless(c *lib.Ctx) {
	N := c.Pick(1500, 8000)
	k := sim.Deal([]party.ID{1, 2, 3}, 1, "c27s")
	run, err := sim.RunSign([]party.ID{1, 3}, k.Public, k.Secret, []byte("text"), "c27s")
	must(err)
	sig := run.Sess[1].SG.Signature
	text := func(n int) []byte { return []byte(fmt.Sprint("message ", n)) }
	pj, _ := json.Marshal(k.Public)
	ops := map[string]func(n int){
		"verify": func(n int) { k.Public.GroupKey.Verify(text(n), sig) },
		"share":  func(n int) { eddsa.NewSecretShare(party.ID(n), sim.Sc(big.NewInt(int64(n+2)))) },
		"encode and decode shares": func(n int) {
			s := eddsa.NewSecretShare(party.ID(n%65535+1), sim.Sc(big.NewInt(int64(n+2))))
			b, err := json.Marshal(s)
			must(err)
			must(json.Unmarshal(b, new(eddsa.SecretShare)))
		},
		"decode public data": func(n int) { must(json.Unmarshal(pj, new(eddsa.Public))) },
		"encode and decode messages": func(n int) {
			m, err := sim.Decode(sim.MakeK2(party.ID(n%60000+1), party.ID(60001+n%5000), big.NewInt(int64(n))))
			must(err)
			_, err = m.MarshalBinary()
			must(err)
		},
		"refused messages": func(n int) { _ = new(messages.Message).UnmarshalBinary(rnd.Bytes(fmt.Sprint(n), n%200)) },
		"Lagrange":         func(n int) { _, _ = party.ID(1).Lagrange(party.IDSlice{1, party.ID(n%60000 + 2), 65535}) },
		"identifier lists": func(n int) { party.NewIDSlice([]party.ID{party.ID(n), 1, party.ID(n + 1)}) },
		"sign configuration": func(n int) {
			s, err := sim.NewSign([]party.ID{1, 3}, k.Secret[1], k.Public, text(n), 0, rnd.New(fmt.Sprint(n)))
			must(err)
			s.Process()
		},
		"keygen configuration": func(n int) {
			s, err := sim.NewKeygen(1, []party.ID{1, party.ID(n%60000 + 2)}, 1, 0, rnd.New(fmt.Sprint(n)))
			must(err)
			s.Process()
		},
	}
	var names []string
	for name := range ops {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		name, f := name, ops[name]
		c.Case("repeated/"+name, func() {
			f(0)
			got, n, bad := grows(func() interface{} { return nil }, func(_ interface{}, n int) {
				for x := 0; x < n; x++ {
					f(x)
				}
			}, N, int64(24<<10))
			c.Eval(1)
			if bad {
				c.Failf("%s, repeated %d times on different inputs: the live heap has grown by %d bytes", name, n, got)
			}
			c.Distinct(name)
		})
	}
}
