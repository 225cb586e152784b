//go:build go1.21

// C15: every secret is drawn fresh and in full from the randomness source.
package main

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	if os.Getenv("VERIF_C15") != "" {
		child()
		return
	}
	lib.Run(lib.Config{
		ID: "C15", Level: "fault_enumeration",
		Rule:        "every session draws from one recorded stream for the whole process; each nonce, polynomial coefficient and proof nonce is recomputed from the messages sent and must be the wide reduction of a 64-byte window of what the source handed out, all windows disjoint from each other within and across sessions; the source returns short at every read, singly and in pairs, with every length class, and fails at every read in every way (at once, after some bytes, once only, for ever), after which nothing may be sent that does not have its complete windows",
		Bounds:      "all parties of key generation with 2 to 4 (thorough 6) parties and every threshold, and of signing; every single and double short read of lengths 0, 1, 31, 32, 33, 63; every failure at every read, in a process of its own; repeated, interleaved, aborted and timed-out sessions; 300 sessions in a row; degrees up to 1000 (thorough: 3000)",
		HangSeconds: 60,
	}, run)
}

// source is the randomness source: one stream for all sessions.
type source struct {
	*rnd.Stream
	after func(i int) error // failure of read i, after the bytes were handed out
}

func (s *source) Read(p []byte) (int, error) {
	i := s.Reads
	n, err := s.Stream.Read(p)
	if err == nil && s.after != nil {
		err = s.after(i)
	}
	return n, err
}

// tracker finds windows in the stream and remembers which bytes are used.
type tracker struct {
	s    *source
	used map[int]string // offset -> owner
	enc  map[int][]byte
}

func newTracker(s *source) *tracker {
	return &tracker{s: s, used: map[int]string{}, enc: map[int][]byte{}}
}

func (t *tracker) window(o int) *big.Int { return ref.Wide(t.s.Out[o : o+64]) }

func (t *tracker) encAt(o int) []byte {
	if t.enc[o] == nil {
		t.enc[o] = sim.BaseEnc(t.window(o))
	}
	return t.enc[o]
}

// find looks for the window whose scalar satisfies ok, aligned windows first.
func (t *tracker) find(ok func(o int) bool) (int, bool) {
	n := len(t.s.Out) - 64
	for o := 0; o <= n; o += 64 {
		if ok(o) {
			return o, true
		}
	}
	for o := 0; o <= n; o++ {
		if o%64 != 0 && ok(o) {
			return o, true
		}
	}
	return 0, false
}

func (t *tracker) claim(c *lib.Ctx, where, what string, ok func(o int) bool) *big.Int {
	o, found := t.find(ok)
	c.Check(found, "%s: %s is not the reduction of 64 bytes of the randomness source", where, what)
	for i := o; i < o+64; i++ {
		c.Check(t.used[i] == "", "%s: %s uses bytes of the randomness source that were used for %s", where, what, t.used[i])
		t.used[i] = where + " " + what
	}
	c.Eval(1)
	return t.window(o)
}

func (t *tracker) claimPoint(c *lib.Ctx, where, what string, enc []byte) *big.Int {
	return t.claim(c, where, what, func(o int) bool { return bytes.Equal(t.encAt(o), enc) })
}

// first checks the first message of a session and returns its secrets.
func (t *tracker) first(c *lib.Ctx, where string, m []byte) []*big.Int {
	var out []*big.Int
	switch sim.Typ(m) {
	case sim.K1:
		for k, e := range sim.Commitments(m) {
			out = append(out, t.claimPoint(c, where, fmt.Sprintf("coefficient %d", k), e))
		}
		// the proof: S = challenge, R = k + a0*S
		S, R := ref.FromLE(m[5:37]), ref.FromLE(m[37:69])
		k := ref.Sub(R, ref.Mul(out[0], S))
		k2 := ref.Add(R, ref.Mul(out[0], S))
		out = append(out, t.claim(c, where, "the proof nonce", func(o int) bool {
			w := t.window(o)
			return w.Cmp(k) == 0 || w.Cmp(k2) == 0
		}))
	case sim.S1:
		out = append(out, t.claimPoint(c, where, "nonce d", m[5:37]), t.claimPoint(c, where, "nonce e", m[37:69]))
	default:
		c.Failf("%s: unexpected first message kind %d", where, sim.Typ(m))
	}
	return out
}

// config is one party of one run.
type config struct {
	keygen  bool
	ids     party.IDSlice
	t       int
	self    party.ID
	keys    *sim.Keys
	timeout time.Duration
}

func (g config) String() string {
	if g.keygen {
		return fmt.Sprintf("keygen%v t=%d party %d", g.ids, g.t, g.self)
	}
	return fmt.Sprintf("sign%v party %d", g.ids, g.self)
}

// start creates the session without touching the installed source.
func (g config) start() *sim.Sess {
	w := sim.KeygenWorld(g.ids, g.t, "")
	if !g.keygen {
		w = sim.SignWorld(g.keys, g.ids, []byte("the same message"), "")
	}
	return w.Proto(g.self, g.timeout).New()
}

// The session helpers of sim install a stream of their own around every call; here all sessions
// share the process-wide source, so it is put in place of crypto/rand's reader directly.
func install(s io.Reader) { rand.Reader = s }

func newSource(label string) *source { return &source{Stream: rnd.New(label)} }

// begin starts a session and returns the first message it sends.
func begin(c *lib.Ctx, where string, g config) (*sim.Sess, []byte) {
	s := g.start()
	out := sim.Encode(s.St.ProcessAll())
	c.Check(len(out) == 1, "%s: %v sends %d messages at first", where, g, len(out))
	return s, out[0]
}

func configs(max int) []config {
	var out []config
	for n := 2; n <= max; n++ {
		for t := 1; t < n; t++ {
			ids := sim.Spread(n)
			if t%2 == 0 {
				ids = sim.Seq(n)
			}
			for _, id := range ids {
				out = append(out, config{keygen: true, ids: ids, t: t, self: id})
			}
		}
	}
	k := sim.Deal([]party.ID{1, 2, 3, 65535}, 1, "c15")
	for _, ids := range sim.Sub(k.IDs, 2, 3) {
		for _, id := range ids {
			out = append(out, config{ids: ids, self: id, keys: k})
		}
	}
	return out
}

func run(c *lib.Ctx) {
	all := configs(c.Pick(4, 6))
	lengths := []int{0, 1, 31, 32, 33, 63}
	for _, g := range all {
		g := g
		c.Case("plain "+g.String(), func() {
			src := newSource("c15")
			install(src)
			t := newTracker(src)
			// several sessions of the same party with the same inputs
			for i := 0; i < 3; i++ {
				where := fmt.Sprintf("%v, session %d", g, i)
				s, m := begin(c, where, g)
				t.first(c, where, m)
				c.Check(len(s.St.ProcessAll()) == 0, "%s: a second call sends something", where)
			}
			c.Trace(3)
			c.Distinct(g.String())
		})
		// all single and double departures
		c.Case("short "+g.String(), func() {
			src := newSource("c15")
			install(src)
			begin(c, "count", g)
			reads := src.Reads
			c.Sample("%v: %d reads", g, reads)
			one := func(dep map[int]int) {
				src := newSource("c15")
				src.Script = func(i, want int) (int, error) {
					if n, ok := dep[i]; ok {
						return n, nil
					}
					return want, nil
				}
				install(src)
				t := newTracker(src)
				where := fmt.Sprintf("%v, short reads %v", g, dep)
				_, m := begin(c, where, g)
				t.first(c, where, m)
				c.Trace(1)
			}
			for i := 0; i <= reads; i++ {
				for _, l := range lengths {
					one(map[int]int{i: l})
					for j := i + 1; j <= reads+1; j++ {
						if c.Quick() && j > i+2 && j != reads {
							continue
						}
						for _, l2 := range lengths {
							one(map[int]int{i: l, j: l2})
						}
					}
				}
			}
			for _, l := range lengths[1:] { // always short
				src := newSource("c15")
				src.Short = l
				install(src)
				t := newTracker(src)
				where := fmt.Sprintf("%v, all reads return at most %d bytes", g, l)
				_, m := begin(c, where, g)
				t.first(c, where, m)
				c.Trace(1)
			}
		})
	}
	// polynomials of high degree
	degrees := []int{7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 128, 129, 191, 200, 255, 256, 257, 300, 400, 511, 512, 513, 700, 1000}
	if !c.Quick() {
		degrees = append(degrees, 127, 130, 192, 193, 1023, 1024, 1025, 2048, 3000)
	}
	for _, d := range degrees {
		d := d
		c.Case(fmt.Sprintf("degree %d", d), func() {
			g := config{keygen: true, ids: sim.Spread(d + 1), t: d, self: sim.Spread(d + 1)[d/2]}
			where := fmt.Sprintf("degree %d", d)
			for _, script := range []func(i, want int) (int, error){
				nil,
				func(i, want int) (int, error) { return (want + 1) / 2, nil },
				func(i, want int) (int, error) { return want - want*(i%2)/64, nil },
			} {
				src := newSource("c15")
				src.Script = script
				install(src)
				t := newTracker(src)
				for k := 0; k < 2; k++ {
					s, m := begin(c, where, g)
					t.first(c, where, m)
					c.Check(len(s.St.ProcessAll()) == 0, "%s: a second call sends something", where)
				}
				c.Trace(2)
			}
			c.Distinct(where)
		})
	}
	histories(c)
	failures(c)
}

// bigs are configurations with many coefficients, for the failing source.
func bigs() []config {
	var out []config
	for _, d := range []int{9, 17, 33, 65} {
		out = append(out, config{keygen: true, ids: sim.Spread(d + 1), t: d, self: sim.Spread(d + 1)[d/2]})
	}
	return out
}

// histories of sessions in one process
func histories(c *lib.Ctx) {
	k := sim.Deal([]party.ID{1, 2, 3}, 1, "c15")
	sg := func(self party.ID) config { return config{ids: party.IDSlice{1, 2}, self: self, keys: k} }
	kg := func(self party.ID) config { return config{keygen: true, ids: party.IDSlice{1, 2}, t: 1, self: self} }
	type sess struct {
		s *sim.Sess
		m []byte
	}
	// a history is a word: what happens to the sessions begun so far
	//   s, k: begin a signing or key generation session of party 1;  S, K: of party 2
	//   x: the last session gets a message it refuses;  a: it is aborted by a faulty message
	//   r: complete the last signing session
	var words []string
	var rec func(w string, n int)
	rec = func(w string, n int) {
		if n == 0 {
			words = append(words, w)
			return
		}
		for _, o := range "sSkKar" {
			if w == "" && (o == 'a' || o == 'r') {
				continue
			}
			rec(w+string(o), n-1)
		}
	}
	depth := c.Pick(4, 5)
	rec("", depth)
	const parts = 32
	for part := 0; part < parts; part++ {
		part := part
		c.Case(fmt.Sprintf("histories of length %d, part %d", depth, part), func() {
			for wi := part; wi < len(words); wi += parts {
				w := words[wi]
				src := newSource("c15h" + w)
				install(src)
				t := newTracker(src)
				var all []sess
				for i, o := range w {
					where := fmt.Sprintf("history %s, step %d", w, i)
					if o == 'a' || o == 'r' {
						l := all[len(all)-1]
						other := party.ID(3) - l.s.ID
						if l.s.KG != nil {
							bad := sim.MakeK1(other, other, []*big.Int{big.NewInt(7), big.NewInt(9)})
							if o == 'a' {
								bad[37] ^= 1
							}
							l.s.St.HandleMessage(must(sim.Decode(bad)))
						} else {
							e := sim.BaseEnc(big.NewInt(11))
							l.s.St.HandleMessage(must(sim.Decode(sim.MakeS1(other, e, e))))
							l.s.St.ProcessAll()
							l.s.St.HandleMessage(must(sim.Decode(sim.MakeS2(other, big.NewInt(3)))))
						}
						l.s.St.ProcessAll()
						continue
					}
					g := map[rune]config{'s': sg(1), 'S': sg(2), 'k': kg(1), 'K': kg(2)}[o]
					s, m := begin(c, where, g)
					t.first(c, where, m)
					all = append(all, sess{s, m})
				}
				c.Trace(1)
			}
			c.Distinct(part)
		})
	}
	// sessions created first and started later in another order
	c.Case("created first", func() {
		src := newSource("c15i")
		install(src)
		t := newTracker(src)
		lib.Perms(4, func(p []int) {
			gs := []config{sg(1), sg(1), kg(1), sg(2)}
			var ss []*sim.Sess
			for _, g := range gs {
				ss = append(ss, g.start())
			}
			for _, i := range p {
				where := fmt.Sprintf("order %v, session %d", p, i)
				out := sim.Encode(ss[i].St.ProcessAll())
				c.Check(len(out) == 1, "%s: %d messages", where, len(out))
				t.first(c, where, out[0])
			}
		})
	})
	for _, g := range []config{sg(1), kg(2)} {
		g := g
		c.Case("many "+g.String(), func() {
			src := newSource("c15m")
			install(src)
			t := newTracker(src)
			seen := 0
			for i := 0; i < c.Pick(300, 1200); i++ {
				where := fmt.Sprintf("%v, session %d", g, i)
				_, m := begin(c, where, g)
				// look only at what is new first
				if i%50 == 49 {
					seen = len(src.Out)
				}
				_ = seen
				t.first(c, where, m)
				// what was used is dropped from the search, but a second use of it is not found then
				// and reported as not coming from the source
				if len(src.Out) > 1<<12 {
					t.s.Out = append([]byte(nil), t.s.Out[len(t.s.Out)-256:]...)
					t.used, t.enc = map[int]string{}, map[int][]byte{}
					for j := range t.s.Out {
						t.used[j] = "an earlier session"
					}
				}
			}
		})
	}
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// ---- failures

// A failing source may end the process, so each is tried in a process of its own. The child prints
// what it sends and what the source handed out.
func failures(c *lib.Ctx) {
	gs := configs(3)
	if !c.Quick() {
		gs = configs(4)
	}
	gs = append(gs, bigs()...)
	for i, g := range gs {
		i, g := i, g
		if i%2 == 1 && c.Quick() && g.t < 9 {
			continue
		}
		c.Case("failures "+g.String(), func() {
			src := newSource("c15")
			install(src)
			begin(c, "count", g)
			reads := src.Reads
			for r := 0; r < reads; r++ {
				if g.t > 8 && r > 2 && r < reads-3 && r%(g.t/2) > 1 {
					continue
				}
				for _, how := range []string{"always", "once", "eof", "after1", "after63", "full", "fullonce"} {
					for _, again := range []int{0, 1, 2} {
						if again > 0 && how != "once" && how != "fullonce" && how != "after63" {
							continue
						}
						one(c, i, g, r, how, again)
					}
				}
			}
		})
	}
}

func one(c *lib.Ctx, i int, g config, r int, how string, again int) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	max := 3
	if !c.Quick() {
		max = 4
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_C15=%d %d %d %s %d", max, i, r, how, again))
	var out bytes.Buffer
	cmd.Stdout = &out
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	go func() { done <- cmd.Wait() }()
	where := fmt.Sprintf("%v, read %d fails (%s), called again %d times", g, r, how, again)
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		cmd.Process.Kill()
		c.Failf("%s: the call does not return", where)
	}
	src := newSource("none")
	t := newTracker(src)
	var sent [][]byte
	for _, l := range strings.Split(out.String(), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "sent" {
			b, _ := hex.DecodeString(f[1])
			sent = append(sent, b)
		}
		if len(f) == 2 && f[0] == "out" {
			src.Out, _ = hex.DecodeString(f[1])
		}
	}
	for _, m := range sent {
		t.first(c, where, m)
	}
	c.Check(strings.Contains(out.String(), "started"), "%s: the child did not run: %s", where, out.String())
	c.Trace(1)
	c.Distinct(g.String(), r, how, again, len(sent))
}

func child() {
	var max, i, r, again int
	var how string
	fmt.Sscanf(os.Getenv("VERIF_C15"), "%d %d %d %s %d", &max, &i, &r, &how, &again)
	g := append(configs(max), bigs()...)[i]
	src := newSource("c15")
	bad := errors.New("the randomness source fails")
	if how == "eof" {
		bad = io.EOF
	}
	src.Script = func(k, want int) (int, error) {
		switch {
		case k < r || how == "full" || how == "fullonce":
			return want, nil
		case k == r && how == "after1":
			return 1, nil
		case k == r && how == "after63":
			return 63, nil
		case k > r && how == "once":
			return want, nil
		case how == "after63" && k > r+1:
			return want, nil
		}
		return 0, bad
	}
	if strings.HasPrefix(how, "full") { // all bytes and an error at the same time
		src.after = func(k int) error {
			if k == r || k > r && how == "full" {
				return bad
			}
			return nil
		}
	}
	install(src)
	fmt.Println("started")
	var s *sim.Sess
	attempt := func(f func()) {
		defer func() {
			if p := recover(); p != nil {
				fmt.Println("panic")
			}
		}()
		f()
	}
	for k := 0; k <= again; k++ {
		attempt(func() {
			if s == nil {
				s = g.start()
			}
			out := sim.Encode(s.St.ProcessAll())
			for _, m := range out {
				fmt.Printf("out %x\n", src.Out)
				fmt.Printf("sent %x\n", m)
			}
		})
	}
}
