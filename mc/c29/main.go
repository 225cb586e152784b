//go:build go1.21

// C29: the helper functions drive sessions and deal keys faithfully.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/rnd"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C29", Level: "exploration",
		Rule:   "driver: every history of a session of the bound (orders of the messages of honest peers, with repeats, conflicting, wrong, foreign, misaddressed and undecodable ones inserted at every position), cut into batches in every way, is given to PartyRoutine and, message by message, to a twin session with the same randomness; each call must return the encodings of exactly what the twin sends, or an error exactly when a message of the batch is undecodable or refused (the rest of the batch then stays undelivered and nothing is processed) or the session has ended with one, and both must end in the same way with the same results; the buffers handed in are overwritten after each call. Whole groups are run by the driver alone. Dealer: for every set, threshold and order of the set the shares must lie on one polynomial of exactly the threshold's degree with fresh coefficients and the returned secret as constant, and the public data must be that of the reference",
		Bounds: "driver: 2 parties with up to two insertions, 3 parties with up to one, key generation and signing, every cut into batches (thorough: all orders, 4 parties); groups of up to 4 (thorough 6); dealer: all sets of up to 4 of 8 boundary identifiers, all thresholds, groups of up to 40",
	}, run)
}

func run(c *lib.Ctx) {
	for _, w := range []*sim.World{
		sim.KeygenWorld([]party.ID{1, 2}, 1, "c29"),
		sim.SignWorld(sim.Deal([]party.ID{1, 2, 3}, 1, "c29"), []party.ID{1, 3}, []byte("m"), "c29"),
	} {
		histories(c, w, 2)
	}
	k3 := sim.Deal([]party.ID{2, 300, 65535}, 1, "c29")
	for _, w := range []*sim.World{
		sim.KeygenWorld([]party.ID{2, 300, 65535}, 1, "c29"),
		sim.SignWorld(k3, []party.ID{2, 300, 65535}, []byte("m"), "c29"),
	} {
		histories(c, w, 1)
	}
	if !c.Quick() {
		k4 := sim.Deal(sim.Seq(4), 2, "c29")
		histories(c, sim.KeygenWorld(sim.Seq(4), 2, "c29"), 0)
		histories(c, sim.SignWorld(k4, sim.Seq(4), []byte("m"), "c29"), 0)
	}
	groups(c)
	dealer(c)
}

// ---- the driver

type item struct {
	name string
	b    []byte
}

// extras are the messages that are inserted.
func extras(w *sim.World, i party.ID) []item {
	var out []item
	for _, m := range w.Strays(i) {
		out = append(out, item{m.Name, m.B})
	}
	h := w.First(peer(w, i))
	out = append(out, item{"nothing", nil}, item{"one byte", h[:1]}, item{"header only", h[:5]}, item{"cut short", h[:len(h)-1]},
		item{"one byte more", append(append([]byte(nil), h...), 0)}, item{"kind 9", append([]byte{9}, h[1:]...)},
		item{"not canonical", append(append([]byte(nil), h[:5]...), bytes.Repeat([]byte{0xff}, len(h)-5)...)})
	return out
}

func peer(w *sim.World, i party.ID) party.ID {
	for _, j := range w.IDs {
		if j != i {
			return j
		}
	}
	panic("no peer")
}

func histories(c *lib.Ctx, w *sim.World, budget int) {
	self := w.IDs[0]
	var orders [][]int
	n := 2 * (len(w.IDs) - 1)
	lib.Perms(n, func(p []int) { orders = append(orders, append([]int(nil), p...)) })
	if c.Quick() && len(orders) > 6 {
		var few [][]int
		for i := range orders {
			if i%(len(orders)/5) == 0 || i == len(orders)-1 {
				few = append(few, orders[i])
			}
		}
		orders = few
	}
	for _, o := range orders {
		o := o
		c.Case(fmt.Sprintf("driver %s, order %v", w.Name, o), func() {
			var base []item
			hon := w.Honest(self)
			for _, i := range o {
				base = append(base, item{hon[i].Name, hon[i].B})
			}
			d := &driver{c: c, w: w, self: self}
			d.cuts(base)
			if budget == 0 {
				return
			}
			ex := extras(w, self)
			for a, x := range ex {
				for i := 0; i <= len(base); i++ {
					one := insert(base, i, x)
					d.cuts(one)
					if budget < 2 {
						continue
					}
					for b, y := range ex {
						if c.Quick() && (a+2*b)%5 != 0 {
							continue
						}
						for j := 0; j <= i; j++ {
							d.cuts(insert(one, j, y))
						}
					}
				}
				if c.Expired() {
					return
				}
			}
		})
	}
}

func sorted(s [][]byte) {
	sort.Slice(s, func(i, j int) bool { return bytes.Compare(s[i], s[j]) < 0 })
}

func insert(s []item, i int, x item) []item {
	out := append([]item(nil), s[:i]...)
	return append(append(out, x), s[i:]...)
}

type driver struct {
	c    *lib.Ctx
	w    *sim.World
	self party.ID
}

// cuts cuts the history into batches in every way.
func (d *driver) cuts(h []item) {
	n := len(h)
	for mask := 0; mask < 1<<uint(n); mask++ {
		// bit i: a cut before message i (bit 0: a first call without messages)
		var batches [][]item
		batches = append(batches, nil)
		for i := range h {
			if mask>>uint(i)&1 == 1 {
				batches = append(batches, nil)
			}
			batches[len(batches)-1] = append(batches[len(batches)-1], h[i])
		}
		d.one(append(batches, nil, nil))
		d.c.Trace(1)
	}
	d.c.Beat()
}

func text(batches [][]item) string {
	var s []string
	for _, b := range batches {
		var n []string
		for _, x := range b {
			n = append(n, x.name)
		}
		s = append(s, "["+strings.Join(n, ", ")+"]")
	}
	return strings.Join(s, " ")
}

func (d *driver) one(batches [][]item) {
	c := d.c
	p := d.w.Proto(d.self, 0)
	a, b := p.New(), p.New()
	for k, batch := range batches {
		where := func() string { return fmt.Sprintf("%s, party %d, batch %d of %s", d.w.Name, d.self, k, text(batches)) }
		check := func(ok bool, format string, args ...interface{}) {
			if !ok {
				c.Failf("%s: "+format, append([]interface{}{where()}, args...)...)
			}
		}
		// the twin
		var refused error
		for _, x := range batch {
			if refused = b.Handle(x.b); refused != nil {
				break
			}
		}
		var want [][]byte
		var ended error
		if refused == nil {
			want = b.Process()
			if b.St.IsFinished() {
				ended = b.St.WaitForError()
			}
		}
		var in [][]byte
		for _, x := range batch {
			in = append(in, append([]byte(nil), x.b...))
		}
		rnd.Use(a.Rnd)
		out, err := helpers.PartyRoutine(in, a.St)
		rnd.Use(nil)
		c.Trans(1)
		c.Eval(1)
		for i, x := range in {
			check(bytes.Equal(x, batch[i].b), "the input has been changed")
			for j := range x {
				x[j] ^= 0xa5
			}
		}
		switch {
		case refused != nil:
			check(err != nil, "no error, but a message of the batch is refused: %v", refused)
			check(strings.Contains(err.Error(), refused.Error()), "the error %q hides the reason %q", err, refused)
			check(len(out) == 0, "messages are returned together with an error")
		case ended != nil:
			check(err != nil, "no error, but the session has ended with: %v", ended)
			// who of several faulty ones is named may differ between the two
			own := a.St.Err()
			check(own != nil, "the driver's session has no error, the twin's has: %v", ended)
			var se, sw *state.Error
			if errors.As(own, &sw) {
				check(errors.As(err, &se) && se.PartyID == sw.PartyID, "the error %q is not that of the session: %q", err, own)
			}
			check(strings.Contains(err.Error(), own.Error()), "the error %q is not that of the session: %q", err, own)
			check(len(out) == 0, "messages are returned together with an error")
		default:
			check(err == nil, "error %v", err)
			check(len(out) == len(want), "%d messages returned, the session sends %d", len(out), len(want))
			sorted(out)
			sorted(want)
			for i := range out {
				check(bytes.Equal(out[i], want[i]), "message %d is %x instead of %x", i, out[i], want[i])
			}
			for i := range out { // the caller may do with them what he wants
				for j := range out[i][:cap(out[i])] {
					out[i][:cap(out[i])][j] ^= 0x5a
				}
			}
		}
		check(a.St.IsFinished() == b.St.IsFinished(), "finished: %v instead of %v", a.St.IsFinished(), b.St.IsFinished())
		check(a.OutKey() == b.OutKey(), "other results than the twin")
		ea, eb := a.St.Err(), b.St.Err()
		check((ea == nil) == (eb == nil), "the session's error is %v instead of %v", ea, eb)
	}
	if a.St.IsFinished() {
		c.Distinct(d.w.Name, a.OutKey(), fmt.Sprint(a.St.Err()))
	}
	c.State(1)
}

// groups runs whole groups by the driver alone.
func groups(c *lib.Ctx) {
	for n := 1; n <= c.Pick(4, 6); n++ {
		for t := 0; t < n; t++ {
			for _, ids := range []party.IDSlice{sim.Seq(n), sim.Spread(n)} {
				n, t, ids := n, t, ids
				if n == 1 {
					continue
				}
				c.Case(fmt.Sprintf("group %v t=%d", ids, t), func() {
					if t > 0 {
						group(c, sim.KeygenWorld(ids, t, "c29g"))
					}
					for _, s := range sim.Sub(ids, max(t+1, 2), n) {
						group(c, sim.SignWorld(sim.Deal(ids, t, "c29g"), s, []byte("text"), "c29g"))
					}
				})
			}
		}
	}
}

func group(c *lib.Ctx, w *sim.World) {
	want := w.Ready()
	in := map[party.ID][][]byte{}
	sess := map[party.ID]*sim.Sess{}
	for _, id := range w.IDs {
		sess[id] = w.Proto(id, 0).New()
	}
	for phase := 0; phase < 3; phase++ {
		next := map[party.ID][][]byte{}
		for _, id := range w.IDs {
			rnd.Use(sess[id].Rnd)
			out, err := helpers.PartyRoutine(in[id], sess[id].St)
			rnd.Use(nil)
			c.Check(err == nil, "%s: party %d, phase %d: %v", w.Name, id, phase, err)
			for _, b := range out {
				for _, to := range w.IDs {
					if to != id && (sim.To(b) == 0 || sim.To(b) == to) {
						next[to] = append(next[to], b)
					}
				}
			}
			c.Eval(1)
		}
		in = next
	}
	for _, id := range w.IDs {
		c.Check(sess[id].St.IsFinished() && sess[id].OutKey() != "" && sess[id].OutKey() == want.Sess[id].OutKey(), "%s: party %d has other results than when its session is used directly", w.Name, id)
	}
	c.Distinct("group", w.Name)
	c.Trace(1)
}

// ---- the dealer

func dealer(c *lib.Ctx) {
	ids := []party.ID{1, 2, 255, 256, 257, 32768, 65534, 65535}
	for n := 1; n <= 4; n++ {
		for _, set := range sim.IDSets(ids, n) {
			set := set
			c.Case(fmt.Sprintf("dealer %v", set), func() {
				for t := 0; t < len(set); t++ {
					deal(c, set, t)
					rev := party.IDSlice{}
					for i := range set {
						rev = append(rev, set[len(set)-1-i])
					}
					deal(c, rev, t)
				}
			})
		}
	}
	for _, n := range []int{7, 16, 17, 33, 40} {
		n := n
		c.Case(fmt.Sprintf("dealer of %d", n), func() {
			for _, t := range []int{0, 1, n / 2, n - 2, n - 1} {
				deal(c, sim.Spread(n), t)
			}
		})
	}
}

func deal(c *lib.Ctx, set party.IDSlice, t int) {
	where := fmt.Sprintf("dealer %v t=%d", set, t)
	given := set.Copy()
	copy(given, set)
	rnd.Use(rnd.New("c29 " + where))
	defer rnd.Use(nil)
	seen := map[string]bool{}
	for round := 0; round < 2; round++ {
		secret, shares := helpers.GenerateSecrets(given, party.Size(t))
		for i := range set {
			c.Check(given[i] == set[i], "%s: the set has been changed", where)
		}
		c.Check(len(shares) == len(set), "%s: %d shares", where, len(shares))
		x := map[uint16]*big.Int{}
		for _, id := range set {
			s := shares[id]
			c.Check(s != nil && s.ID == id, "%s: no share for %d", where, id)
			x[uint16(id)] = sim.Big(&s.Secret)
			c.Check(bytes.Equal(s.Public.Bytes(), sim.BaseEnc(x[uint16(id)])), "%s: the public share of %d does not belong to its secret share", where, id)
		}
		coeffs := interpolate(set[:t+1], x)
		c.Check(coeffs[0].Cmp(sim.Big(secret)) == 0, "%s: the shares are not shares of the returned secret", where)
		for _, id := range set {
			c.Check(ref.Eval(coeffs, ref.Int(int64(id))).Cmp(x[uint16(id)]) == 0, "%s: the share of %d is not on the polynomial of degree %d of the first shares", where, id, t)
		}
		for i, k := range coeffs {
			c.Check(!seen[k.String()] && k.Sign() != 0 && k.BitLen() > 200, "%s: coefficient %d is %x, which is not fresh", where, i, k)
			seen[k.String()] = true
		}
		pub := helpers.GeneratePublic(party.Size(t), shares)
		check := func(what string) {
			c.Check(int(pub.Threshold) == t && pub.PartyIDs.Equal(party.NewIDSlice(set)) && len(pub.Shares) == len(set), "%s: %s: wrong threshold or parties: %d %v", where, what, pub.Threshold, pub.PartyIDs)
			for _, id := range set {
				c.Check(pub.Shares[id] != nil && bytes.Equal(pub.Shares[id].Bytes(), sim.BaseEnc(x[uint16(id)])), "%s: %s: wrong public share of %d", where, what, id)
			}
			c.Check(bytes.Equal(pub.GroupKey.ToEd25519(), ref.BaseMul(coeffs[0]).EncodeEd()), "%s: %s: wrong group key", where, what)
		}
		check("public data")
		for _, s := range shares {
			c.Check(s.Equal(eddsa.NewSecretShare(s.ID, sim.Sc(x[uint16(s.ID)]))), "%s: making the public data changes a share", where)
			s.Public.Add(&s.Public, ristretto.NewGeneratorElement())
			s.Secret.Set(ristretto.NewScalar())
		}
		secret.Set(ristretto.NewScalar())
		check("public data after the shares have been overwritten")
		c.Eval(1)
	}
	c.Distinct(where)
	for _, bad := range []int{len(set), len(set) + 1, 65535} {
		p := lib.Catch(func() { helpers.GenerateSecrets(given, party.Size(bad)) })
		c.Check(p != nil, "%s: a threshold of %d for %d parties is accepted", where, bad, len(set))
	}
}

// interpolate returns the coefficients of the polynomial through the given points.
func interpolate(ids []party.ID, x map[uint16]*big.Int) []*big.Int {
	out := make([]*big.Int, len(ids))
	for i := range out {
		out[i] = new(big.Int)
	}
	for _, i := range ids {
		// prod (X - j) / (i - j)
		b := []*big.Int{big.NewInt(1)}
		den := big.NewInt(1)
		for _, j := range ids {
			if j == i {
				continue
			}
			nb := make([]*big.Int, len(b)+1)
			for k := range nb {
				nb[k] = new(big.Int)
			}
			for k := range b {
				nb[k+1] = ref.Add(nb[k+1], b[k])
				nb[k] = ref.Sub(nb[k], ref.Mul(b[k], ref.Int(int64(j))))
			}
			b = nb
			den = ref.Mul(den, ref.Sub(ref.Int(int64(i)), ref.Int(int64(j))))
		}
		f := ref.Mul(x[uint16(i)], ref.Inv(den))
		for k := range b {
			out[k] = ref.Add(out[k], ref.Mul(f, b[k]))
		}
	}
	return out
}
