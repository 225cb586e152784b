//go:build go1.21

package sim

import (
	"fmt"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
)

// BigWorld is a group of n parties as party number at sees it, with synthetic peers.
func BigWorld(keygen bool, n, t, at int, label string) (*World, party.ID) {
	var w *World
	if keygen {
		w = KeygenWorld(Spread(n), t, label)
	} else {
		all := Spread(n + 3)
		k := Deal(all, t, label)
		w = SignWorld(k, all[1:n+1], []byte("message"), label)
	}
	w.Name = fmt.Sprintf("%d parties t=%d keygen %v", n, t, keygen)
	i := w.IDs[at]
	w.Synthetic(i)
	return w, i
}

// Order is one way the 2(n-1) expected messages can arrive: positions in Honest(i), in which the first
// half are those of the first round.
type Order struct {
	Name string
	Seq  []int
}

// Orders lists systematic arrival orders for peers many peers.
func Orders(peers int) []Order {
	var up, down []int
	for k := 0; k < peers; k++ {
		up = append(up, k)
		down = append(down, peers-1-k)
	}
	shift := func(s []int) []int {
		var o []int
		for _, k := range s {
			o = append(o, k+peers)
		}
		return o
	}
	cat := func(parts ...[]int) []int {
		var o []int
		for _, p := range parts {
			o = append(o, p...)
		}
		return o
	}
	var zip, swap []int
	for k := 0; k < peers; k++ {
		zip = append(zip, k, k+peers)
		swap = append(swap, k+peers, k)
	}
	return []Order{
		{"first, second", cat(up, shift(up))},
		{"first backwards, second backwards", cat(down, shift(down))},
		{"second, first", cat(shift(up), up)},
		{"second backwards, first", cat(shift(down), up)},
		{"each party's first and second", zip},
		{"each party's second and first", swap},
		{"all but one first, second, last first", cat(up[1:], shift(up), up[:1])},
		{"one second, first, other second", cat(shift(up[peers-1:]), up, shift(down[1:]))},
	}
}

// Deliver makes a history: start, then the messages in order, with a processing step after every
// message (every) or only where one is needed, and the given events after message number k.
func (o Order) Deliver(every bool, extra func(k int) []Event) []Event {
	hist := []Event{{Kind: 'p'}}
	add := func(k int) {
		if extra != nil {
			hist = append(hist, extra(k)...)
		}
	}
	add(0)
	for k, x := range o.Seq {
		hist = append(hist, Event{Kind: 'd', I: x})
		if every || k == len(o.Seq)-1 || k == len(o.Seq)/2-1 {
			hist = append(hist, Event{Kind: 'p'})
		}
		add(k + 1)
	}
	return append(hist, Event{Kind: 'p'})
}

// BigGroups replays each systematic order for groups of the given sizes, with menu added to the honest
// messages and extra events (see Deliver); the session has to end as the model says.
func BigGroups(c *lib.Ctx, sizes []int, timeout time.Duration, menu func(w *World, i party.ID) []Msg, extra func(w *World, o Order, k, menu int) []Event) {
	for _, keygen := range []bool{true, false} {
		for _, n := range sizes {
			for _, at := range []int{0, n / 2, n - 1} {
				keygen, n, at := keygen, n, at
				c.Case(fmt.Sprintf("big/%d parties keygen %v/number %d", n, keygen, at), func() {
					w, i := BigWorld(keygen, n, 1+n/20, at, "big")
					h := w.Honest(i)
					for k := range h {
						h[k].After = 0
					}
					all := append([]Msg{}, h...)
					if menu != nil {
						all = append(all, menu(w, i)...)
					}
					e := &Explorer{C: c, P: w.Proto(i, timeout), Menu: all}
					for _, o := range Orders(n - 1) {
						for _, every := range []bool{false, true} {
							if c.Expired() {
								c.Cap("big groups")
								return
							}
							var ex func(k int) []Event
							if extra != nil {
								ex = func(k int) []Event { return extra(w, o, k, len(all)-len(h)) }
							}
							hist := o.Deliver(every, ex)
							s, m := e.Replay(hist)
							c.Eval(1)
							c.Trans(len(hist))
							c.Check(m.Done && !m.Err && s.OutKey() == m.Out, "%s, party %d: with arrival order %q the session ends with error %v, output %q", w.Name, i, o.Name, s.St.Err(), s.OutKey())
							c.Distinct(w.Name, i, o.Name, every)
						}
					}
				})
			}
		}
	}
}
