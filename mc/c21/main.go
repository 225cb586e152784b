//go:build go1.21

// C21: identifiers, identifier sets and Lagrange coefficients are exact.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/sim"
)

func main() {
	lib.Run(lib.Config{
		ID: "C21", Level: "exploration",
		Rule:   "all 65536 identifiers through scalar, byte, text, string and JSON forms; all texts of length <= 4 over an alphabet of digits, signs, blanks and letters, all numbers up to 70000, and boundary texts; all lists of length <= 4 over a 5-value alphabet (sorted, unsorted, with repetitions) for sorting, membership, subset, equality and copying; Lagrange coefficients of every member, non-member and 0 over all sets of size <= 4 from a 14-value alphabet, consecutive sets of every size, random-looking and unsorted lists, against big-integer arithmetic",
		Bounds: "as stated; sets up to 300 members (thorough 3000)",
	}, run)
}

func run(c *lib.Ctx) {
	const parts = 8
	for part := 0; part < parts; part++ {
		part := part
		c.Case(fmt.Sprintf("identifiers/part %d", part), func() {
			for v := part; v < 65536; v += parts {
				identifier(c, party.ID(v))
			}
			c.Distinct("ids", part)
			c.Sample("every %d-th identifier from %d", parts, part)
		})
	}
	c.Case("random identifiers", func() {
		n := 1 << 22
		for i := 0; i < n; i++ {
			if party.RandID() == 0 {
				c.Failf("RandID gives the invalid identifier 0")
			}
		}
		c.Eval(n)
		c.Distinct("random")
	})
	c.Case("numbers", func() {
		for v := 0; v <= 70000; v++ {
			text(c, strconv.Itoa(v))
		}
		for _, e := range []uint{16, 17, 31, 32, 33, 48, 63, 64, 65, 128} {
			for d := int64(-3); d <= 3; d++ {
				x := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), e), big.NewInt(d))
				text(c, x.String())
				text(c, "-"+x.String())
			}
		}
		for _, v := range []int{0, 1, 7, 65535, 65536} {
			for z := 1; z < 25; z++ {
				text(c, fmt.Sprintf("%0*d", z, v))
			}
		}
	})
	alpha := []string{"0", "1", "6", "9", "-", "+", " ", "_", ".", "e", "x", "a", "\n", "\x00", "٣"}
	for i := range alpha {
		i := i
		c.Case(fmt.Sprintf("texts/%q", alpha[i]), func() {
			for n := 0; n <= 3; n++ {
				sizes := make([]int, n)
				for k := range sizes {
					sizes[k] = len(alpha)
				}
				lib.Tuples(sizes, func(t []int) {
					s := alpha[i]
					for _, k := range t {
						s += alpha[k]
					}
					text(c, s)
				})
			}
			if i == 0 {
				text(c, "")
			}
		})
	}
	c.Case("bytes", func() {
		for n := 0; n < 2; n++ {
			_, err := party.FromBytes(make([]byte, n))
			c.Check(err != nil, "FromBytes accepts %d bytes", n)
		}
		_, err := party.FromBytes(nil)
		c.Check(err != nil, "FromBytes accepts nil")
		for n := 3; n < 40; n++ {
			b := bytes.Repeat([]byte{0xab}, n)
			b[0], b[1] = 3, 4
			id, err := party.FromBytes(b)
			c.Check(err == nil && id == 0x304, "FromBytes of %d bytes gives %d, %v", n, id, err)
		}
		c.Eval(40)
	})
	// lists
	alphabet := []party.ID{0, 1, 2, 256, 65535}
	for n := 0; n <= 4; n++ {
		sizes := make([]int, n)
		for k := range sizes {
			sizes[k] = len(alphabet)
		}
		first := 1
		if n > 0 {
			first = len(alphabet)
		}
		for f := 0; f < first; f++ {
			n, f := n, f
			c.Case(fmt.Sprintf("lists/length %d first %d", n, f), func() {
				lib.Tuples(sizes, func(t []int) {
					if n > 0 && t[0] != f {
						return
					}
					var l []party.ID
					for _, k := range t {
						l = append(l, alphabet[k])
					}
					list(c, l, alphabet)
				})
			})
		}
	}
	c.Case("comparisons", func() {
		var sets []party.IDSlice
		for n := 0; n <= 4; n++ {
			sets = append(sets, sim.IDSets([]party.ID{1, 2, 255, 256, 65535}, n)...)
		}
		in := func(s party.IDSlice, id party.ID) bool {
			for _, x := range s {
				if x == id {
					return true
				}
			}
			return false
		}
		for _, a := range sets {
			for _, b := range sets {
				sub, eq := true, len(a) == len(b)
				for i := range a {
					sub = sub && in(b, a[i])
					eq = eq && i < len(b) && a[i] == b[i]
				}
				c.Check(a.IsSubsetOf(b) == sub, "%v subset of %v: %v", a, b, !sub)
				c.Check(a.Equal(b) == eq, "%v equal to %v: %v", a, b, !eq)
				c.Eval(1)
				c.Distinct("cmp", a, b)
			}
		}
	})
	// large lists: membership of every identifier
	for _, n := range []int{100, 255, 256, 257, 1000, 65535} {
		n := n
		c.Case(fmt.Sprintf("membership/%d", n), func() {
			s := sim.Spread(n)
			if n == 65535 {
				s = sim.Seq(n)
			}
			has := map[party.ID]bool{}
			for _, id := range s {
				has[id] = true
			}
			c.Check(int(s.N()) == n, "N of %d members is %d", n, s.N())
			for v := 0; v < 65536; v++ {
				c.Check(s.Contains(party.ID(v)) == has[party.ID(v)], "membership of %d in a set of %d: %v", v, n, !has[party.ID(v)])
			}
			c.Eval(65536)
			r := append(party.IDSlice(nil), s...)
			for i := range r {
				j := (i * 7919) % n
				r[i], r[j] = r[j], r[i]
			}
			c.Check(party.NewIDSlice(r).Equal(s), "sorting %d identifiers", n)
		})
	}
	for _, n := range []int{0, 1, 2, 3, 255, 256, 257, 32767, 32768, 65534, 65535} {
		n := n
		c.Case(fmt.Sprintf("party lists/%d", n), func() {
			for name, f := range map[string]func(party.Size) party.IDSlice{"NewPartySlice": helpers.NewPartySlice, "GenerateSet": helpers.GenerateSet} {
				ch := make(chan party.IDSlice, 1)
				go func() { ch <- f(party.Size(n)) }()
				select {
				case s := <-ch:
					ok := len(s) == n
					for i := range s {
						ok = ok && int(s[i]) == i+1
					}
					c.Check(ok, "%s(%d) gives %d identifiers", name, n, len(s))
				case <-time.After(20 * time.Second):
					c.Failf("%s(%d) does not return", name, n)
				}
			}
			c.Eval(2)
		})
	}
	// Lagrange
	for n := 1; n <= 4; n++ {
		sets := sim.IDSets(sim.IDAlphabet, n)
		for i := 0; i < len(sets); i += 91 {
			n, i := n, i
			c.Case(fmt.Sprintf("lagrange/size %d from %d", n, i), func() {
				for j := i; j < i+91 && j < len(sets); j++ {
					lagrange(c, sets[j], sim.IDAlphabet)
				}
				c.Sample("Lagrange coefficients over %v..", sets[i])
			})
		}
	}
	sizes := []int{5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 300}
	if !c.Quick() {
		sizes = append(sizes, 1000, 3000)
	}
	for _, n := range sizes {
		n := n
		c.Case(fmt.Sprintf("lagrange/%d members", n), func() {
			for _, s := range []party.IDSlice{sim.Seq(n), sim.Spread(n)} {
				who := []party.ID{s[0], s[n/2], s[n-1]}
				if n <= 33 {
					who = s
				}
				lagrange(c, s, append(party.IDSlice{0, 40001}, who...))
				// any order of the list
				r := append(party.IDSlice(nil), s...)
				for i := range r {
					j := (i * 31) % n
					r[i], r[j] = r[j], r[i]
				}
				lagrange(c, r, who)
			}
		})
	}
	// 0 in the list: either an error or the exact value, which is 0
	c.Case("lagrange/0 in the list", func() {
		for n := 1; n <= 3; n++ {
			for _, s := range sim.IDSets(sim.IDAlphabet[:6], n) {
				l := append(party.IDSlice{0}, s...)
				for _, id := range s {
					x, err := id.Lagrange(l)
					c.Check(err != nil || sim.Big(x).Sign() == 0, "coefficient of %d in %v is %v", id, l, x)
				}
				_, err := party.ID(0).Lagrange(l)
				c.Check(err != nil, "identifier 0 has a coefficient in %v", l)
				c.Eval(n + 1)
			}
		}
	})
}

func identifier(c *lib.Ctx, id party.ID) {
	c.Eval(1)
	c.Check(sim.Big(id.Scalar()).Cmp(big.NewInt(int64(id))) == 0, "identifier %d has scalar %x", id, id.Scalar().Bytes())
	b := id.Bytes()
	c.Check(len(b) == party.IDByteSize && b[0] == byte(id>>8) && b[1] == byte(id), "identifier %d has bytes %x", id, b)
	back, err := party.FromBytes(b)
	c.Check(err == nil && back == id, "identifier %d comes back from bytes as %d, %v", id, back, err)
	b[0] ^= 0xff
	c.Check(id.Bytes()[0] == byte(id>>8), "identifier %d: bytes are shared", id)
	s := strconv.Itoa(int(id))
	t, err := id.MarshalText()
	c.Check(err == nil && string(t) == s && id.String() == s, "identifier %d has text %q, %q", id, t, id.String())
	var x party.ID = id ^ 0x5555
	c.Check(x.UnmarshalText(t) == nil && x == id, "identifier %d comes back from text as %d", id, x)
	j, err := json.Marshal(map[party.ID]party.ID{id: id})
	var m map[party.ID]party.ID
	c.Check(err == nil && json.Unmarshal(j, &m) == nil && len(m) == 1, "identifier %d in JSON: %s", id, j)
	v, ok := m[id]
	c.Check(ok && v == id, "identifier %d comes back from %s as %v", id, j, m)
}

// text is accepted exactly if it is a decimal number of 16 bits.
func text(c *lib.Ctx, s string) {
	c.Eval(1)
	want, ok := 0, s != ""
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			ok = false
			break
		}
		if want < 1<<20 {
			want = want*10 + int(s[i]-'0')
		}
	}
	ok = ok && want < 65536
	x := party.ID(0x1234)
	err := x.UnmarshalText([]byte(s))
	c.Check((err == nil) == ok, "text %q: error %v", s, err)
	if ok {
		c.Check(int(x) == want, "text %q is read as %d", s, x)
	} else {
		c.Check(x == 0x1234, "refused text %q changes the identifier to %d", s, x)
	}
	c.Distinct("text", s)
}

func list(c *lib.Ctx, l []party.ID, alphabet []party.ID) {
	c.Eval(1)
	c.Distinct("list", l)
	in := append([]party.ID(nil), l...)
	s := party.NewIDSlice(in)
	same := func(a []party.ID) bool {
		if len(a) != len(l) {
			return false
		}
		for i := range a {
			if a[i] != l[i] {
				return false
			}
		}
		return true
	}
	c.Check(same(in), "NewIDSlice(%v) changes its argument to %v", l, in)
	count := map[party.ID]int{}
	for i, id := range s {
		count[id]++
		c.Check(i == 0 || s[i-1] <= id, "NewIDSlice(%v) is %v", l, s)
	}
	for _, id := range l {
		count[id]--
	}
	for id, n := range count {
		c.Check(n == 0, "NewIDSlice(%v) is %v: count of %d is off", l, s, id)
	}
	c.Check(int(s.N()) == len(l), "N of %v is %d", s, s.N())
	for _, id := range append([]party.ID{3, 255, 257, 65534}, alphabet...) {
		want := false
		for _, x := range l {
			want = want || x == id
		}
		c.Check(s.Contains(id) == want, "%v contains %d: %v", s, id, !want)
	}
	for i := range in {
		in[i] = 77
	}
	for _, id := range s {
		c.Check(id != 77, "NewIDSlice(%v) shares its argument", l)
	}
	cp := s.Copy()
	c.Check(cp.Equal(s) && s.Equal(cp), "copy of %v is %v", s, cp)
	for i := range cp {
		cp[i] = 78
	}
	for _, id := range s {
		c.Check(id != 78, "a copy of %v shares its members", l)
	}
}

func lagrange(c *lib.Ctx, s party.IDSlice, who []party.ID) {
	before := append(party.IDSlice(nil), s...)
	for _, id := range who {
		member := false
		for _, x := range s {
			member = member || x == id
		}
		x, err := id.Lagrange(s)
		c.Eval(1)
		if !member || id == 0 {
			c.Check(err != nil, "identifier %d has coefficient %v in %v", id, x, s)
			continue
		}
		if err != nil {
			c.Failf("coefficient of %d in %v: %v", id, s, err)
		}
		want := ref.Lagrange(uint16(id), sim.U(s))
		c.Check(sim.Big(x).Cmp(want) == 0, "coefficient of %d in %v is %v, expected %v", id, s, sim.Big(x), want)
		c.Distinct("lagrange", id, s)
	}
	c.Check(before.Equal(s), "Lagrange changes %v to %v", before, s)
}
