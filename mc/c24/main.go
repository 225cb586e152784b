//go:build go1.21

// C24: the command-line tools, as built from cmd/, produce keys and signatures that work.
package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/ref"
)

func main() {
	if os.Getenv("VERIF_C24") != "" {
		limited()
		return
	}
	lib.Run(lib.Config{
		ID: "C24", Level: "fault_enumeration",
		Rule:        "the real keygen and signer programs are run in a scratch directory on every (t, n) in the bound, every pair of parameters of an alphabet of numerals (negative, zero, too large, wrapping modulo 2^16, 2^32 and 2^64, malformed) and every message of an alphabet; the file size at which writing fails is every value from 0 to the size of the file, and every other way of failing; a key file is truncated at every byte, has every byte deleted or replaced, and every JSON value replaced, removed or exchanged. Success (or exit status 0) of keygen needs a key file that is a t-of-n sharing of the printed key in reference arithmetic and from which signer signs; success of signer needs a printed signature that standard Ed25519 accepts for the message under the key that keygen printed",
		Bounds:      "n to 9 (thorough 20) with every t, and selected t for n to 100; 46 numerals; all one-byte messages and all blank-like affixes; key files of 2 and 3 parties",
		HangSeconds: 300,
	}, run)
}

// limited runs a tool under a resource limit: VERIF_C24 is "fsize N" or "nofile N".
func limited() {
	f := strings.Fields(os.Getenv("VERIF_C24"))
	n, _ := strconv.ParseUint(f[1], 10, 64)
	what := syscall.RLIMIT_NOFILE
	if f[0] == "fsize" {
		what = syscall.RLIMIT_FSIZE
	}
	args := os.Args[1:]
	env := []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}
	if err := syscall.Setrlimit(what, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
		os.Exit(97)
	}
	syscall.Exec(args[0], args, env)
	os.Exit(98)
}

func tool(name string) string { return filepath.Join(os.Getenv("VERIF_WORK"), name) }

const keyFile = "keygenout.json"

type res struct {
	out     string
	code    int
	timeout bool
}

func (r res) success() bool { return r.code == 0 || strings.Contains(r.out, "Success") }

func (r res) String() string {
	s := r.out
	if len(s) > 300 {
		s = s[:150] + " ... " + s[len(s)-150:]
	}
	return fmt.Sprintf("exit status %d, output %q", r.code, s)
}

// exe runs a program in dir and returns what it printed.
func exe(c *lib.Ctx, limit time.Duration, dir, env string, args ...string) res {
	var buf bytes.Buffer
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "VERIF_C24=" + env}
	if env == "" {
		cmd.Env = cmd.Env[:2]
	}
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic("cannot start " + args[0] + ": " + err.Error())
	}
	late := time.AfterFunc(limit, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	r := res{out: buf.String()}
	if !late.Stop() {
		r.timeout = true
	}
	if err != nil {
		r.code = cmd.ProcessState.ExitCode()
		if r.code == 0 {
			r.code = -1
		}
	}
	c.Check(!strings.Contains(r.out, "goroutine 1 ["), "%s crashes: %q", filepath.Base(args[0]), firstLines(r.out))
	c.Eval(1)
	c.Beat()
	return r
}

func firstLines(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func keygen(c *lib.Ctx, dir, t, n string) res {
	return exe(c, 240*time.Second, dir, "", tool("keygen"), t, n)
}

func signer(c *lib.Ctx, dir, file, msg string) res {
	return exe(c, 100*time.Second, dir, "", tool("signer"), file, msg)
}

var (
	keyRE = regexp.MustCompile(`(?i)group key:\s*([0-9a-f]{64})\b`)
	sigRE = regexp.MustCompile(`(?i)\br:\s*([0-9a-f]{64})\s*s:\s*([0-9a-f]{64})\b`)
)

func printedKey(out string) (ed25519.PublicKey, bool) {
	m := keyRE.FindStringSubmatch(out)
	if m == nil {
		return nil, false
	}
	b, _ := hex.DecodeString(m[1])
	return b, true
}

// judge decides what an invocation of signer says: whether it claims success, rightly.
func judge(c *lib.Ctx, what string, r res, key ed25519.PublicKey, msg []byte) bool {
	if !r.success() {
		return false
	}
	m := sigRE.FindStringSubmatch(r.out)
	c.Check(m != nil, "%s: signer reports success without a signature: %s", what, r)
	sig, _ := hex.DecodeString(m[1] + m[2])
	c.Check(ed25519.Verify(key, msg, sig), "%s: signer reports success, but the signature it prints is not one for the message under the printed group key: %s", what, r)
	c.Trace(1)
	return true
}

// want requires that signer succeeds.
func want(c *lib.Ctx, what, dir string, key ed25519.PublicKey, msg string) {
	r := signer(c, dir, keyFile, msg)
	c.Check(!r.timeout, "%s: signer does not end", what)
	c.Check(judge(c, what, r, key, []byte(msg)), "%s: signer fails on the key file that keygen wrote: %s", what, r)
	c.Check(r.code == 0 && strings.Contains(r.out, "Success"), "%s: signer does not report success: %s", what, r)
}

type stored struct {
	Secrets map[string]struct {
		ID     int    `json:"id"`
		Secret string `json:"secret"`
	}
	Shares struct {
		T        int               `json:"t"`
		GroupKey string            `json:"groupkey"`
		Shares   map[string]string `json:"shares"`
	}
}

// structure checks the key file itself, if it is in the form known here: it must be a sharing with
// threshold exactly t among parties 1 to n of the printed key.
func structure(c *lib.Ctx, what string, file []byte, key ed25519.PublicKey, t, n int) {
	var s stored
	if json.Unmarshal(file, &s) != nil || len(s.Secrets) == 0 || len(s.Shares.Shares) == 0 {
		c.Note("key files in an unknown form", 1)
		return
	}
	c.Check(s.Shares.T == t, "%s: the key file has threshold %d", what, s.Shares.T)
	c.Check(len(s.Secrets) == n && len(s.Shares.Shares) == n, "%s: the key file has %d secrets and %d shares", what, len(s.Secrets), len(s.Shares.Shares))
	vals := map[uint16]*big.Int{}
	for i := 1; i <= n; i++ {
		k := strconv.Itoa(i)
		b, err := base64.StdEncoding.DecodeString(s.Secrets[k].Secret)
		c.Check(err == nil && len(b) == 32 && s.Secrets[k].ID == i, "%s: no secret of party %d", what, i)
		vals[uint16(i)] = ref.FromLE(b)
		pub, err := base64.StdEncoding.DecodeString(s.Shares.Shares[k])
		c.Check(err == nil && bytes.Equal(pub, ref.BaseMul(vals[uint16(i)]).EncodeRistretto()), "%s: the public share of party %d does not belong to its secret", what, i)
	}
	sub := func(from, k int) *big.Int {
		m := map[uint16]*big.Int{}
		for i := 0; i < k; i++ {
			id := uint16(1 + (from+i)%n)
			m[id] = vals[id]
		}
		return ref.Interpolate0(m)
	}
	for from := 0; from < n; from++ {
		c.Check(bytes.Equal(ref.BaseMul(sub(from, t+1)).EncodeEd(), key), "%s: %d shares from party %d on are not a sharing of the printed key", what, t+1, from+1)
		c.Check(!bytes.Equal(ref.BaseMul(sub(from, t)).EncodeEd(), key), "%s: %d shares from party %d on are enough for the printed key", what, t, from+1)
	}
}

// key judges an invocation of keygen that reports success.
func key(c *lib.Ctx, what, dir string, r res, t, n int) ed25519.PublicKey {
	file, err := os.ReadFile(filepath.Join(dir, keyFile))
	c.Check(err == nil, "%s: keygen reports success without a key file: %s", what, r)
	k, ok := printedKey(r.out)
	c.Check(ok, "%s: keygen reports success without a group key: %s", what, r)
	structure(c, what, file, k, t, n)
	return k
}

// fresh runs keygen in a new directory; it must succeed.
func fresh(c *lib.Ctx, t, n int) (dir string, k ed25519.PublicKey, file []byte) {
	dir = scratch()
	what := fmt.Sprintf("keygen %d %d", t, n)
	r := keygen(c, dir, strconv.Itoa(t), strconv.Itoa(n))
	c.Check(!r.timeout, "%s does not end", what)
	c.Check(r.code == 0 && strings.Contains(r.out, "Success"), "%s does not report success: %s", what, r)
	k = key(c, what, dir, r, t, n)
	file, _ = os.ReadFile(filepath.Join(dir, keyFile))
	return
}

func scratch() string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "run")
	if err != nil {
		panic(err)
	}
	return d
}

func run(c *lib.Ctx) {
	configurations(c)
	parameters(c)
	argCounts(c)
	writing(c)
	messages(c)
	altered(c)
	mixed(c)
}

func configurations(c *lib.Ctx) {
	type tn struct{ t, n int }
	var list []tn
	big := []tn{{98, 99}, {1, 99}, {1, 64}, {30, 48}, {31, 32}, {16, 33}}
	if !c.Quick() {
		for _, n := range []int{32, 33, 63, 64, 65, 99, 100} {
			for _, t := range []int{1, 2, n / 2, n - 2, n - 1} {
				big = append(big, tn{t, n})
			}
		}
	}
	list = append(list, big...)
	for n := 2; n <= c.Pick(9, 20); n++ {
		for t := 1; t < n; t++ {
			list = append(list, tn{t, n})
		}
	}
	for _, x := range list {
		t, n := x.t, x.n
		if t == 1 || t == n-1 {
			c.Distinct("edge", t, n)
		}
		c.Case(fmt.Sprintf("keygen %d %d", t, n), func() {
			runs := 1
			if n <= 9 {
				runs = 4
			}
			for i := 0; i < runs; i++ {
				dir, k, _ := fresh(c, t, n)
				want(c, fmt.Sprintf("(%d, %d)", t, n), dir, k, "message")
				os.RemoveAll(dir)
			}
			c.Distinct("config", t, n)
		})
	}
}

func numerals() []string {
	return []string{"", " ", "a", "-", "+", "0", "-0", "+0", "00", "1", "2", "3", "4", "-1", "-2", "-3", "-4", "101", "127", "255", "256", "257", "258", "65535", "65536", "65537", "65538", "65539", "131073", "131074", "-65533", "-65534", "-65535", "-65536", "-131071", "2147483647", "2147483649", "4294967297", "4294967298", "9223372036854775807", "-9223372036854775806", "18446744073709551617", "18446744073709551618", "2.0", "1e0", "0x2", "1_0", "2 ", " 2", "\t1", "1\n", "02", "+2", "nil", "--help"}
}

// value reads a numeral as liberally as anyone might.
func value(s string) *big.Int {
	v, ok := new(big.Int).SetString(strings.TrimSpace(s), 10)
	if !ok {
		return nil
	}
	return v
}

// parameters runs all pairs of numerals. Only canonical decimals in range must work; what is out of
// range in every reading must write nothing.
func parameters(c *lib.Ctx) {
	for _, t := range numerals() {
		for _, n := range numerals() {
			t, n := t, n
			c.Case(fmt.Sprintf("keygen %q %q", t, n), func() {
				dir := scratch()
				defer os.RemoveAll(dir)
				what := fmt.Sprintf("keygen %q %q", t, n)
				tv, nv := value(t), value(n)
				valid := tv != nil && nv != nil && tv.Sign() > 0 && tv.Cmp(nv) < 0 && nv.Cmp(big.NewInt(100)) <= 0
				for _, old := range []string{"", "old"} {
					path := filepath.Join(dir, keyFile)
					if old != "" {
						if err := os.WriteFile(path, []byte(old), 0o600); err != nil {
							panic(err)
						}
					}
					r := exe(c, 20*time.Second, dir, "", tool("keygen"), t, n)
					c.Distinct(t, n, old)
					if !valid {
						c.Check(!r.timeout, "%s: still running after 20 seconds", what)
						c.Check(!r.success(), "%s reports success: %s", what, r)
						c.Check(contents(dir) == old, "%s writes a file", what)
						continue
					}
					if tv.String() == t && nv.String() == n {
						c.Check(r.code == 0 && strings.Contains(r.out, "Success"), "%s does not report success: %s", what, r)
					}
					if r.success() {
						k := key(c, what, dir, r, int(tv.Int64()), int(nv.Int64()))
						want(c, what, dir, k, "m")
						os.Remove(path)
					} else {
						c.Check(contents(dir) == old, "%s fails and writes a file", what)
					}
				}
			})
		}
	}
}

// contents describes all files of a directory; "" if there is none, else the content of the key file.
func contents(dir string) string {
	es, err := os.ReadDir(dir)
	if err != nil {
		return "unreadable"
	}
	var out []string
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		if e.Name() == keyFile && len(es) == 1 {
			return string(b)
		}
		out = append(out, e.Name())
	}
	return strings.Join(out, ",")
}

func argCounts(c *lib.Ctx) {
	for i, args := range [][]string{{}, {"1"}, {"2"}, {"1", "2", "3"}, {"1", "3", ""}, {"1", "3", "3"}, {"2", "3", "--", "4"}, {""}, {"-h"}, {"1", "2", "1", "2"}} {
		args := args
		c.Case(fmt.Sprintf("keygen arguments %d", i), func() {
			dir := scratch()
			defer os.RemoveAll(dir)
			r := exe(c, 20*time.Second, dir, "", append([]string{tool("keygen")}, args...)...)
			c.Check(!r.timeout && !r.success(), "keygen %q reports success: %s", args, r)
			c.Check(contents(dir) == "", "keygen %q writes a file", args)
			c.Distinct("args", i)
		})
	}
	for i, args := range [][]string{{}, {keyFile}, {keyFile, "m", "x"}, {"m"}, {keyFile, "m", ""}, {"", "m"}, {".", "m"}, {"nosuchfile", "m"}, {"/dev/null", "m"}, {"m", keyFile}, {"/", "m"}} {
		args := args
		c.Case(fmt.Sprintf("signer arguments %d", i), func() {
			dir, k, _ := fresh(c, 1, 2)
			defer os.RemoveAll(dir)
			r := exe(c, 20*time.Second, dir, "", append([]string{tool("signer")}, args...)...)
			c.Check(!r.timeout && !judge(c, fmt.Sprintf("signer %q", args), r, k, []byte("m")), "signer %q reports success: %s", args, r)
			c.Distinct("sargs", i)
		})
	}
}

// writing makes writing the key file fail in every way.
func writing(c *lib.Ctx) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	for _, x := range [][2]int{{1, 2}, {1, 3}, {2, 3}} {
		t, n := x[0], x[1]
		st, sn := strconv.Itoa(t), strconv.Itoa(n)
		size := 210 + 175*n // a little more than the file has
		if c.Quick() && n == 3 && t == 2 {
			continue
		}
		for lo := 0; lo <= size; lo += 16 {
			lo := lo
			c.Case(fmt.Sprintf("keygen %d %d, file size limited to %d", t, n, lo), func() {
				for l := lo; l < lo+16; l++ {
					for _, old := range []int{-1, 0, 4096} {
						dir := scratch()
						if old >= 0 {
							os.WriteFile(filepath.Join(dir, keyFile), bytes.Repeat([]byte("x"), old), 0o600)
						}
						r := exe(c, 100*time.Second, dir, fmt.Sprintf("fsize %d", l), self, tool("keygen"), st, sn)
						what := fmt.Sprintf("keygen %d %d with file size limited to %d, old file of size %d", t, n, l, old)
						c.Check(r.code != 97 && r.code != 98, "harness: limit not set")
						if r.success() {
							k := key(c, what, dir, r, t, n)
							want(c, what, dir, k, "m")
						}
						c.Distinct("fsize", t, n, l, old)
						os.RemoveAll(dir)
					}
				}
			})
		}
		type way struct {
			name   string
			before func(dir string)
			args   func() []string
			env    string
			silent bool // nothing printed is seen
			must   bool // has to succeed
		}
		plain := func() []string { return []string{tool("keygen"), st, sn} }
		sh := func(script string) func() []string {
			return func() []string { return []string{"/bin/sh", "-c", script, "sh", tool("keygen"), st, sn} }
		}
		link := func(to string) func(string) {
			return func(d string) { os.Symlink(to, filepath.Join(d, keyFile)) }
		}
		old := func(n int) func(string) {
			return func(d string) { os.WriteFile(filepath.Join(d, keyFile), bytes.Repeat([]byte("}"), n), 0o600) }
		}
		ways := []way{
			{name: "directory in its place", before: func(d string) { os.Mkdir(filepath.Join(d, keyFile), 0o700) }, args: plain},
			{name: "full device", before: link("/dev/full"), args: plain},
			{name: "link to itself", before: link(keyFile), args: plain},
			{name: "link into a missing directory", before: link("missing/file"), args: plain},
			{name: "link to a missing file", before: link("other"), args: plain, must: true},
			{name: "long old file", before: old(10000), args: plain, must: true},
			{name: "short old file", before: old(3), args: plain, must: true},
			{name: "empty old file", before: old(0), args: plain, must: true},
			{name: "directory removed", args: sh(`rmdir "$PWD"; exec "$@"`)},
			{name: "output closed", args: sh(`exec "$@" >&- `), silent: true},
			{name: "output full", args: sh(`exec "$@" >/dev/full`), silent: true},
			{name: "input closed", args: sh(`exec "$@" <&-`), must: true},
		}
		for l := 0; l < 12; l++ {
			ways = append(ways, way{name: fmt.Sprintf("%d files may be open", l), args: func() []string { return append([]string{self}, plain()...) }, env: fmt.Sprintf("nofile %d", l)})
		}
		for _, w := range ways {
			w := w
			c.Case(fmt.Sprintf("keygen %d %d, %s", t, n, w.name), func() {
				dir := scratch()
				defer os.RemoveAll(dir)
				if w.before != nil {
					w.before(dir)
				}
				r := exe(c, 100*time.Second, dir, w.env, w.args()...)
				what := fmt.Sprintf("keygen %d %d, %s", t, n, w.name)
				c.Check(!w.must || r.code == 0 && strings.Contains(r.out, "Success"), "%s, does not report success: %s", what, r)
				c.Distinct("way", t, n, w.name)
				if !r.success() {
					return
				}
				if !w.silent {
					k := key(c, what, dir, r, t, n)
					want(c, what, dir, k, "m")
					return
				}
				// the key is not seen: the file must be good for signing under its own key
				file, err := os.ReadFile(filepath.Join(dir, keyFile))
				c.Check(err == nil, "%s, exits with status 0 without a key file", what)
				var s stored
				if json.Unmarshal(file, &s) == nil {
					b, _ := base64.StdEncoding.DecodeString(s.Shares.GroupKey)
					p, ok := ref.DecodeRistretto(b)
					c.Check(ok, "%s, exits with status 0 and the key file is not usable", what)
					k := ed25519.PublicKey(p.Clean().EncodeEd())
					structure(c, what, file, k, t, n)
					want(c, what, dir, k, "m")
				}
			})
		}
	}
}

func texts(c *lib.Ctx) []string {
	out := []string{""}
	for b := 1; b < 256; b++ {
		out = append(out, string([]byte{byte(b)}))
	}
	blanks := []string{" ", "\t", "\n", "\r", "\r\n", "\v", "\f", "\u00a0", "\u2028", "\u3000", "\ufeff", "\u0085", "\"", "'", "\\", "%", "-", "--", "@", "0x", "\x7f", "\xff", "\xc3"}
	for _, b := range blanks {
		out = append(out, b+b, b+"m", "m"+b, b+"m"+b, "m"+b+"m", b+" m", "m "+b)
	}
	out = append(out, "%d", "%s%n", "%x", "%%", "-h", "--help", "-", "@keygenout.json", "keygenout.json", "/dev/null", "0x41", "41", "QQ==", `"m"`, "{}", "null", "m\\n", "é", "e\u0301", "\u212b", "MESSAGE", "message", "ＭＥＳＳＡＧＥ", "\U0001F600", "\xed\xa0\x80", "a\xffb", "1,2,3", "=", "--msg=a")
	for _, n := range []int{2, 15, 16, 31, 32, 33, 55, 56, 63, 64, 65, 79, 80, 111, 112, 127, 128, 129, 191, 192, 255, 256, 257, 511, 512, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 131071} {
		out = append(out, strings.Repeat("m", n), strings.Repeat("\xff", n-1)+"m")
	}
	if !c.Quick() {
		for n := 2; n < 1200; n++ {
			out = append(out, strings.Repeat("y", n))
		}
		for a := 1; a < 256; a += 2 {
			for _, b := range []byte{1, 9, 10, 13, 32, 39, 92, 97, 128, 194, 226, 255} {
				out = append(out, string([]byte{byte(a), b}))
			}
		}
	}
	return out
}

func messages(c *lib.Ctx) {
	list := texts(c)
	for _, x := range [][2]int{{1, 2}, {2, 4}} {
		t, n := x[0], x[1]
		for lo := 0; lo < len(list); lo += 20 {
			lo := lo
			c.Case(fmt.Sprintf("(%d, %d), messages from %d", t, n, lo), func() {
				dir, k, _ := fresh(c, t, n)
				defer os.RemoveAll(dir)
				for i := lo; i < lo+20 && i < len(list); i++ {
					m := list[i]
					short := m
					if len(short) > 20 {
						short = fmt.Sprintf("%s... of %d bytes", short[:20], len(m))
					}
					want(c, fmt.Sprintf("(%d, %d), message %q", t, n, short), dir, k, m)
					c.Distinct("message", t, n, i)
				}
			})
		}
	}
}

// node is a place in a JSON tree.
type node struct {
	path string
	get  func() interface{}
	set  func(interface{})
	del  func()
}

func nodes(v interface{}, path string, set func(interface{}), del func(), f func(node)) {
	if set != nil {
		f(node{path, func() interface{} { return v }, set, del})
	}
	if m, ok := v.(map[string]interface{}); ok {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			k := k
			nodes(m[k], path+"/"+k, func(x interface{}) { m[k] = x }, func() { delete(m, k) }, f)
		}
	}
}

func tree(file []byte) (interface{}, []node) {
	var v interface{}
	d := json.NewDecoder(bytes.NewReader(file))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return nil, nil
	}
	var ns []node
	nodes(v, "", nil, nil, func(n node) { ns = append(ns, n) })
	return v, ns
}

// altered gives signer damaged key files.
func altered(c *lib.Ctx) {
	for _, x := range [][2]int{{1, 2}, {1, 3}, {2, 3}} {
		t, n := x[0], x[1]
		try := func(what, dir string, k ed25519.PublicKey, file []byte) {
			if err := os.WriteFile(filepath.Join(dir, keyFile), file, 0o600); err != nil {
				panic(err)
			}
			r := signer(c, dir, keyFile, "m")
			c.Check(!r.timeout, "(%d, %d), %s: signer does not end", t, n, what)
			if judge(c, fmt.Sprintf("(%d, %d), %s", t, n, what), r, k, []byte("m")) {
				c.Note("harmless alterations", 1)
			}
			c.Distinct("altered", t, n, what)
		}
		if n == 3 && t == 1 || !c.Quick() {
			size := 300 + 175*n
			for lo := 0; lo < size; lo += 16 {
				lo := lo
				c.Case(fmt.Sprintf("(%d, %d), key file altered from byte %d", t, n, lo), func() {
					dir, k, file := fresh(c, t, n)
					defer os.RemoveAll(dir)
					c.Check(len(file) < size, "harness: key file of %d bytes", len(file))
					for i := lo; i < lo+16 && i < len(file); i++ {
						try(fmt.Sprintf("truncated at byte %d", i), dir, k, file[:i])
						try(fmt.Sprintf("without byte %d", i), dir, k, append(append([]byte{}, file[:i]...), file[i+1:]...))
						for _, b := range []byte{'0', '1', '2', 'A', '/', '"', '}', ',', ' ', file[i] ^ 1, file[i] ^ 0x20, file[i] ^ 0x80} {
							if b == file[i] {
								continue
							}
							f := append([]byte{}, file...)
							f[i] = b
							try(fmt.Sprintf("byte %d replaced by %q", i, b), dir, k, f)
						}
						if i+1 < len(file) {
							f := append([]byte{}, file...)
							f[i], f[i+1] = f[i+1], f[i]
							try(fmt.Sprintf("bytes %d and %d exchanged", i, i+1), dir, k, f)
						}
					}
				})
			}
		}
		values := []interface{}{nil, true, 0, 1, 2, 3, 4, -1, 65536, 65537, "", "1", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=", "AQAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=", "7dP1XBpjEljWnPei3vneFAAAAAAAAAAAAAAAAAAAABA=", "4vKuCmq8TnGohKlhxQBRX1jjC2qlgt2NtqZZRed7LQ==", map[string]interface{}{}, []interface{}{}}
		count := 4*n + 5
		for j := 0; j <= count; j++ {
			j := j
			c.Case(fmt.Sprintf("(%d, %d), key file with value %d altered", t, n, j), func() {
				dir, k, file := fresh(c, t, n)
				defer os.RemoveAll(dir)
				_, ns := tree(file)
				if j >= len(ns) {
					return
				}
				c.Check(len(ns) <= count+1, "harness: key file of %d values", len(ns))
				put := func(what string, f func(ns []node) bool) {
					v, ns := tree(file)
					if !f(ns) {
						return
					}
					b, err := json.MarshalIndent(v, "", " ")
					if err != nil {
						panic(err)
					}
					try(what, dir, k, b)
				}
				p := ns[j].path
				put("without "+p, func(ns []node) bool { ns[j].del(); return true })
				for i, x := range values {
					put(fmt.Sprintf("value %d in place of %s", i, p), func(ns []node) bool { ns[j].set(x); return true })
				}
				for i := range ns {
					put(fmt.Sprintf("%s in place of %s", ns[i].path, p), func(ns []node) bool {
						if i == j || strings.HasPrefix(ns[i].path, p) || strings.HasPrefix(p, ns[i].path) {
							return false
						}
						ns[j].set(ns[i].get())
						return true
					})
					put(fmt.Sprintf("%s and %s exchanged", ns[i].path, p), func(ns []node) bool {
						if i <= j || strings.HasPrefix(ns[i].path, p) {
							return false
						}
						a, b := ns[i].get(), ns[j].get()
						ns[i].set(b)
						ns[j].set(a)
						return true
					})
					put(fmt.Sprintf("without %s and %s", ns[i].path, p), func(ns []node) bool {
						if i <= j || strings.HasPrefix(ns[i].path, p) {
							return false
						}
						ns[i].del()
						ns[j].del()
						return true
					})
				}
			})
		}
	}
}

// mixed gives signer key files put together from two key generations.
func mixed(c *lib.Ctx) {
	sizes := [][2]int{{1, 2}, {1, 3}, {2, 3}, {2, 4}}
	for i, a := range sizes {
		for j, b := range sizes {
			a, b := a, b
			c.Case(fmt.Sprintf("parts of %v and %v", a, b), func() {
				d1, k1, f1 := fresh(c, a[0], a[1])
				defer os.RemoveAll(d1)
				d2, k2, f2 := fresh(c, b[0], b[1])
				defer os.RemoveAll(d2)
				_, n1 := tree(f1)
				for x := range n1 {
					v, m1 := tree(f1)
					_, m2 := tree(f2)
					done := false
					for _, y := range m2 {
						if y.path == m1[x].path {
							m1[x].set(y.get())
							done = true
						}
					}
					if !done {
						continue
					}
					out, _ := json.MarshalIndent(v, "", " ")
					os.WriteFile(filepath.Join(d1, keyFile), out, 0o600)
					r := signer(c, d1, keyFile, "m")
					k := k1
					if strings.HasPrefix(m1[x].path, "/Shares") && (m1[x].path == "/Shares" || m1[x].path == "/Shares/groupkey") {
						k = k2
					}
					judge(c, fmt.Sprintf("key of %v with %s of another of %v", a, m1[x].path, b), r, k, []byte("m"))
					c.Distinct("mixed", i, j, m1[x].path)
				}
			})
		}
	}
}
