//go:build go1.21

// Package lib is the frame all checks share: it enumerates the cases of a bounded space, spreads
// them over processes, attributes panics, hangs and fatal crashes to the case that caused them,
// confirms violations by running the case again, and writes the evidence file.
//
// It does not depend on the code under test.
package lib

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Config describes a check.
type Config struct {
	ID          string
	Level       string // exploration, fault_enumeration, model_checking
	Rule        string // how cases are made and what makes one non-trivial
	Bounds      string
	Assumptions []string
	Serial      bool // one process only
	MaxShards   int
	HangSeconds int // a case making no progress (see Beat) for this long is a hang (default 100)
}

// Viol is a violation.
type Viol struct {
	Key, Msg string
	Detail   string
}

type result struct {
	Cases, Evals, States, Trans, Traces int64
	Distinct                            []byte // 8 bytes each
	Samples                             []string
	Viols                               []Viol
	Capped                              bool
	CapNote                             string
	Notes                               map[string]int64
	Unreproduced                        []Viol
	Done                                bool
}

// Ctx is the handle a check runs with.
type Ctx struct {
	ID, Tier string
	Seed     int64

	cfg      Config
	shard, n int
	only     string
	idx      int
	deadline time.Time
	res      result
	distinct map[uint64]bool
	cur      []byte // shared with the parent
	curKey   atomic.Value
	curStart int64 // unix nano, atomic
	inCase   bool
	mute     bool
	pipe     *os.File
	mu       sync.Mutex
}

// Quick reports whether this is the quick tier.
func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (c *Ctx) Pick(q, t int) int {
	if c.Quick() {
		return q
	}
	return t
}

type failure struct{ msg string }

// Failf reports a violation in the current case and ends the case.
func (c *Ctx) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Check fails the case unless ok.
func (c *Ctx) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		c.Failf(format, args...)
	}
}

// Eval counts evaluations, State and Trans explored states and transitions, Trace complete
// executions of the implementation compared with the reference.
func (c *Ctx) Eval(n int) {
	c.Beat()
	if !c.mute {
		c.res.Evals += int64(n)
	}
}
func (c *Ctx) State(n int) {
	if !c.mute {
		c.res.States += int64(n)
	}
}
func (c *Ctx) Trans(n int) {
	if !c.mute {
		c.res.Trans += int64(n)
	}
}
func (c *Ctx) Trace(n int) {
	if !c.mute {
		c.res.Traces += int64(n)
	}
}

// Beat tells the watchdog that the case is making progress: a hang is a single step that does not
// return.
func (c *Ctx) Beat() {
	if atomic.LoadInt64(&c.curStart) != 0 {
		atomic.StoreInt64(&c.curStart, time.Now().UnixNano())
	}
}

// Note adds to a named counter.
func (c *Ctx) Note(name string, n int) {
	if !c.mute {
		c.res.Notes[name] += int64(n)
	}
}

// Distinct records a distinct non-trivial case by a canonical description.
func (c *Ctx) Distinct(parts ...interface{}) {
	if c.mute {
		return
	}
	h := sha256.New()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			io.WriteString(h, v)
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0})
	}
	c.distinct[binary.LittleEndian.Uint64(h.Sum(nil))] = true
}

// Sample keeps a few cases written out.
func (c *Ctx) Sample(format string, args ...interface{}) {
	if !c.mute && len(c.res.Samples) < 3 {
		c.res.Samples = append(c.res.Samples, fmt.Sprintf(format, args...))
	}
}

// Expired reports whether the soft deadline has passed; a check that stops early because of it is
// reported as not exhaustive.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.deadline) {
		c.Cap("time limit of the tier reached")
		return true
	}
	return false
}

// Cap marks the run as not exhaustive.
func (c *Ctx) Cap(why string) {
	c.res.Capped = true
	c.res.CapNote = why
}

// Only reports whether a single case is being replayed.
func (c *Ctx) Only() bool { return c.only != "" }

func (c *Ctx) setCur(key string) {
	c.curKey.Store(key)
	if key == "" {
		atomic.StoreInt64(&c.curStart, 0)
	} else {
		atomic.StoreInt64(&c.curStart, time.Now().UnixNano())
	}
	if c.cur != nil {
		b := []byte(key)
		if len(b) > len(c.cur)-4 {
			b = b[:len(c.cur)-4]
		}
		copy(c.cur[4:], b)
		binary.LittleEndian.PutUint32(c.cur, uint32(len(b)))
	}
}

// Mine reports whether the next case with this key would run in this process. It does not consume
// the case number.
func (c *Ctx) Mine(key string) bool {
	if c.only != "" {
		return key == c.only
	}
	return c.idx%c.n == c.shard
}

// Skip consumes a case number without running it (used with Mine).
func (c *Ctx) Skip() { c.idx++ }

// Case runs one case of the enumeration in the process it belongs to. A panic inside is a
// violation of the property in that case.
func (c *Ctx) Case(key string, f func()) {
	mine := c.Mine(key)
	c.idx++
	if !mine || len(c.res.Viols) >= 3 {
		return
	}
	if c.Expired() {
		return
	}
	c.res.Cases++
	if f := os.Getenv("VERIF_TIMES"); f != "" {
		defer func(t time.Time) {
			if w, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(w, "%.3f %s\n", time.Since(t).Seconds(), key)
				w.Close()
			}
		}(time.Now())
	}
	c.setCur(key)
	msg, detail, bad := c.attempt(f)
	if bad {
		// Believe it only if it happens again.
		again := 0
		c.mute = true
		for i := 0; i < 5; i++ {
			if _, _, b := c.attempt(f); b {
				again++
				break
			}
		}
		c.mute = false
		if again > 0 {
			c.res.Viols = append(c.res.Viols, Viol{key, msg, detail})
		} else {
			c.res.Unreproduced = append(c.res.Unreproduced, Viol{key, msg, detail})
		}
	}
	c.setCur("")
}

func (c *Ctx) attempt(f func()) (msg, detail string, bad bool) {
	defer func() {
		if r := recover(); r != nil {
			bad = true
			if v, ok := r.(failure); ok {
				msg = v.msg
				return
			}
			msg = fmt.Sprintf("panic: %v", r)
			detail = string(debug.Stack())
		}
	}()
	f()
	return
}

// Catch runs f and returns the panic it raised, if any (violations pass through).
func Catch(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(failure); ok {
				panic(v)
			}
			p = r
		}
	}()
	f()
	return nil
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

// Run is the main function of a check.
func Run(cfg Config, body func(c *Ctx)) {
	if cfg.HangSeconds == 0 {
		cfg.HangSeconds = 100
	}
	c := &Ctx{ID: cfg.ID, Tier: env("VERIF_TIER", "quick"), cfg: cfg, n: 1, distinct: map[uint64]bool{}}
	c.Seed, _ = strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	c.only = os.Getenv("VERIF_ONLY")
	c.res.Notes = map[string]int64{}
	c.curKey.Store("")
	if sh := os.Getenv("VERIF_SHARD"); sh != "" {
		c.child(sh, body)
		return
	}
	c.parent(body)
}

func (c *Ctx) child(sh string, body func(c *Ctx)) {
	fmt.Sscanf(sh, "%d/%d", &c.shard, &c.n)
	ns, _ := strconv.ParseInt(os.Getenv("VERIF_DEADLINE"), 10, 64)
	c.deadline = time.Unix(ns, 0)
	c.pipe = os.NewFile(3, "result")
	f := os.NewFile(4, "current")
	if b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
		c.cur = b
	}
	go c.watch()
	if c.n > 1 {
		runtime.GOMAXPROCS(2)
	}
	c.protect(body)
	c.finish()
}

func (c *Ctx) protect(body func(c *Ctx)) {
	defer func() {
		if r := recover(); r != nil {
			c.res.Viols = append(c.res.Viols, Viol{"(enumeration)", fmt.Sprintf("%v", r), string(debug.Stack())})
		}
	}()
	body(c)
	c.res.Done = true
}

func (c *Ctx) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.pipe == nil {
		return
	}
	for k := range c.distinct {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], k)
		c.res.Distinct = append(c.res.Distinct, b[:]...)
	}
	b, _ := json.Marshal(&c.res)
	c.pipe.Write(b)
	c.pipe.Close()
	c.pipe = nil
}

// watch turns a case that never ends, or eats all memory, into a violation.
func (c *Ctx) watch() {
	var ms runtime.MemStats
	for i := 0; ; i++ {
		time.Sleep(250 * time.Millisecond)
		st := atomic.LoadInt64(&c.curStart)
		if st == 0 {
			continue
		}
		why := ""
		if d := time.Since(time.Unix(0, st)); d > time.Duration(c.cfg.HangSeconds)*time.Second {
			why = fmt.Sprintf("does not return (still running after %ds)", c.cfg.HangSeconds)
		}
		if i%4 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				why = fmt.Sprintf("does not return and has allocated %d MB", ms.HeapAlloc>>20)
			}
		}
		if why != "" && atomic.LoadInt64(&c.curStart) == st {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			r := result{Viols: []Viol{{c.curKey.Load().(string), why, string(buf)}}, Notes: map[string]int64{}}
			b, _ := json.Marshal(&r)
			c.mu.Lock()
			if c.pipe != nil {
				c.pipe.Write(b)
				c.pipe.Close()
			}
			os.Exit(0)
		}
	}
}

type childOut struct {
	res    result
	ok     bool
	cur    string
	tail   string
	state  string
	killed bool
}

// secondExe is where tools/build.sh puts a second executable of the check, built with the race
// detector (for checks with a file RACE2).
func secondExe() string { return filepath.Join(os.Getenv("VERIF_WORK"), "check2") }

// Second reports whether this process is the second executable.
func (c *Ctx) Second() bool { return os.Getenv("VERIF_SECOND") == "1" }

func (c *Ctx) spawn(shard, n int, only string) childOut {
	var out childOut
	exe, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	second := "0"
	if shard >= n {
		exe, second, shard = secondExe(), "1", shard-n
	}
	rd, wr, err := os.Pipe()
	if err != nil {
		fatal(err)
	}
	cf, err := os.CreateTemp("", "verifcur")
	if err != nil {
		fatal(err)
	}
	os.Remove(cf.Name())
	cf.Truncate(4096)
	cmd := exec.Command(exe, os.Args[1:]...)
	cmd.Env = append(os.Environ(),
		fmt.Sprintf("VERIF_SHARD=%d/%d", shard, n),
		fmt.Sprintf("VERIF_DEADLINE=%d", c.deadline.Unix()),
		"VERIF_ONLY="+only, "VERIF_TIER="+c.Tier, "VERIF_SECOND="+second, fmt.Sprintf("VERIF_SEED=%d", c.Seed), "GOTRACEBACK=single",
		"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 atexit_sleep_ms=0 exitcode=0")
	cmd.ExtraFiles = []*os.File{wr, cf}
	var errb tailBuf
	cmd.Stdout, cmd.Stderr = &errb, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	wr.Close()
	data, _ := io.ReadAll(rd)
	rd.Close()
	werr := cmd.Wait()
	var b [4096]byte
	cf.ReadAt(b[:], 0)
	cf.Close()
	out.cur = string(b[4 : 4+min(int(binary.LittleEndian.Uint32(b[:])), 4092)])
	out.tail = errb.String()
	if werr != nil {
		out.state = werr.Error()
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			out.killed = true
		}
	}
	out.ok = json.Unmarshal(data, &out.res) == nil
	return out
}

func (c *Ctx) parent(body func(c *Ctx)) {
	start := time.Now()
	limit := 240
	if !c.Quick() {
		limit = 760
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_LIMIT")); err == nil {
		limit = v
	}
	if t, err := strconv.ParseInt(os.Getenv("VERIF_T0"), 10, 64); err == nil {
		start = time.Unix(t, 0) // includes the build
	}
	c.deadline = start.Add(time.Duration(limit) * time.Second)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if c.cfg.MaxShards > 0 && n > c.cfg.MaxShards {
		n = c.cfg.MaxShards
	}
	if c.cfg.Serial || c.only != "" {
		n = 1
	}
	// shards n, n+1, .. run in the second executable
	total := n
	if _, err := os.Stat(secondExe()); err == nil {
		total = 2 * n
	}
	outs := make([]childOut, total)
	var wg sync.WaitGroup
	for i := 0; i < total; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i] = c.spawn(i, n, c.only)
			if !outs[i].ok {
				outs[i] = c.confirmCrash(i, n, outs[i])
			}
		}(i)
	}
	wg.Wait()

	var tot result
	tot.Notes = map[string]int64{}
	distinct := map[uint64]bool{}
	broken := ""
	for _, o := range outs {
		if !o.ok {
			broken = fmt.Sprintf("a worker ended without a result (%s)\n%s", o.state, o.tail)
			continue
		}
		r := o.res
		tot.Cases += r.Cases
		tot.Evals += r.Evals
		tot.States += r.States
		tot.Trans += r.Trans
		tot.Traces += r.Traces
		tot.Samples = append(tot.Samples, r.Samples...)
		tot.Viols = append(tot.Viols, r.Viols...)
		tot.Unreproduced = append(tot.Unreproduced, r.Unreproduced...)
		if r.Capped {
			tot.Capped, tot.CapNote = true, r.CapNote
		}
		for k, v := range r.Notes {
			tot.Notes[k] += v
		}
		for i := 0; i+8 <= len(r.Distinct); i += 8 {
			distinct[binary.LittleEndian.Uint64(r.Distinct[i:])] = true
		}
	}
	sort.SliceStable(tot.Viols, func(i, j int) bool { return len(tot.Viols[i].Key) < len(tot.Viols[j].Key) })

	known := knownFindings(c.ID)
	printed := map[string]bool{}
	var fresh []Viol
	for _, v := range tot.Viols {
		if what, ok := known[v.Key]; ok {
			if !printed[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
			}
			printed[v.Key] = true
			continue
		}
		fresh = append(fresh, v)
	}

	if c.only == "" {
		c.evidence(&tot, len(distinct), len(fresh), time.Since(start).Seconds())
	}
	fmt.Printf("%s [%s]: cases=%d evaluations=%d distinct=%d states=%d transitions=%d traces=%d capped=%v %.1fs\n",
		c.ID, c.Tier, tot.Cases, tot.Evals, len(distinct), tot.States, tot.Trans, tot.Traces, tot.Capped, time.Since(start).Seconds())
	if len(tot.Notes) > 0 {
		ks := make([]string, 0)
		for k := range tot.Notes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %s: %d\n", k, tot.Notes[k])
		}
	}
	for _, v := range tot.Unreproduced {
		fmt.Printf("note: not reproduced, not reported: %s: %s\n", v.Key, v.Msg)
	}
	if len(fresh) > 0 {
		for i, v := range fresh {
			if i >= 3 {
				fmt.Printf("also in case %s: %.300s\n", v.Key, v.Msg)
				if i > 12 {
					break
				}
				continue
			}
			path := c.writeReplay(i, v)
			fmt.Printf("\n%s in case %s:\n  %s\n", c.ID, v.Key, strings.ReplaceAll(v.Msg, "\n", "\n  "))
			if v.Detail != "" {
				fmt.Println(firstLines(v.Detail, 40))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		}
		os.Exit(1)
	}
	if broken != "" {
		fmt.Println("ERROR:", broken)
		os.Exit(3)
	}
	if c.only == "" && tot.Cases == 0 {
		fmt.Println("ERROR: no cases")
		os.Exit(3)
	}
}

// confirmCrash handles a worker that died: a fatal error of the Go runtime, an exit called by the
// code under test, or the memory killer.
func (c *Ctx) confirmCrash(i, n int, o childOut) childOut {
	for try := 0; try < 2; try++ {
		key := o.cur
		if key != "" {
			p := c.spawn(i/n, 1, key)
			if p.ok && len(p.res.Viols) > 0 {
				return p
			}
			if !p.ok {
				p.ok = true
				p.res = result{Notes: map[string]int64{}, Viols: []Viol{{key, "the process died: " + p.state, p.tail}}}
				return p
			}
		}
		o2 := c.spawn(i, n, c.only)
		if o2.ok {
			return o2
		}
		if o2.cur == key && key != "" {
			o2.ok = true
			o2.res = result{Notes: map[string]int64{}, Viols: []Viol{{key, "the process died: " + o2.state, o2.tail}}}
			return o2
		}
		o = o2
	}
	return o
}

func (c *Ctx) evidence(t *result, distinct, viol int, wall float64) {
	if t.Samples == nil {
		t.Samples = []string{"(none)"}
	}
	if len(t.Samples) > 12 {
		t.Samples = t.Samples[:12]
	}
	cov := map[string]interface{}{
		"samples":    t.Samples,
		"cases":      t.Cases,
		"rule":       c.cfg.Rule,
		"bounds":     c.cfg.Bounds,
		"exhaustive": !t.Capped,
	}
	switch c.cfg.Level {
	case "model_checking":
		cov["states"] = t.States
		cov["transitions"] = t.Trans
		cov["traces_validated_against_impl"] = t.Traces
		if t.Evals > 0 {
			cov["evaluations"] = t.Evals
		}
		if distinct > 0 {
			cov["distinct_nontrivial"] = distinct
		}
	default:
		cov["evaluations"] = t.Evals
		cov["distinct_nontrivial"] = distinct
		if t.States > 0 {
			cov["states"] = t.States
			cov["transitions"] = t.Trans
		}
	}
	if t.Capped {
		cov["capped"] = t.CapNote
	}
	for k, v := range t.Notes {
		cov["n_"+strings.ReplaceAll(k, " ", "_")] = v
	}
	if len(t.Unreproduced) > 0 {
		cov["unreproduced"] = t.Unreproduced
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.cfg.Level,
		"coverage": cov, "assumptions": append([]string{}, c.cfg.Assumptions...), "wall_s": wall, "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := env("VERIF_DIR", "/verif")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
}

func (c *Ctx) writeReplay(i int, v Viol) string {
	dir := filepath.Join(env("VERIF_DIR", "/verif"), "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, i))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "case": v.Key, "what": v.Msg, "detail": v.Detail,
		"replay": fmt.Sprintf("/verif/run.sh %s %s --replay %s", c.ID, c.Tier, path),
	}, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// knownFindings reads lines "finding: property=ID case=KEY | what fails".
func knownFindings(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(env("VERIF_DIR", "/verif"), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "finding: property=" + id + " case="
		if strings.HasPrefix(l, pre) {
			p := strings.SplitN(l[len(pre):], " | ", 2)
			if len(p) == 2 {
				out[p[0]] = p[1]
			}
		}
	}
	return out
}

func fatal(err error) {
	fmt.Println("ERROR:", err)
	os.Exit(3)
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// tailBuf keeps the first and last part of what a worker printed.
type tailBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	q := p
	if room := 6000 - len(t.head); room > 0 {
		k := min(room, len(q))
		t.head = append(t.head, q[:k]...)
		q = q[k:]
	}
	t.tail = append(t.tail, q...)
	if len(t.tail) > 6000 {
		t.tail = append([]byte(nil), t.tail[len(t.tail)-6000:]...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	return string(bytes.TrimSpace(append(append([]byte{}, t.head...), t.tail...)))
}
