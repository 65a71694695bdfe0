package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"
)

// Ctx is the state of one check. Its methods may be used by many goroutines.
type Ctx struct {
	ID   string
	Tier string
	Seed int64
	Root string // /verif
	Rand *rand.Rand

	Rule string // how cases are made and what makes one non-trivial

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	samples  []any
	extra    map[string]any
	counts   map[string]int64
	sets     map[string]map[string]struct{}
	fails    []map[string]any
	nfails   int
	assume   []string
	known    []string
	start    time.Time

	guardMu sync.Mutex
	guards  map[*guard]struct{} // running cases
}

const maxFails = 5

func newCtx(id string) *Ctx {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	c := &Ctx{
		ID: id, Tier: tier, Seed: seed, Root: root,
		distinct: map[uint64]struct{}{}, extra: map[string]any{}, counts: map[string]int64{},
		sets: map[string]map[string]struct{}{}, guards: map[*guard]struct{}{}, start: time.Now(),
	}
	c.Rand = c.Rng("main")
	return c
}

// Rng is a generator determined by the seed, the check and the name.
func (c *Ctx) Rng(name string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", c.Seed, c.ID, name)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// N scales an amount by the tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

func hash64(key string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(key))
	return h.Sum64()
}

// Case counts an evaluated case. key identifies it; an empty key is trivial.
func (c *Ctx) Case(key string) {
	c.mu.Lock()
	c.evals++
	if key != "" {
		c.distinct[hash64(key)] = struct{}{}
	}
	c.mu.Unlock()
}

// guard is a running case.
type guard struct {
	desc  string
	cpu   time.Duration
	start time.Time
}

// Guard runs a case under the watchdog.
func (c *Ctx) Guard(desc string, f func()) {
	g := &guard{desc, cpuTime(), time.Now()}
	c.guardMu.Lock()
	c.guards[g] = struct{}{}
	c.guardMu.Unlock()
	defer func() {
		c.guardMu.Lock()
		delete(c.guards, g)
		c.guardMu.Unlock()
	}()
	f()
}

// Sample keeps a few actual cases.
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// SampleEvery keeps a case now and then.
func (c *Ctx) SampleEvery(i, every int, v func() any) {
	if i%every == 0 {
		c.Sample(v())
	}
}

// Count adds to a named counter of the evidence.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counts[name] += int64(n)
	c.mu.Unlock()
}

// Seen adds a value to a named set of the evidence.
func (c *Ctx) Seen(name, value string) {
	c.mu.Lock()
	m := c.sets[name]
	if m == nil {
		m = map[string]struct{}{}
		c.sets[name] = m
	}
	m[value] = struct{}{}
	c.mu.Unlock()
}

// Max keeps the biggest value of a named measure.
func (c *Ctx) Max(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.counts[name] < int64(n) {
		c.counts[name] = int64(n)
	}
}

// NumSeen is the size of a named set.
func (c *Ctx) NumSeen(name string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.sets[name])
}

// Extra sets a field of the coverage.
func (c *Ctx) Extra(name string, v any) {
	c.mu.Lock()
	c.extra[name] = v
	c.mu.Unlock()
}

// Assume notes an assumption.
func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }

// Fail records a violation with its witness.
func (c *Ctx) Fail(what string, detail map[string]any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nfails++
	if len(c.fails) >= maxFails {
		return
	}
	d := map[string]any{"what": what, "property": c.ID, "seed": c.Seed, "tier": c.Tier}
	for k, v := range detail {
		d[k] = printable(v)
	}
	c.fails = append(c.fails, d)
}

// Failed tells whether enough violations have been found to stop.
func (c *Ctx) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.fails) >= maxFails
}

// NumFails is the number of violations.
func (c *Ctx) NumFails() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nfails
}

func printable(v any) any {
	switch x := v.(type) {
	case string:
		if !utf8.ValidString(x) || strings.ContainsAny(x, "\x00\u200b") {
			return map[string]string{"quoted": fmt.Sprintf("%+q", x)}
		}
		return x
	case error:
		return x.Error()
	}
	return v
}

// Known reports a finding which known_findings.txt lists, if it still fails.
// Anything not listed is a violation.
func (c *Ctx) Known(key, what string, detail map[string]any) {
	for _, line := range c.knownLines() {
		if strings.Contains(line, "["+key+"]") {
			c.mu.Lock()
			c.known = append(c.known, fmt.Sprintf("KNOWN-FINDING: property=%s [%s] %s", c.ID, key, what))
			c.mu.Unlock()
			return
		}
	}
	c.Fail(what, detail)
}

func (c *Ctx) knownLines() []string {
	f, err := os.Open(filepath.Join(c.Root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []string
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if strings.HasPrefix(sc.Text(), "KNOWN-FINDING: property="+c.ID+" ") {
			out = append(out, sc.Text())
		}
	}
	return out
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// hasChildren tells whether the process has child processes.
func hasChildren() bool {
	dirs, err := filepath.Glob("/proc/[0-9]*/stat")
	if err != nil || len(dirs) == 0 {
		return true
	}
	self := strconv.Itoa(os.Getpid())
	for _, d := range dirs {
		b, err := os.ReadFile(d)
		if err != nil {
			continue
		}
		s := string(b)
		if f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:]); len(f) > 1 && f[1] == self {
			return true
		}
	}
	return false
}

// caseCPU is the CPU time per running case that a single case may take. Cases
// take less than a hundredth of a second.
const caseCPU = 60 * time.Second

// watch reports a case that consumes an absurd amount of CPU time or memory, or
// that waits forever.
func (c *Ctx) watch() {
	idleSince, idleCPU := time.Now(), cpuTime()
	idleTicks := 0
	for {
		time.Sleep(500 * time.Millisecond)
		now := cpuTime()
		idleTicks++
		if now-idleCPU > 50*time.Millisecond {
			idleSince, idleCPU, idleTicks = time.Now(), now, 0
		}
		if idleTicks > 240 && !hasChildren() {
			// Nothing runs and nothing is waited for outside.
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			c.Fail("the code under test blocks forever", map[string]any{"goroutines": truncate(string(buf), 20000)})
			c.finish()
		}

		c.guardMu.Lock()
		var worst *guard
		n := len(c.guards)
		for g := range c.guards {
			if worst == nil || g.start.Before(worst.start) {
				worst = g
			}
		}
		c.guardMu.Unlock()
		if worst == nil {
			continue
		}
		if n > 8 {
			n = 8
		}
		spent := (now - worst.cpu) / time.Duration(n)
		var ms runtime.MemStats
		if spent > 5*time.Second {
			runtime.ReadMemStats(&ms)
		}
		idle := time.Since(worst.start) > 120*time.Second && time.Since(idleSince) > 90*time.Second
		if spent > caseCPU || ms.HeapAlloc > 8<<30 || idle {
			c.Fail("a case does not come to an end", map[string]any{
				"case": truncate(worst.desc, 2000), "cpu_seconds": spent.Seconds(), "heap": ms.HeapAlloc, "blocked": idle,
			})
			c.finish()
		}
	}
}

var finishOnce sync.Mutex

// finish writes the evidence and the verdict, and exits.
func (c *Ctx) finish() {
	finishOnce.Lock() // never unlocked
	c.mu.Lock()
	defer c.mu.Unlock()

	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.Rule,
		"samples":             c.samples,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.counts) > 0 {
		cov["observed"] = c.counts
	}
	if len(c.sets) > 0 {
		m := map[string]int{}
		for k, v := range c.sets {
			m[k] = len(v)
		}
		cov["distinct_observed"] = m
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": c.nfails,
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	if len(c.known) > 0 {
		cov["known_findings"] = c.known
	}
	dir := filepath.Join(c.Root, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(3)
	}

	for _, k := range c.known {
		fmt.Println(k)
	}
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial, %d violations, %.1f s\n",
		c.ID, c.evals, len(c.distinct), c.nfails, time.Since(c.start).Seconds())
	if c.nfails > 0 {
		rdir := filepath.Join(c.Root, "replay")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, c.ID+".json")
		b, err := json.MarshalIndent(c.fails, "", " ")
		if err != nil {
			b = []byte(fmt.Sprintf("%v", c.fails))
		}
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Println(truncate(string(b), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		os.Exit(1)
	}
	if len(c.distinct) == 0 {
		fmt.Fprintln(os.Stderr, "nothing was observed: inconclusive")
		os.Exit(3)
	}
	os.Exit(0)
}

func truncate(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + "..."
}

// Try runs f and turns a panic into an error with its stack.
func Try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			err = fmt.Errorf("panic: %v\n%s", r, buf)
		}
	}()
	f()
	return nil
}

// Parallel runs f(i) for 0 <= i < n on several goroutines.
func Parallel(n int, f func(i int)) {
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}
