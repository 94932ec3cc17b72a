package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check describes one registered property check.
type Check struct {
	ID    string
	Level string
	Rule  string
	Run   func(c *Ctx)
	// Assumptions are copied into the evidence file.
	Assumptions []string
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// Ctx collects what a run observed.
type Ctx struct {
	Check    *Check
	Tier     string
	Seed     int64
	OnlyCase int // -1: all

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []interface{}
	viols    []violation
	incon    []string
	known    map[string]int
	stop     int32
}

type violation struct {
	Case int         `json:"case"`
	Sub  string      `json:"group"`
	Msg  string      `json:"message"`
	Data interface{} `json:"data,omitempty"`
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a case count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	// VERIF_SCALE makes development runs shorter
	if k, _ := strconv.Atoi(os.Getenv("VERIF_SCALE")); k > 1 && quick > 40 {
		if quick /= k; quick < 40 {
			quick = 40
		}
	}
	return quick
}

// Count adds to a named counter in the evidence.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

// Eval records one evaluated case; sig identifies it when it is non-trivial ("" otherwise).
func (c *Ctx) Eval(sig string) {
	c.mu.Lock()
	c.evals++
	if sig != "" {
		h := fnv.New64a()
		h.Write([]byte(sig))
		c.distinct[h.Sum64()] = struct{}{}
	}
	c.mu.Unlock()
}

// Sample keeps a few written-out cases for the evidence file.
func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	if len(c.samples) < 4 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Ctx) Inconclusive(format string, a ...interface{}) {
	c.mu.Lock()
	c.incon = append(c.incon, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

// T is one running case.
type T struct {
	*Ctx
	Group string
	Case  int
	R     *rand.Rand
	notes []string
	data  map[string]interface{}
	dirs  []string
	races *raceLog // only for C29
	Large bool     // a case of a -large group
}

type caseAbort struct{}

// Fail reports a violation and aborts the case.
func (t *T) Fail(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	t.addViolation(msg)
	panic(caseAbort{})
}

// Set attaches data to a potential replay file.
func (t *T) Set(k string, v interface{}) {
	if t.data == nil {
		t.data = map[string]interface{}{}
	}
	t.data[k] = v
}

// Note appends a line to the case's history, part of the replay file.
func (t *T) Note(format string, a ...interface{}) {
	if len(t.notes) < 2000 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		t.notes = append(t.notes, s)
	}
}

func (t *T) addViolation(msg string) {
	c := t.Ctx
	for _, k := range knownFindings(c.Check.ID) {
		if k.sig != "" && strings.Contains(msg, k.sig) {
			c.mu.Lock()
			c.known[k.what]++
			c.mu.Unlock()
			return
		}
	}
	d := map[string]interface{}{}
	for k, v := range t.data {
		d[k] = v
	}
	if len(t.notes) > 0 {
		d["history"] = t.notes
	}
	c.mu.Lock()
	c.viols = append(c.viols, violation{Case: t.Case, Sub: t.Group, Msg: msg, Data: d})
	n := len(c.viols)
	c.mu.Unlock()
	if n >= 3 {
		atomic.StoreInt32(&c.stop, 1)
	}
}

// Cases runs n cases of a group in parallel, each with its own generator.
func (c *Ctx) Cases(group string, n int, f func(t *T)) {
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	c.CasesW(group, n, workers, f)
}

var groupFilter string

func (c *Ctx) CasesW(group string, n, workers int, f func(t *T)) {
	c.run(group, n, workers, f)
	c.large(group, f)
}

func (c *Ctx) run(group string, n, workers int, f func(t *T)) {
	if groupFilter != "" && groupFilter != group && (groupFilter != "large" || !strings.HasSuffix(group, "-large")) {
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runtime.LockOSThread()
			g := newGuardSlot()
			defer g.release()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || atomic.LoadInt32(&c.stop) != 0 {
					return
				}
				if c.OnlyCase >= 0 && c.OnlyCase != i {
					continue
				}
				c.runCase(g, group, i, f)
			}
		}()
	}
	wg.Wait()
}

func (c *Ctx) runCase(g *guardSlot, group string, i int, f func(t *T)) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", c.Seed, c.Check.ID, group, i)
	t := &T{Ctx: c, Group: group, Case: i, R: rand.New(rand.NewSource(int64(h.Sum64())))}
	g.begin(t)
	defer func() {
		g.end()
		r := recover()
		if r != nil {
			if _, ok := r.(caseAbort); !ok {
				if ie, ok := r.(inconclusive); ok {
					c.Inconclusive("%s case %d: %s", group, i, string(ie))
				} else {
					t.addViolation(fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack()))))
				}
			}
		}
		for _, d := range t.dirs {
			os.RemoveAll(d)
		}
	}()
	f(t)
}

type inconclusive string

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		keep = append(keep, l)
		if len(keep) > 40 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// Scratch makes a scratch directory for the case; it is removed afterwards.
func (t *T) Scratch() string {
	d, err := os.MkdirTemp(scratchRoot, t.Check.ID+"-")
	if err != nil {
		panic(inconclusive("cannot create scratch dir: " + err.Error()))
	}
	t.dirs = append(t.dirs, d)
	return d
}

var scratchRoot string

// guard: detects cases that burn CPU without ever finishing. The verdict is CPU time of the
// case's own thread, which does not depend on how loaded the machine is.
type guardSlot struct {
	mu    sync.Mutex
	tid   int
	t     *T
	start float64
}

var (
	guardMu    sync.Mutex
	guardSlots = map[*guardSlot]bool{}
	guardOnce  sync.Once
	cpuLimit   = 60.0
)

func newGuardSlot() *guardSlot {
	g := &guardSlot{tid: syscall.Gettid()}
	guardMu.Lock()
	guardSlots[g] = true
	guardMu.Unlock()
	guardOnce.Do(func() { go guardLoop() })
	return g
}

func (g *guardSlot) release() {
	guardMu.Lock()
	delete(guardSlots, g)
	guardMu.Unlock()
}

func (g *guardSlot) begin(t *T) {
	g.mu.Lock()
	g.t, g.start = t, threadCPU(g.tid)
	g.mu.Unlock()
}

func (g *guardSlot) end() {
	g.mu.Lock()
	g.t = nil
	g.mu.Unlock()
}

func threadCPU(tid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return 0
	}
	return statCPU(string(b))
}

func statCPU(s string) float64 {
	i := strings.LastIndexByte(s, ')')
	if i < 0 {
		return 0
	}
	f := strings.Fields(s[i+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

func guardLoop() {
	for {
		time.Sleep(time.Second)
		guardMu.Lock()
		var slots []*guardSlot
		for g := range guardSlots {
			slots = append(slots, g)
		}
		guardMu.Unlock()
		for _, g := range slots {
			g.mu.Lock()
			t := g.t
			over := t != nil && threadCPU(g.tid)-g.start > cpuLimit
			g.mu.Unlock()
			if over {
				t.addViolation(fmt.Sprintf("case did not finish within %.0f CPU-seconds", cpuLimit))
				t.Ctx.finish()
			}
		}
	}
}

// ---- known findings ----

type knownFinding struct{ sig, what string }

func knownFindings(id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" sig=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" sig=")
		parts := strings.SplitN(rest, " :: ", 2)
		if len(parts) == 2 {
			out = append(out, knownFinding{parts[0], parts[1]})
		}
	}
	return out
}

// ---- end of run ----

var startTime = time.Now()
var finishOnce sync.Once

func (c *Ctx) finish() {
	finishOnce.Do(func() { os.Exit(c.finish2()) })
	select {}
}

func (c *Ctx) finish2() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	dir := os.Getenv("VERIF_DIR")
	cov := map[string]interface{}{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.Check.Rule,
		"samples":             c.samples,
	}
	obs := map[string]int64{}
	for k, v := range c.counters {
		obs[k] = v
	}
	cov["observed"] = obs
	if len(c.samples) == 0 {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property":    c.Check.ID,
		"tier":        c.Tier,
		"seed":        c.Seed,
		"level":       c.Check.Level,
		"coverage":    cov,
		"assumptions": c.Check.Assumptions,
		"wall_s":      time.Since(startTime).Seconds(),
		"violations":  len(c.viols),
	}
	if c.Check.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if len(c.incon) > 0 {
		cov["inconclusive"] = c.incon
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0755)
	if c.OnlyCase < 0 && groupFilter == "" {
		os.WriteFile(filepath.Join(dir, "evidence", c.Check.ID+".json"), append(b, '\n'), 0644)
	}
	var kn []string
	for k := range c.known {
		kn = append(kn, k)
	}
	sort.Strings(kn)
	for _, k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Check.ID, k)
	}
	fmt.Printf("%s: %d evaluations, %d distinct, %.1fs", c.Check.ID, c.evals, len(c.distinct), time.Since(startTime).Seconds())
	var keys []string
	for k := range c.counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf(", %s=%d", k, c.counters[k])
	}
	fmt.Println()
	if len(c.viols) > 0 {
		os.MkdirAll(filepath.Join(dir, "replays"), 0755)
		for i, v := range c.viols {
			if i >= 3 {
				break
			}
			p := filepath.Join(dir, "replays", fmt.Sprintf("%s-%d.json", c.Check.ID, i))
			rb, _ := json.MarshalIndent(map[string]interface{}{
				"property": c.Check.ID, "seed": c.Seed, "tier": c.Tier, "violation": v,
				"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s -group %q -case %d", c.Seed, c.Tier, c.Check.ID, v.Sub, v.Case),
			}, "", " ")
			os.WriteFile(p, append(rb, '\n'), 0644)
			msg := v.Msg
			if len(msg) > 1500 {
				msg = msg[:1500] + "..."
			}
			fmt.Printf("  [%s case %d] %s\n", v.Sub, v.Case, msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Check.ID, p)
		}
		return 1
	}
	if len(c.incon) > 0 {
		for _, s := range c.incon {
			fmt.Println("INCONCLUSIVE:", s)
		}
		return 3
	}
	if c.evals == 0 || len(c.distinct) == 0 {
		fmt.Println("INCONCLUSIVE: nothing observed")
		return 3
	}
	return 0
}

func main() {
	base := filepath.Base(os.Args[0])
	if f, ok := progs[base]; ok {
		f()
		return
	}
	if f, ok := standIns[base]; ok {
		f()
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vrun ID [-case N] [-group G]")
		os.Exit(3)
	}
	id := os.Args[1]
	ck := checks[id]
	if ck == nil {
		if f, ok := subTools[id]; ok {
			f(os.Args[2:])
			return
		}
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(3)
	}
	fs := flag.NewFlagSet(id, flag.ExitOnError)
	only := fs.Int("case", -1, "run one case")
	fs.StringVar(&groupFilter, "group", "", "run one group")
	worker := fs.Bool("worker", false, "")
	fs.Parse(os.Args[2:])

	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if !*worker {
		os.Exit(supervise(ck, seed, tier, *only >= 0 || groupFilter != ""))
	}
	os.Setenv("VERIF_KDF", "fast")
	scratchRoot = os.Getenv("VERIF_SCRATCH")
	c := &Ctx{Check: ck, Tier: tier, Seed: seed, OnlyCase: *only,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, known: map[string]int{}}
	ck.Run(c)
	c.finish()
}

// supervise runs the check in a child so that a fatal runtime error (stack overflow, concurrent
// map writes, out of memory) in the code under test still ends in a verdict.
func supervise(ck *Check, seed int64, tier string, partial bool) int {
	root := os.Getenv("VERIF_TMP")
	if root == "" {
		root = "/tmp"
		if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
			root = "/dev/shm"
		}
	}
	scratch, err := os.MkdirTemp(root, "bpassverif-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(scratch)
	args := append([]string{os.Args[1], "-worker"}, os.Args[2:]...)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch, "GORACE=atexit_sleep_ms=0 exitcode=0 log_path="+scratch+"/race")
	cmd.Stdout = os.Stdout
	errf, _ := os.Create(filepath.Join(scratch, "stderr"))
	cmd.Stderr = errf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	limit := 800 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	timedOut := int32(0)
	timer := time.AfterFunc(limit, func() {
		atomic.StoreInt32(&timedOut, 1)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err = cmd.Wait()
	timer.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	errf.Close()
	b, _ := os.ReadFile(filepath.Join(scratch, "stderr"))
	es := string(b)
	if len(es) > 20000 {
		es = es[:20000]
	}
	code := cmd.ProcessState.ExitCode()
	if timedOut != 0 {
		fmt.Println("INCONCLUSIVE: overall time limit")
		return 3
	}
	if code == 2 && strings.Contains(es, "aarondl/bpass") &&
		(strings.Contains(es, "fatal error:") || strings.Contains(es, "panic:")) {
		// the code under test took the process down
		dir := os.Getenv("VERIF_DIR")
		os.MkdirAll(filepath.Join(dir, "replays"), 0755)
		p := filepath.Join(dir, "replays", ck.ID+"-crash.txt")
		os.WriteFile(p, []byte(es), 0644)
		fmt.Println(firstLines(es, 12))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
		return 1
	}
	if code != 0 && code != 1 {
		fmt.Fprintln(os.Stderr, es)
		return 3
	}
	if es != "" && partial {
		fmt.Fprint(os.Stderr, es)
	}
	return code
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

var subTools = map[string]func(args []string){}
