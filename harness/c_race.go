package main

import (
	"fmt"
	"io"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/crypto/ssh"
)

// ---- C29: the race detector over the workloads of the other checks ----

// raceLog collects the reports of the race detector.
type raceLog struct {
	mu       sync.Mutex
	reports  []string
	sessions int
}

func (l *raceLog) collect(t *T, logf string) {
	fs, _ := filepath.Glob(strings.TrimSuffix(logf, ".events") + ".race.*")
	l.mu.Lock()
	defer l.mu.Unlock()
	l.sessions++
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, r := range raceReports(string(b)) {
			if !strings.Contains(r, "/harness/") { // a stand-in's
				l.reports = append(l.reports, r)
			}
		}
	}
}

func raceReports(s string) (out []string) {
	for _, r := range strings.Split(s, "==================") {
		if strings.Contains(r, "WARNING: DATA RACE") {
			out = append(out, strings.TrimSpace(r))
		}
	}
	return out
}

var accessRe = regexp.MustCompile(`(?i)^(previous )?(atomic )?(read|write) at `)

// raceClass tells the races among the line editor library's own goroutines and fields, whoever called
// it, from all others.
func raceClass(r string) string {
	var stacks [][]string
	for _, part := range strings.Split(r, "\n\n") {
		l := strings.Split(strings.TrimPrefix(strings.TrimSpace(part), "WARNING: DATA RACE\n"), "\n")
		if !accessRe.MatchString(l[0]) {
			continue
		}
		var fr []string
		for _, x := range l[1:] {
			if strings.HasPrefix(x, "  ") && !strings.HasPrefix(x, "   ") {
				fr = append(fr, strings.TrimSpace(x))
			}
		}
		stacks = append(stacks, fr)
	}
	lib, inner := 0, 0
	for _, fr := range stacks {
		own := false
		first := ""
		for _, f := range fr {
			if strings.HasPrefix(f, "main.") || strings.Contains(f, "aarondl/bpass/") {
				own = true
			}
			if first == "" && (strings.HasPrefix(f, "main.") || strings.Contains(strings.SplitN(f, "/", 2)[0], ".") && strings.Contains(f, "/")) && !strings.HasPrefix(f, "runtime.") {
				first = f
			}
		}
		if strings.HasPrefix(first, "github.com/aarondl/readline.") || len(fr) == 0 || strings.HasPrefix(fr[0], "[failed to restore") {
			lib++
		}
		if !own {
			inner++
		}
	}
	if len(stacks) == 2 && lib == 2 && inner >= 1 {
		return "within the line editor library"
	}
	return "of the program"
}

// raced runs a case of another check and judges only the race reports.
func raced(f func(t *T)) func(t *T) {
	return func(t *T) {
		sh := &Ctx{Check: t.Check, Tier: t.Tier, Seed: t.Seed, OnlyCase: t.OnlyCase,
			distinct: map[uint64]struct{}{}, counters: map[string]int64{}, known: map[string]int{}}
		t2 := &T{Ctx: sh, Group: t.Group, Case: t.Case, R: t.R, races: &raceLog{}}
		func() {
			defer func() {
				r := recover()
				for _, d := range t2.dirs {
					os.RemoveAll(d)
				}
				switch r.(type) {
				case nil, caseAbort, inconclusive: // what those oracles say is not judged here
				default:
					if s := fmt.Sprint(r); r != nil && !strings.Contains(s, "runtime error") {
						t.Inconclusive("borrowed case: %s", s)
					}
				}
			}()
			f(t2)
		}()
		t2.races.mu.Lock()
		reports := t2.races.reports
		n := t2.races.sessions
		t2.races.mu.Unlock()
		t.Count("sessions_watched", n)
		t.Count("input_lines", int(sh.counters["input_lines"]))
		if len(reports) > 0 {
			t.Set("case", t2.data)
			t.Set("reports", reports)
			for _, r := range reports {
				t.addViolation(fmt.Sprintf("data race in a session of the program [%s]:\n%s", raceClass(r), r))
			}
			return
		}
		t.Eval(fmt.Sprint(t.Group, t.Case))
	}
}

// raceTTY types at a terminal with pauses, completion, window changes and interrupts.
func raceTTY(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 5e12)
	for i := 3 + r.Intn(30); i > 0; i-- {
		g.op(false)
	}
	for i, n := range []string{"mail", "mail/work", "web/one", "web/two"} {
		u := g.add(n)
		g.set(u, "user", fmt.Sprint("u", i))
		g.set(u, "pass", "p")
		g.set(u, "url", "https://x/")
	}
	rem := dir + "/rem"
	y := g.add("sync/r")
	g.set(y, "url", "file://"+rem)
	g.set(y, "sync", "true")
	craft(t, f, "pw", g.log)
	if r.Intn(2) == 0 {
		craft(t, rem, "pw", g.log)
	}
	var b strings.Builder
	b.WriteString("pw\n")
	for i := 5 + r.Intn(20); i > 0; i-- {
		switch r.Intn(14) {
		case 0:
			b.WriteString("show ma\t\t\n")
		case 1:
			b.WriteString("sho\t web/\t\t\n\x03")
		case 2:
			b.WriteString("\x1b[A\x1b[A\x1b[B\n")
		case 3:
			b.WriteString("add n" + genWord(r, 5) + "\ne\nu\ny\n")
		case 4:
			b.WriteString("add n" + genWord(r, 5) + "\n\x04")
		case 5:
			b.WriteString("\x12ma\n") // history search
		case 6:
			b.WriteString("sync\n\t\t\n")
		case 7:
			b.WriteString("set mail/work note\nline\nline\n.\n")
		case 8:
			b.WriteString("edit mail/work note\n")
		case 9:
			b.WriteString("rm web/one\nweb/one\n")
		case 10:
			b.WriteString("pass mail/work\nopen mail/work\nlogin mail/work\n\n\n")
		case 11:
			b.WriteString("passwd\nm\npw\npw\n")
		case 12:
			b.WriteString("cd mail/work\nsho\t\nget \t\tuser\ncd\n")
		case 13:
			b.WriteString(strings.Repeat("\t", 5) + "\x01\x05\x0b\x15ls \t\n")
		}
	}
	b.WriteString(pick(r, "exit\n", "exit\n", "\x15exit\n", "\x04\nexit\n"))
	in := b.String() + strings.Repeat("\n\x15exit\n", 12) // out of any prompt that is left
	s := &Sess{Dir: dir, File: f, Input: in, TTY: true, Clear: r.Intn(2) == 0, Color: r.Intn(2) == 0,
		Edits: []EditAction{{Write: []byte("new")}, {Write: []byte("newer")}}}
	mode := r.Intn(4)
	s.Pace = func(rest string) (int, time.Duration, syscall.Signal) {
		n := 1 + r.Intn(12)
		if mode == 1 {
			n = strings.IndexByte(rest, '\n') + 1
			if n == 0 {
				n = len(rest)
			}
		}
		var sig syscall.Signal
		if mode > 1 && r.Intn(4) == 0 {
			sig = syscall.SIGWINCH
		}
		return n, time.Duration(r.Intn(1500)) * time.Microsecond, sig
	}
	if t.races == nil {
		t.races = &raceLog{}
	}
	s.Run(t)
}

// proxy forwards connections to addr and breaks each after a while.
func proxy(t *T, addr string, life func() time.Duration) (string, func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	var wg sync.WaitGroup
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			d, err := net.Dial("tcp", addr)
			if err != nil {
				c.Close()
				continue
			}
			wg.Add(2)
			go func() { defer wg.Done(); io.Copy(d, c); d.Close() }()
			go func() { defer wg.Done(); io.Copy(c, d); c.Close() }()
			time.AfterFunc(life(), func() { c.Close(); d.Close() })
		}
	}()
	return l.Addr().String(), func() { l.Close(); wg.Wait() }
}

// raceDrop has the connection break while the user is asked about the host.
func raceDrop(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	w := &hostWorld{t: t, dir: dir, f: f}
	w.fs = &memFS{files: map[string]*memFile{}, seed: r.Int63()}
	w.srv = newSSH("joe", "s3cret pw", []ssh.Signer{hostKey("ed", 0)}...)
	w.srv.exec = w.exec
	defer w.srv.close()
	ms := time.Millisecond
	addr, stop := proxy(t, w.srv.addr(), func() time.Duration { return 40*ms + time.Duration(t.Case%50)*2*ms })
	defer stop()
	w.path = "f.bp"
	g := newLogGen(r, 1571887976e9, 1000)
	for _, n := range []string{"sync/r", "sync/q"} {
		u := g.add(n)
		g.set(u, "url", (&url.URL{Scheme: "scp", User: url.UserPassword("joe", "s3cret pw"), Host: addr, Path: "/" + w.path}).String())
		g.set(u, "sync", "true")
	}
	craft(t, f, "pw", g.log)
	s := &Sess{Dir: dir, File: f, Input: "pw\ny\ny\ny\ny\nls\nset sync/r k v\nls\nexit\ny\ny\ny\n"}
	first := true
	s.Pace = func(rest string) (int, time.Duration, syscall.Signal) {
		n := strings.IndexByte(rest, '\n') + 1
		if first {
			first = false
			return n, time.Duration(100+r.Intn(150)) * ms, 0
		}
		return n, time.Duration(r.Intn(120)) * ms, 0
	}
	if t.races == nil {
		t.races = &raceLog{}
	}
	res := s.Run(t)
	t.Set("output", tail(res.Out, 1500))
}

func init() {
	register(&Check{ID: "C29",
		Rule:        "reports of the race detector over the sessions of the other checks, a terminal with completion, pauses and window changes, simultaneous transfers and connections that break during prompts",
		Assumptions: []string{"the race detector sees the schedules that happen, with one to eight processors"},
		Run: func(c *Ctx) {
			g := func(name string, quick, thorough int, f func(t *T)) { c.Cases(name, c.N(quick, thorough), raced(f)) }
			g("terminal", 120, 4000, raceTTY)
			g("drops", 60, 2000, raceDrop)
			g("ssh", 60, 2000, c20case)
			g("ssh several", 30, 1000, c20two)
			g("ssh wizard", 20, 1000, c20wizard)
			g("sessions", 100, 3000, c01session)
			g("hostile", 25, 1000, c26session)
			g("wizards", 60, 2000, c07wizard)
			g("clipboard", 60, 2000, c24case)
			g("endings", 70, 2000, c24end)
			g("editor", 60, 2000, c23case)
			g("pinentry", 60, 2000, c27typed)
			g("odd pinentry", 60, 2000, c27odd)
			g("import", 40, 1000, c22import)
			g("export", 40, 1000, c22export)
			g("users", 60, 2000, c14case)
			g("conflicts", 60, 2000, c11session)
			g("fleet", 12, 500, c12world)
			g("remotes", 80, 3000, c31case)
			g("moments", 60, 2000, c09case)
			g("displays", 60, 2000, c30case)
			// the library's transfers, many at once in this process
			g("transfers", 150, 4000, c21honest)
			g("downloads", 400, 10000, c21down)
			g("uploads", 400, 10000, c21up)
			fs, _ := filepath.Glob(filepath.Join(scratchRoot, "race.*"))
			for _, f := range fs {
				b, _ := os.ReadFile(f)
				for _, r := range raceReports(string(b)) {
					if !strings.Contains(r, "github.com/aarondl/bpass/") {
						c.Inconclusive("race in the harness: %s", r)
						continue
					}
					t := &T{Ctx: c, Group: "transfers"}
					t.addViolation("data race in simultaneous transfers:\n" + r)
				}
			}
		}})
}
