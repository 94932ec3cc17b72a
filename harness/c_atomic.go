package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

// ---- C15 ----

func init() {
	standIns["vtrace"] = standTrace
	standIns["vlimit"] = func() {
		n, _ := strconv.Atoi(os.Args[1])
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: uint64(n)})
		err := syscall.Exec(os.Args[2], os.Args[2:], os.Environ())
		fmt.Fprintln(os.Stderr, "vlimit:", err)
		os.Exit(98)
	}
}

type c15target struct {
	what, path string
	user, pass string // opens the new versions
	old        []byte // nil: absent
	oldLog     []mTx
	oldUser    string
	oldPass    string
	final      string // what the undisturbed session leaves
}

type c15scene struct {
	kind    string
	dir     string
	sess    *Sess
	targets []*c15target
	lines   map[string]bool
	calls   []traceRec
}

var c15kinds = []string{"edit", "sync-behind", "new", "multi", "symlink", "sync-missing", "sync-two", "nothing", "adduser", "rekey", "passwd",
	"sync-symlink", "sync-cmd", "import-new", "import-old", "large", "relative", "export"}

// c15build makes the same scene again for the same seed.
func c15build(t *T, seed int64) *c15scene {
	real := t.R
	defer func() { t.R = real }()
	t.R = rand.New(rand.NewSource(seed))
	r := t.R
	dir := t.Scratch()
	work := dir + "/w"
	os.MkdirAll(work, 0700)
	sc := &c15scene{dir: dir}
	sc.kind = c15kinds[t.Case%len(c15kinds)]
	f := work + "/f"
	g := newLogGen(r, 1571887976e9, 1000)
	for i := r.Intn(12); i >= 0; i-- {
		if r.Intn(3) == 0 {
			g.add(g.uniqueName())
		} else {
			g.op(false)
		}
	}
	nbase := len(g.log)
	if sc.kind == "large" {
		u := g.add("large/one")
		for i := 0; i < 30; i++ {
			g.set(u, fmt.Sprintf("k%d", i), strings.Repeat(genWord(r, 9), 700))
		}
	}
	user, pass := "", pick(r, "pw", "a longer passphrase")
	main := &c15target{what: "the file", path: f, user: user, pass: pass, oldPass: pass}
	login := []string{pass}
	sc.sess = &Sess{Dir: dir, File: f}
	edit := []string{"add zz/edited", "set zz/edited user someone"}
	var remotes []*c15target
	remote := func(name, state string) {
		p := work + "/" + name
		u := g.add("sync/" + name)
		g.set(u, "url", "file://"+p)
		g.set(u, "sync", "true")
		rt := &c15target{what: "remote " + name, path: p, pass: pass, oldPass: pass}
		switch state {
		case "missing":
		case "fork":
			fork := append(append([]mTx{}, g.log...), mTx{1571899999e9, "add", uuidSeq(r), "", ""})
			u := fork[len(fork)-1].UUID
			fork = append(fork, mTx{1571899999e9 + 1, "setk", u, "name", "zz/forked"})
			rt.oldLog = fork
			craft(t, p, pass, fork)
		default:
			rt.oldLog = append([]mTx{}, g.log[:nbase]...)
			craft(t, p, pass, rt.oldLog)
		}
		remotes = append(remotes, rt)
	}
	noSync := true
	write := func() { craft(t, f, pass, g.log); main.oldLog = append([]mTx{}, g.log...) }
	script := func(lines ...string) string { return strings.Join(lines, "\n") + "\n" }
	switch sc.kind {
	case "new":
		login = []string{pass, pass}
	case "nothing":
		write()
		edit = []string{"ls"}
	case "symlink":
		write()
		os.MkdirAll(work+"/real", 0700)
		os.Rename(f, work+"/real/g")
		os.Symlink("real/g", f)
	case "multi", "rekey", "passwd":
		m := newMulti(t, []fUserCred{{Name: "ann", Pass: pass}, {Name: "bob", Pass: "bb"}}, 1571887970e9)
		l := append(append([]mTx{}, m.log...), g.log...)
		m.write(f, l)
		main.oldLog = l
		main.user, main.oldUser = "ann", "ann"
		login = []string{"ann", pass}
		switch sc.kind {
		case "rekey":
			edit = append(edit, "rekey bob", "m", "bbb", "bbb")
		case "passwd":
			edit = append(edit, "passwd", "m", "newpass", "newpass")
			main.pass = "newpass"
		}
	case "adduser":
		write()
		edit = append(edit, "adduser ann")
		main.user = "ann"
	case "sync-behind", "sync-cmd":
		remote("r1", pick(r, "behind", "fork"))
		write()
		noSync = sc.kind == "sync-cmd"
		if noSync {
			edit = append(edit, "sync")
		}
	case "sync-missing":
		remote("r1", "missing")
		write()
		noSync = false
	case "sync-symlink":
		remote("r1", pick(r, "behind", "fork"))
		os.MkdirAll(work+"/real", 0700)
		os.Rename(remotes[0].path, work+"/real/r")
		os.Symlink(work+"/real/r", remotes[0].path)
		write()
		noSync = false
	case "sync-two":
		remote("r1", "behind")
		remote("r2", pick(r, "fork", "missing"))
		write()
		noSync = false
	case "import-new", "import-old":
		sc.sess.Lpass = []byte("url,username,password,extra,name,grouping,fav\nhttps://a,joe,pp,,One,grp,0\n,,,,Two,,1\n")
		sc.sess.Sub = []string{"lpassimport"}
		edit = nil
		if sc.kind == "import-new" {
			login = []string{pass, pass}
		} else {
			write()
			login = []string{pass, "y"}
		}
	case "export":
		write()
		sc.sess.Sub = []string{"export", dir + "/out.csv"}
		edit = nil
	case "relative":
		write()
		sc.sess.File = "w/f"
	default:
		write()
	}
	for i := range edit {
		if edit[i] == "add zz/edited" {
			edit = append(edit[:i:i], append([]string{"add zz/edited", "", "someone", "m", "pwpw", "pwpw"}, edit[i+1:]...)...)
			break
		}
	}
	if noSync {
		sc.sess.Args = append(sc.sess.Args, "--no-sync")
	}
	sc.sess.Input = script(append(append([]string{}, login...), edit...)...)
	sc.targets = append([]*c15target{main}, remotes...)
	for _, x := range sc.targets {
		if b, err := os.ReadFile(x.path); err == nil {
			x.old = b
		}
	}
	return sc
}

// c15judge tells what one content of a target is: "old", or the entries of a complete new version.
func (x *c15target) judge(absent bool, b []byte) (string, error) {
	if absent {
		if x.old == nil {
			return "old", nil
		}
		return "", fmt.Errorf("is gone")
	}
	if x.old != nil && bytes.Equal(b, x.old) {
		return "old", nil
	}
	ff, err := fOpen(b, x.user, x.pass)
	if err != nil && (x.user != x.oldUser || x.pass != x.oldPass) {
		// an earlier save of the session
		ff, err = fOpen(b, x.oldUser, x.oldPass)
	}
	if err != nil {
		return "", fmt.Errorf("holds %d bytes that are neither the previous version (%d bytes) nor open: %v", len(b), len(x.old), err)
	}
	db, err := parseDB(ff.Payload)
	if err != nil {
		return "", fmt.Errorf("holds a version whose contents do not parse: %v", err)
	}
	v, err := mReplay(db.Log)
	if err != nil {
		return "", fmt.Errorf("holds a version whose log does not replay: %v", err)
	}
	if m := contains(db.Log, x.oldLog); m != nil {
		return "", fmt.Errorf("holds a version that lacks the record %v of the previous one", *m)
	}
	var names []string
	for _, e := range v {
		names = append(names, e["name"])
	}
	sort.Strings(names)
	return fmt.Sprintf("new%q", names), nil
}

type c15run struct {
	res  *Result
	recs []traceRec
	end  string
}

func c15trace(t *T, sc *c15scene, fault Fault, chunk int) *c15run {
	bd := binDir()
	store := sc.dir + "/seen"
	os.MkdirAll(store, 0700)
	conf := traceConf{Watch: sc.dir + "/w", Fault: fault, Chunk: chunk, Log: sc.dir + "/trace", Store: store}
	for _, x := range sc.targets {
		conf.Targets = append(conf.Targets, x.path)
	}
	b, _ := json.Marshal(conf)
	cf := sc.dir + "/trace.conf"
	mustWriteFile(cf, b)
	sc.sess.Wrap = []string{filepath.Join(bd, "vtrace"), cf}
	run := &c15run{}
	run.res = sc.sess.Run(t)
	lb, err := os.ReadFile(conf.Log)
	if err != nil {
		panic(inconclusive("no trace: " + err.Error() + " " + run.res.Err))
	}
	for _, l := range bytes.Split(lb, []byte("\n")) {
		var r traceRec
		if len(l) > 0 && json.Unmarshal(l, &r) == nil {
			if r.End != "" {
				run.end = r.End
			}
			run.recs = append(run.recs, r)
		}
	}
	if strings.HasPrefix(run.end, "cannot") || run.end == "" {
		panic(inconclusive("tracing failed: " + run.end + " " + run.res.Err))
	}
	return run
}

var c15numbers = regexp.MustCompile(`[0-9]+`)

func c15lines(s string) map[string]bool {
	m := map[string]bool{}
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "password: ") { // suggestions
			continue
		}
		m[c15numbers.ReplaceAllString(strings.TrimSpace(l), "#")] = true
	}
	return m
}

// c15check judges everything seen during a run; it returns the final class of each target.
func c15check(t *T, sc *c15scene, run *c15run, what string, memo map[string]string) []string {
	last := make([]string, len(sc.targets))
	for _, r := range run.recs {
		if r.Seen == nil {
			continue
		}
		for i, h := range r.Seen {
			x := sc.targets[i]
			if h == "?" {
				t.Set("trace", run.recs)
				t.Fail("%s: %s: after %s(%s) %s cannot be read", sc.kind, what, r.Call, filepath.Base(r.Path), x.what)
			}
			key := fmt.Sprintf("%d %s", i, h)
			cl, ok := memo[key]
			if !ok {
				var b []byte
				var err error
				if h != "absent" {
					if b, err = os.ReadFile(sc.dir + "/seen/" + h); err != nil {
						panic(inconclusive(err.Error()))
					}
				}
				cl, err = x.judge(h == "absent", b)
				if err != nil {
					t.Set("trace", run.recs)
					t.Set("input", sc.sess.Input)
					t.Fail("%s: %s: if the program died after call %d, %s(%s) = %d, %s would be lost: it %v", sc.kind, what, r.N, r.Call, filepath.Base(r.Path), r.Ret, x.what, err)
				}
				memo[key] = cl
			}
			last[i] = cl
			t.Count("states_judged", 1)
		}
	}
	return last
}

func c15case(t *T) {
	seed := t.R.Int63()
	sc := c15build(t, seed)
	base := c15trace(t, sc, Fault{N: -1}, 0)
	base.res.MustOK(t, sc.kind+": undisturbed session")
	finNames := c15names(sc)
	t.Note("scene %s, input %q", sc.kind, sc.sess.Input)
	fin := c15check(t, sc, base, "undisturbed", map[string]string{})
	sc.lines = c15lines(base.res.Out + base.res.Err)
	var calls []traceRec
	for _, r := range base.recs {
		if r.N >= 0 && r.Call != "end" {
			calls = append(calls, r)
		}
	}
	if len(calls) == 0 {
		panic(inconclusive("no file changing calls were seen in " + sc.kind))
	}
	for i := range fin {
		if fin[i] == "old" {
			t.Fail("%s: the undisturbed session did not save %s\noutput: %s", sc.kind, sc.targets[i].what, base.res.Out)
		}
	}
	t.Count("scene_"+sc.kind, 1)
	t.Count("file_changing_calls", len(calls))
	// what the session prints must not vary, or nothing could be told from it
	s2 := c15build(t, seed)
	again := s2.sess.Run(t)
	for l := range c15lines(again.Out + again.Err) {
		if !sc.lines[l] {
			panic(inconclusive(sc.kind + ": the output of two undisturbed sessions differs: " + l))
		}
	}
	type plan struct {
		f     Fault
		chunk int
		what  string
	}
	var plans []plan
	var sig []string
	for _, c := range calls {
		sig = append(sig, c.Call)
		name := fmt.Sprintf("%s(%s) #%d", c.Call, filepath.Base(c.Path), c.N)
		plans = append(plans, plan{Fault{N: c.N, Mode: "kill-before"}, 0, "killed before " + name})
		errs := map[string][]syscall.Errno{
			"close": {syscall.EIO}, "fsync": {syscall.EIO, syscall.ENOSPC}, "fdatasync": {syscall.EIO},
			"write": {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}, "rename": {syscall.EACCES, syscall.ENOSPC, syscall.ENOENT}, "renameat": {syscall.EACCES, syscall.EBUSY, syscall.EXDEV, syscall.ENOENT, syscall.EPERM}, "renameat2": {syscall.EACCES, syscall.ENOENT},
			"openat": {syscall.EACCES, syscall.ENOSPC, syscall.EROFS, syscall.EMFILE, syscall.ENOENT, syscall.EPERM, syscall.EIO},
		}[c.Call]
		if errs == nil {
			errs = []syscall.Errno{syscall.EIO, syscall.EPERM}
		}
		for _, e := range errs {
			plans = append(plans, plan{Fault{N: c.N, Mode: "error", Errno: int(e)}, 0, name + " fails with " + e.Error()})
		}
		plans = append(plans, plan{Fault{N: c.N, Mode: "error", Errno: int(syscall.ENOSPC), Sticky: true}, 0, "no space from " + name + " on"})
		if c.Size > 1 {
			for _, p := range []int{1, c.Size / 2, c.Size - 1, t.R.Intn(c.Size)} {
				plans = append(plans, plan{Fault{N: c.N, Mode: "torn", Part: p}, 0, fmt.Sprintf("killed %d bytes into %s", p, name)})
				plans = append(plans, plan{Fault{N: c.N, Mode: "short", Part: p, Errno: int(syscall.ENOSPC)}, 0, fmt.Sprintf("%s stops after %d bytes", name, p)})
			}
		}
	}
	plans = append(plans, plan{Fault{N: -1}, len(sc.targets[0].old)/60 + 1 + t.R.Intn(97), "writes in small pieces"})
	t.Eval(strings.Join(sig, " "))
	for _, p := range plans {
		s := c15build(t, seed)
		s.lines = sc.lines
		before := c15names(s)
		run := c15trace(t, s, p.f, p.chunk)
		last := c15check(t, s, run, p.what, map[string]string{})
		c15verdict(t, s, run.res, p.what, last, fin, strings.HasPrefix(run.end, "signal"))
		if !strings.HasPrefix(run.end, "signal") && !strings.HasPrefix(p.what, "unlink") && !strings.Contains(p.what, "from unlink") {
			c15left(t, s, p.what, before, finNames, run)
		}
		t.Eval(sc.kind + p.what)
		t.Count("faults", 1)
		t.Count("fault_"+p.f.Mode, 1)
		os.RemoveAll(s.dir)
	}
}

// c15names lists what there is around the watched files.
func c15names(sc *c15scene) map[string]bool {
	m := map[string]bool{}
	filepath.Walk(sc.dir+"/w", func(p string, _ os.FileInfo, err error) error {
		if err == nil {
			m[strings.TrimPrefix(p, sc.dir)] = true
		}
		return nil
	})
	return m
}

// c15left: a failure that the program lived through leaves no files that a success would not.
func c15left(t *T, s *c15scene, what string, before, fin map[string]bool, run *c15run) {
	for n := range c15names(s) {
		if !before[n] && !fin[n] {
			if run != nil {
				t.Set("trace", run.recs)
				t.Set("output", run.res.Out+run.res.Err)
			}
			t.Fail("%s: %s: the program left %q behind", s.kind, what, n)
		}
	}
	t.Count("leftovers_checked", 1)
}

// c15verdict: a loss has to be reported, and what is left has to open.
func c15verdict(t *T, s *c15scene, res *Result, what string, last, fin []string, died bool) {
	if !died {
		for i, cl := range last {
			if cl == fin[i] {
				continue
			}
			reported := res.Code != 0
			for l := range c15lines(res.Out + res.Err) {
				if !s.lines[l] {
					reported = true
				}
			}
			if !reported {
				t.Fail("%s: %s: the program reports nothing although %s is not what it should be (%s instead of %s)\noutput: %s",
					s.kind, what, s.targets[i].what, tail(cl, 300), tail(fin[i], 300), tail(res.Out, 800))
			}
			if i == 0 && res.Code == 0 {
				t.Fail("%s: %s: saving the file failed but the exit status is 0\noutput: %s", s.kind, what, tail(res.Out, 800))
			}
			t.Count("reported_failures", 1)
		}
	}
	if t.R.Intn(8) == 0 && last[0] != "old" {
		x := s.targets[0]
		in := x.pass + "\n"
		if x.user != "" {
			in = x.user + "\n" + in
		}
		o := &Sess{Dir: s.dir, File: x.path, Input: in + "ls\n", Args: []string{"--no-sync"}}
		if x.user != x.oldUser || x.pass != x.oldPass {
			return
		}
		o.Run(t).MustOK(t, s.kind+": "+what+": opening it afterwards")
		t.Count("reopened", 1)
	}
}

// c15limit lets the kernel refuse to grow any file beyond a size.
func c15limit(t *T) {
	seed := t.R.Int63()
	sc := c15build(t, seed)
	res := sc.sess.Run(t)
	res.MustOK(t, sc.kind+": undisturbed session")
	state := func(s *c15scene, what string) (out []string) {
		for _, x := range s.targets {
			b, err := os.ReadFile(x.path)
			if err != nil && !os.IsNotExist(err) {
				t.Fail("%s: %s: %v", s.kind, what, err)
			}
			cl, err := x.judge(err != nil, b)
			if err != nil {
				t.Fail("%s: %s: %s %v", s.kind, what, x.what, err)
			}
			out = append(out, cl)
		}
		return out
	}
	fin := state(sc, "undisturbed")
	finNames := c15names(sc)
	st, err := os.Stat(sc.targets[0].path)
	if err != nil {
		t.Fail("%s: %v", sc.kind, err)
	}
	size := int(st.Size())
	sc.lines = c15lines(res.Out + res.Err)
	for _, n := range []int{0, 1, t.R.Intn(size), t.R.Intn(size), size - 1, size} {
		s := c15build(t, seed)
		s.lines = sc.lines
		s.sess.Wrap = []string{filepath.Join(binDir(), "vlimit"), strconv.Itoa(n)}
		before := c15names(s)
		res := s.sess.Run(t)
		what := fmt.Sprintf("files cannot grow beyond %d bytes", n)
		c15verdict(t, s, res, what, state(s, what), fin, res.Killed)
		if !res.Killed {
			c15left(t, s, what, before, finNames, nil)
		}
		t.Eval(fmt.Sprintf("%s %d", s.kind, n))
		t.Count("limits", 1)
		os.RemoveAll(s.dir)
	}
}

func init() {
	register(&Check{ID: "C15", Level: "fault_enumeration",
		Rule:        "every file-changing system call of a save or push is preceded by a kill, failed, cut short and torn; the watched paths must hold the previous or a complete new version after each call",
		Assumptions: []string{"the process dies, not the machine: the order in which a crashed kernel would have written is not modelled", "file remotes; scp uploads are judged by C21"},
		Run: func(c *Ctx) {
			c.Cases("faults", c.N(36, 1200), c15case)
			c.Cases("limits", c.N(54, 1500), c15limit)
		}})
}
