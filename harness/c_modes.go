package main

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// ---- C09 ----

// tripwire counts connections.
type tripwire struct {
	l net.Listener
	n int32
}

func newTripwire() *tripwire {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	w := &tripwire{l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			atomic.AddInt32(&w.n, 1)
			c.Close()
		}
	}()
	return w
}

func (w *tripwire) port() int { return w.l.Addr().(*net.TCPAddr).Port }

// retime gives the records new increasing times, many of them on or next to whole seconds.
func retime(t *T, log []mTx) []mTx {
	out := append([]mTx{}, log...)
	now := int64(1571887976e9) + t.R.Int63n(1e9)
	for i := range out {
		switch t.R.Intn(6) {
		case 0:
			now = (now/1e9 + 1) * 1e9 // exactly on the second
		case 1:
			now = (now/1e9+1)*1e9 - 1 // just before
		case 2:
			now++
		case 3:
			now += 1e9 * (1 + t.R.Int63n(5000))
		default:
			now += 1 + t.R.Int63n(4e8)
		}
		out[i].Time = now
	}
	return out
}

type fileState struct {
	data string
	mod  time.Time
	mode os.FileMode
	ok   bool
}

func stateOf(f string) fileState {
	st, err := os.Stat(f)
	if err != nil {
		return fileState{}
	}
	b, _ := os.ReadFile(f)
	return fileState{string(b), st.ModTime(), st.Mode(), true}
}

func c09case(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 1000)
	rem1, rem2 := dir+"/rem1", dir+"/rem2"
	trip := newTripwire()
	defer trip.l.Close()
	for i, u := range []string{"file://" + rem1, "file://" + rem2, fmt.Sprintf("scp://joe:pw@127.0.0.1:%d/x", trip.port())} {
		e := g.add(fmt.Sprintf("sync/r%d", i))
		g.set(e, "url", u)
		g.set(e, "sync", "true")
	}
	for i := 5 + r.Intn(40); i > 0; i-- {
		if r.Intn(6) == 0 {
			g.add(g.uniqueName())
			continue
		}
		g.op(false)
		if r.Intn(8) == 0 && len(g.alive) > 0 {
			g.set(g.alive[r.Intn(len(g.alive))], "labels", pick(r, "a", "a,b", "b,a,c"))
		}
	}
	log := retime(t, g.log)
	login := []string{"pw"}
	if r.Intn(4) == 0 {
		mu := newMulti(t, []fUserCred{{Name: "ann", Pass: "pw"}, {Name: "bob", Pass: "p2"}}, 1)
		log = retime(t, append(append([]mTx{}, mu.log...), g.log...))
		mu.write(f, log)
		login = []string{"ann", "pw"}
	} else if r.Intn(2) == 0 {
		// with a stored view of some version
		k := r.Intn(len(log) + 1)
		v, err := mReplay(log[:k])
		if err != nil {
			panic(inconclusive(err.Error()))
		}
		mustWriteFile(f, fWriteSingle("pw", t.bytes(fSalt), t.bytes(fIV), (&mDB{Version: uint(k), Snapshot: v, Log: log}).encode()))
	} else {
		craft(t, f, "pw", log)
	}
	craft(t, rem1, "pw", log[:len(log)/2])
	// the moment
	at := log[r.Intn(len(log))].Time / 1e9
	switch r.Intn(8) {
	case 0:
		at++
	case 1:
		at--
	case 2:
		at = log[0].Time/1e9 - 5
	case 3:
		at = log[len(log)-1].Time/1e9 + 100000
	}
	k := 0
	for k < len(log) && log[k].Time <= at*1e9 {
		k++
	}
	past := log[:k]
	v, err := mReplay(past)
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	when := time.Unix(at, 0).UTC().Format("2006-01-02 15:04:05")
	t.Note("%d of %d records at %s", k, len(log), when)
	t.Set("log", log)
	files := []string{f, rem1, rem2}
	before := map[string]fileState{}
	for _, x := range files {
		before[x] = stateOf(x)
	}
	names := v.byName()
	var sorted []string
	for n := range names {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	s := NewSession(login...)
	var checks []simCheck
	add := func(seg int, what string, f func(string) string) { checks = append(checks, simCheck{seg, what, f}) }
	check := func() {
		add(s.Cmd("dumpall"), "dumpall", func(out string) string {
			var db mDB
			if err := json.Unmarshal([]byte(out), &db); err != nil {
				return err.Error()
			}
			if !logsEqual(db.Log, past) {
				return fmt.Sprintf("has %d records, want the %d made by %s", len(db.Log), k, when)
			}
			if int(db.Version) != k || !viewsEqual(db.Snapshot, v) {
				return "view: " + viewDiff(v, db.Snapshot)
			}
			return ""
		})
		_, nameless := names[""]
		if !nameless {
			add(s.Cmd("ls"), "ls", func(out string) string {
				want := strings.Join(sorted, "\n") + "\n"
				if len(sorted) > 0 && out != want {
					return fmt.Sprintf("lists %q, want %q", out, want)
				}
				return ""
			})
		}
		if len(sorted) == 0 {
			return
		}
		for i := 0; i < 3; i++ {
			n := sorted[r.Intn(len(sorted))]
			if n == "" || strings.ContainsAny(n, " \t\u00a0\u2028\u2029") {
				continue
			}
			sim := &sim{t: t, ents: map[string]*simEnt{}}
			for _, x := range sorted {
				sim.ents[x] = nil
			}
			hits := refSearch(sorted, n)
			if !nameless {
				add(s.Cmd("ls "+n), "ls "+n, func(out string) string {
					if want := strings.Join(hits, "\n") + "\n"; out != want {
						return fmt.Sprintf("lists %q, want %q", out, want)
					}
					return ""
				})
			}
			if sim.resolve(n) != n {
				continue
			}
			u := names[n]
			var own []mTx
			for _, tx := range past {
				if tx.UUID == u {
					own = append(own, tx)
				}
			}
			back := r.Intn(len(own) + 2)
			if back == 0 {
				add(s.Cmd("dump "+n), "dump "+n, func(out string) string { return checkDump(stripColor(out), v[u]) })
				continue
			}
			var want map[string]string
			if back <= len(own) {
				w, err := mReplay(own[:len(own)-back])
				if err == nil {
					want = w[u]
				}
			}
			delete(want, "totp")
			add(s.Cmd(fmt.Sprintf("show %s %d", n, back)), "show "+n, func(out string) string {
				if len(want) == 0 {
					if got := parseShow(out); len(got) != 0 {
						return fmt.Sprintf("%d steps back shows %q although there is nothing", back, got)
					}
					return ""
				}
				return checkShow(out, want, "", time.UTC, false)
			})
		}
	}
	check()
	// everything that would change something
	n := "sync/r0"
	if len(sorted) > 0 {
		n = sorted[r.Intn(len(sorted))]
		if n == "" {
			n = "x"
		}
	}
	// each with what its prompts would need to do their work
	has := func(key string) string { // an entry that has the key
		for _, i := range r.Perm(len(sorted)) {
			if _, ok := v[names[sorted[i]]][key]; ok && !strings.ContainsAny(sorted[i], " \t\u00a0\u2028\u2029") {
				return sorted[i]
			}
		}
		return n
	}
	lab := has("labels")
	first := "a"
	if e, ok := v[names[lab]]; ok {
		first = strings.Split(e["labels"], ",")[0]
	}
	anykey := "user"
	for k := range v[names[n]] {
		if !isProtected(k) && k > anykey && !strings.ContainsAny(k, " \t") {
			anykey = k
		}
	}
	writes := [][]string{{"set " + n + " k v"}, {"set " + n + " notes x y"}, {"set " + n + " fresh", "zzq", "."}, {"rm " + n, n}, {"mv " + n + " other"}, {"label " + n, "zzq", "."}, {"rmlabel " + lab + " " + first}, {"rmlabel " + lab + " " + first},
		{"rmk " + n + " " + anykey}, {"rmk " + n + " user"}, {"edit " + n + " notes"}, {"add brandnew", "", "", "y"}, {"addsync file", "/nonexistent/zzq"}, {"addsync scp", "zzq", "127.0.0.1", "1", "zzq", "1"}, {"adduser carl", "y"},
		{"passwd", "m", "zzq", "zzq"}, {"passwd ann", "m", "zzq", "zzq"}, {"rekey"}, {"rekey bob", "m", "zzq", "zzq"}, {"rekeyall", "y"}, {"sync"}, {"sync sync/r0"}, {"sync sync/r2"}, {"set " + n + " pass", "y"}, {"set " + n + " totp JBSWY3DPEHPK3PXP"}, {"set " + n + " url http://zzq/"}}
	for i := 0; i < 8; i++ {
		w := writes[r.Intn(len(writes))]
		if knownCmd[n] {
			w = w[:1] // an entry named like a command: no answer may run it
		}
		if r.Intn(5) == 0 && !strings.HasPrefix(w[0], "sync") {
			s.Raw("cd " + n)
			s.Raw(w...)
			s.Raw("cd")
		} else {
			s.Raw(w...)
		}
		// where the command is refused its answers are read as commands
		for _, l := range w[1:] {
			if f := strings.Fields(l); len(f) > 0 && !knownCmd[f[0]] {
				s.segs++
			}
		}
		t.Note("%s", w[0])
	}
	s.Cmd()
	check()
	end := r.Intn(3)
	switch end {
	case 0:
		s.Raw("exit")
	case 1:
		s.b.WriteString("\x04\n")
	}
	args := []string{"-t", when}
	if r.Intn(4) == 0 {
		args = append(args, "--no-sync")
	}
	res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: args}).Run(t)
	res.MustOK(t, "session at "+when)
	segs := res.Segments(t, s)
	for _, c := range checks {
		if m := c.f(c.strip(segs[c.seg])); m != "" {
			t.Fail("at %s, %s: %s", when, c.what, m)
		}
	}
	if len(res.Events) != 0 {
		for _, e := range res.Events {
			if e.Prog == "vedit" {
				t.Fail("at %s: the editor was started", when)
			}
		}
	}
	c09untouched(t, before, trip, when)
	// the other ways to use it
	if r.Intn(3) == 0 {
		out := dir + "/out.csv"
		res := (&Sess{Dir: dir, File: f, Input: strings.Join(login, "\n") + "\n", Args: args, Sub: []string{"export", out}}).Run(t)
		res.MustOK(t, "export at "+when)
		judgeExport(t, "export at "+when, mustRead(t, out), v)
		os.Remove(out)
		c09untouched(t, before, trip, "export at "+when)
	}
	t.Count("moments", 1)
	t.Eval(fmt.Sprint(when, k, len(log), s.String()))
	t.Sample(t.notes)
}

var knownCmd = func() map[string]bool {
	m := map[string]bool{}
	for _, c := range strings.Fields("passwd adduser rekey rekeyall add mv rm rmk ls cd cp get login set edit open label rmlabel labels show sync addsync dump dumpall help exit user pass email totp") {
		m[c] = true
	}
	return m
}()

func (c simCheck) strip(s string) string { return s }

func c09untouched(t *T, before map[string]fileState, trip *tripwire, what string) {
	for x, b := range before {
		a := stateOf(x)
		if a.ok != b.ok || a.data != b.data || a.mode != b.mode || !a.mod.Equal(b.mod) {
			t.Fail("%s: %s was changed or rewritten", what, filepath.Base(x))
		}
	}
	if n := atomic.LoadInt32(&trip.n); n != 0 {
		t.Fail("%s: %d connections to a remote were made", what, n)
	}
}

// ---- C31 ----

type remoteCase struct {
	name, kind, path, url string
	marked                bool // the entry is marked for automatic sync
	usable                bool // its url can be used
	mergeable             bool // what is there can be merged
	missing               bool // nothing is there, a push makes it
	log                   []mTx
	before                fileState
}

var remoteKinds = []string{"fork", "fork", "same", "behind", "ahead", "missing", "missing", "damaged", "damaged", "foreign", "multi", "notjson", "badlog", "empty",
	"junk", "directory", "nodir", "refused", "http", "nourl", "badurl", "unmarked", "unmarked-word", "unmarked-missing", "version"}

func c31case(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	os.MkdirAll(dir+"/r", 0700)
	// the common past: entries and the sync entries
	g := newLogGen(r, 1571887976e9, 1000)
	nr := 1 + r.Intn(5)
	var rs []*remoteCase
	// names that contain one another, or the names of entries that are none
	names := [][]string{{"sync/r0", "sync/r1", "sync/r2", "sync/r3", "sync/r4"},
		{"sync/r", "sync/r1", "sync/r11", "sync/r/r", "sync"},
		{"sync/r/r/r", "sync/R", "sync/r", "r", "mysync/r"},
		{"e", "e00", "sync/e0", "sync/sync/e0", "E0"}}[r.Intn(4)]
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for i := 0; i < nr; i++ {
		x := &remoteCase{name: names[i], kind: remoteKinds[r.Intn(len(remoteKinds))], marked: true, usable: true}
		x.path = fmt.Sprintf("%s/r/remote%d", dir, i)
		if r.Intn(4) == 0 {
			x.path = fmt.Sprintf("%s/r/re mote%%é%d", dir, i)
		}
		if x.kind == "nodir" {
			x.path = fmt.Sprintf("%s/r/nodir%d/x", dir, i)
		}
		x.url = "file://" + urlPath(x.path)
		mark := "true"
		switch x.kind {
		case "unmarked", "unmarked-missing":
			mark, x.marked = "", false
		case "unmarked-word":
			mark, x.marked = pick(r, "false", "no", "0", "TRUE ", "x"), false
		case "http":
			x.url, x.usable = "http://127.0.0.1:1/x", false
		case "nourl":
			x.url, x.usable = "", false
		case "badurl":
			x.url, x.usable = pick(r, "::", "%zz", "file", "://x", "/plain/path"), false
		case "refused":
			x.url = "scp://joe:pw@127.0.0.1:1/x"
		}
		e := g.add(x.name)
		if x.url != "" {
			g.set(e, "url", x.url)
		}
		if mark != "" {
			g.set(e, "sync", mark)
		}
		rs = append(rs, x)
	}
	var ents []string
	for i := 0; i < 4; i++ {
		n := fmt.Sprintf("e%d", i)
		e := g.add(n)
		g.set(e, "k", "v")
		ents = append(ents, e)
	}
	base := g.log
	edits := func(log []mTx, n int, who string) []mTx {
		out := append([]mTx{}, log...)
		now := int64(1571888000e9) + r.Int63n(1e9)
		for ; n > 0; n-- {
			now += 1 + r.Int63n(1e9)
			if r.Intn(4) == 0 {
				u := uuidSeq(r)
				out = append(out, mTx{now, "add", u, "", ""}, mTx{now + 1, "setk", u, "name", fmt.Sprintf("%s-%d", who, n)})
				continue
			}
			out = append(out, mTx{now, "setk", ents[r.Intn(len(ents))], pick(r, "k", "notes", "user"), fmt.Sprintf("%s %d", who, n)})
		}
		return out
	}
	local := edits(base, r.Intn(5), "local")
	multi := r.Intn(4) == 0
	login := []string{"pw"}
	var mu *multiFile
	write := func(path string, log []mTx) {
		if mu != nil {
			mu.write(path, log)
		} else {
			mustWriteFile(path, fWriteSingle("pw", t.bytes(fSalt), t.bytes(fIV), (&mDB{Log: log}).encode()))
		}
	}
	if multi {
		mu = newMulti(t, []fUserCred{{Name: "ann", Pass: "pw"}, {Name: "bob", Pass: "p2"}}, 1571887970e9)
		login = []string{"ann", "pw"}
		base = append(append([]mTx{}, mu.log...), base...)
		local = append(append([]mTx{}, mu.log...), local...)
	} else {
		// one salt for all copies, as in real copies
		salt := t.bytes(fSalt)
		write = func(path string, log []mTx) {
			mustWriteFile(path, fWriteSingle("pw", salt, t.bytes(fIV), (&mDB{Log: log}).encode()))
		}
	}
	write(f, local)
	for i, x := range rs {
		p := x.path
		encode := func(payload []byte) {
			if mu != nil {
				mustWriteFile(p, fWriteMulti(mu.users, mu.master, mu.ivm, payload))
			} else {
				mustWriteFile(p, fWriteSingle("pw", t.bytes(fSalt), t.bytes(fIV), payload))
			}
		}
		fork := edits(base, 1+r.Intn(4), fmt.Sprintf("r%d", i))
		switch x.kind {
		case "fork":
			x.log, x.mergeable = fork, true
			write(p, x.log)
		case "same":
			x.log, x.mergeable = local, true
			if r.Intn(2) == 0 {
				mustWriteFile(p, mustRead(t, f))
			} else {
				write(p, x.log)
			}
		case "behind":
			x.log, x.mergeable = local[:len(local)-minInt(len(local)-len(base), 1)], true
			write(p, x.log)
		case "ahead":
			last := local[len(local)-1].Time
			x.log, x.mergeable = append(append([]mTx{}, local...), mTx{last + 1e9, "setk", ents[0], "k", "ahead"}), true
			write(p, x.log)
		case "missing", "unmarked-missing":
			x.missing = true
		case "damaged":
			write(p, fork)
			b := mustRead(t, p)
			m, _ := mutate(t, b, b, 0)
			if string(m) == string(b) {
				m = m[:len(m)-8]
			}
			mustWriteFile(p, m)
		case "version":
			write(p, fork)
			b := mustRead(t, p)
			copy(b[8:12], "0002")
			mustWriteFile(p, b)
		case "foreign":
			craft(t, p, "other pass", fork)
		case "multi":
			m2 := newMulti(t, []fUserCred{{Name: "zoe", Pass: "zz"}}, 1571887970e9)
			m2.write(p, append(append([]mTx{}, m2.log...), fork...))
		case "notjson":
			encode([]byte(pick(r, "{", "hello", `{"log":3}`, `{"log":[{"time":"x"}]}`, `[1]`)))
		case "badlog": // a change to an entry that is not there
			encode((&mDB{Log: append(append([]mTx{}, base...), mTx{1571889000e9, "setk", uuidSeq(r), "k", "v"})}).encode())
		case "empty":
			mustWriteFile(p, nil)
		case "junk":
			mustWriteFile(p, t.bytes(r.Intn(400)))
		case "directory":
			os.MkdirAll(p, 0700)
		case "nodir":
			x.missing = true // nor can it be made
		case "refused":
		default: // unmarked and unusable ones have something good to lose
			write(p, fork)
			x.log = fork
			x.mergeable = x.usable
		}
		x.before = stateOf(p)
		t.Note("%s: %s", x.name, x.kind)
	}
	// the session
	mode := pick(r, "auto", "auto", "auto", "auto-edit", "no-sync", "no-sync-edit", "sync", "named", "named", "time", "named-nothing")
	s := &Script{}
	s.Raw(login...)
	// anything that asks for other credentials gets none; at the main prompt these do nothing
	give := func() {
		for i := 0; i < 2*nr+2; i++ {
			s.Raw("ls zzzz", "")
		}
	}
	var args []string
	eligible := func(x *remoteCase) bool { return x.marked && x.usable }
	edited := ""
	switch mode {
	case "auto", "auto-edit":
		give()
	case "no-sync", "no-sync-edit":
		args = []string{"--no-sync"}
		eligible = func(*remoteCase) bool { return false }
	case "time":
		args = []string{"-t", "2035-01-01 00:00:00"}
		eligible = func(*remoteCase) bool { return false }
	case "sync":
		args = []string{"--no-sync"}
		s.Raw(sentinelCmd, "sync")
		give()
	case "named", "named-nothing":
		args = []string{"--no-sync"}
		x := rs[r.Intn(nr)]
		eligible = func(y *remoteCase) bool { return x == y && x.usable }
		n := x.name
		if mode == "named-nothing" {
			n = pick(r, "sync/nope", "e0", "r0", "sync/", "sync/rr", "ync/r", "SYNC/R1")
			eligible = func(*remoteCase) bool { return false }
		}
		s.Raw(sentinelCmd, "sync "+n)
		give()
		t.Note("named %s", n)
	}
	if mode == "sync" || strings.HasPrefix(mode, "named") {
	} else {
		s.Raw(sentinelCmd)
	}
	if strings.HasSuffix(mode, "edit") {
		edited = "edited" + fmt.Sprint(r.Intn(1000))
		s.Raw("set e0 k " + edited)
	}
	s.Raw("get e1 name")
	s.Raw("exit")
	if mode == "auto-edit" {
		give()
	}
	t.Note("mode %s", mode)
	localBefore := stateOf(f)
	res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: args}).Run(t)
	if c := res.Crashed(); c != "" {
		t.Fail("%s: crash: %s", mode, c)
	}
	if res.Code != 0 {
		t.Fail("%s: the session fails with status %d\n%s", mode, res.Code, tail(res.Out, 1500))
	}
	if !strings.Contains(res.Out, sentinelOut) || !strings.Contains(res.Out, "e1\n") {
		t.Fail("%s: the session did not go on after the synchronisation\n%s", mode, tail(res.Out, 1500))
	}
	// what has to be in the result
	want := append([]mTx{}, local...)
	for _, x := range rs {
		if eligible(x) && x.mergeable {
			want = union(want, x.log)
		}
	}
	user, pass := "", "pw"
	if multi {
		user = "ann"
	}
	db, _ := openDB(t, f, user, pass)
	checkStored(t, "local file", db)
	if mode == "time" {
		if !sameState(localBefore, stateOf(f)) {
			t.Fail("a session at a past time changed the local file")
		}
	} else {
		c31content(t, "local file", db.Log, want, edited)
	}
	for _, x := range rs {
		after := stateOf(x.path)
		if after.data != x.before.data || after.ok != x.before.ok {
			if !eligible(x) {
				t.Fail("%s: the remote %s (%s), which is not to be used, was changed", mode, x.name, x.kind)
			}
			if !x.mergeable && !x.missing {
				t.Fail("%s: the remote %s (%s) was overwritten although it could not be merged\n%s", mode, x.name, x.kind, tail(res.Out, 1500))
			}
		}
		if !eligible(x) || x.kind == "nodir" {
			continue
		}
		if x.mergeable || x.missing {
			rdb, _ := openDB(t, x.path, user, pass)
			checkStored(t, "remote "+x.name, rdb)
			if x.mergeable && logsEqual(rdb.Log, x.log) && logsEqual(x.log, local) {
				continue // "no changes" remotes wait for the next sync
			}
			ed := edited
			if len(rdb.Log) == len(want) {
				ed = ""
			}
			c31content(t, "remote "+x.name+" ("+x.kind+")", rdb.Log, want, ed)
			if st, err := os.Stat(x.path); err == nil && x.missing && st.Mode().Perm()&0077 != 0 {
				t.Fail("the new remote %s has mode %o", x.name, st.Mode().Perm())
			}
		}
	}
	des, _ := os.ReadDir(dir + "/r")
	for _, d := range des {
		known := false
		for _, x := range rs {
			known = known || filepath.Base(x.path) == d.Name()
		}
		if !known {
			t.Fail("%s: the sync left %q next to the remotes", mode, d.Name())
		}
	}
	var ks []string
	for _, x := range rs {
		ks = append(ks, x.kind)
		t.Count("remote_"+x.kind, 1)
	}
	t.Count("mode_"+mode, 1)
	t.Eval(fmt.Sprint(mode, ks, multi, len(want), t.Case))
	t.Sample(t.notes)
}

func sameState(a, b fileState) bool {
	return a.ok == b.ok && a.data == b.data && a.mode == b.mode && a.mod.Equal(b.mod)
}

func union(a, b []mTx) []mTx {
	seen := map[mTx]bool{}
	for _, x := range a {
		seen[x] = true
	}
	out := append([]mTx{}, a...)
	for _, x := range b {
		if !seen[x] {
			out = append(out, x)
		}
	}
	return out
}

// c31content: the log holds exactly the wanted records, and the session's own edit if there was one.
func c31content(t *T, what string, log, want []mTx, edited string) {
	m := map[mTx]int{}
	for _, x := range log {
		m[x]++
	}
	for _, x := range want {
		if m[x] != 1 {
			t.Fail("%s holds the record %+v %d times", what, x, m[x])
		}
		delete(m, x)
	}
	found := edited == ""
	for x := range m {
		switch {
		case x.Kind == "setk" && x.Key == "updated":
		case edited != "" && x.Kind == "setk" && x.Key == "k" && x.Value == edited:
			found = true
		default:
			t.Fail("%s holds a record %+v nobody made", what, x)
		}
	}
	if !found {
		t.Fail("%s lost the session's own edit", what)
	}
	if edited == "" && len(m) != 0 {
		t.Fail("%s holds %d more records", what, len(m))
	}
}

func urlPath(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		c := p[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '/' || c == '-' || c == '_' || c == '.' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

// c31declined: the user declines a merge or leaves the question; nothing changes anywhere.
func c31declined(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 1000)
	nr := 1 + r.Intn(3)
	var paths []string
	for i := 0; i < nr; i++ {
		p := fmt.Sprintf("%s/remote%d", dir, i)
		paths = append(paths, p)
		e := g.add(fmt.Sprintf("sync/r%d", i))
		g.set(e, "url", "file://"+p)
		g.set(e, "sync", "true")
	}
	var es []string
	for i := 0; i < 4; i++ {
		es = append(es, g.add(fmt.Sprintf("e%d", i)))
	}
	base := g.log
	local := append([]mTx{}, base...)
	now := int64(1571888000e9)
	root := r.Intn(2) == 0
	for i := 0; i < r.Intn(3); i++ {
		local = append(local, mTx{now + int64(i), "setk", es[1], "k", fmt.Sprint("l", i)})
	}
	del := r.Intn(2) == 0
	if !root {
		if del {
			local = append(local, mTx{now + 10, "del", es[0], "", ""})
		} else {
			local = append(local, mTx{now + 20, "setk", es[0], "k", "mine"})
		}
	}
	bad := r.Intn(nr)
	salt := t.bytes(fSalt)
	write := func(p string, l []mTx) {
		mustWriteFile(p, fWriteSingle("pw", salt, t.bytes(fIV), (&mDB{Log: l}).encode()))
	}
	write(f, local)
	for i, p := range paths {
		l := append([]mTx{}, base...)
		switch {
		case i != bad:
			if r.Intn(4) == 0 {
				continue // missing
			}
			l = append(l, mTx{now + 30 + int64(i), "setk", es[2], "k", fmt.Sprint("r", i)})
		case root:
			og := newLogGen(r, 1571887000e9, 1000)
			og.set(og.add("stranger"), "k", "v")
			l = og.log
		case del:
			l = append(l, mTx{now + 20, "setk", es[0], "k", "theirs"})
		default:
			l = append(l, mTx{now + 10, "del", es[0], "", ""})
		}
		write(p, l)
	}
	files := append([]string{f}, paths...)
	before := map[string]fileState{}
	for _, x := range files {
		before[x] = stateOf(x)
	}
	s := &Script{}
	s.Raw("pw")
	args := []string{}
	how := pick(r, "auto", "sync", "named")
	if how != "auto" {
		args = []string{"--no-sync"}
		if how == "named" {
			s.Raw(fmt.Sprintf("sync sync/r%d", bad))
		} else {
			s.Raw("sync")
		}
	}
	ans := "\x04"
	if root {
		ans = pick(r, "n", "n", "N", "\x04", "\x03")
	} else {
		ans = pick(r, "\x04", "\x03")
	}
	if r.Intn(3) == 0 {
		s.Raw("what") // no answer at all
	}
	s.Raw(ans)
	s.Raw(sentinelCmd)
	d := "dumpall"
	s.Raw(d)
	s.Raw(sentinelCmd, "exit")
	t.Note("%s root=%v answer %q", how, root, ans)
	res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: args}).Run(t)
	if c := res.Crashed(); c != "" {
		t.Fail("crash: %s", c)
	}
	if res.Code != 0 {
		t.Fail("declined merge: status %d\n%s", res.Code, tail(res.Out, 1500))
	}
	segs := res.Segs()
	if len(segs) != 3 {
		t.Fail("declined merge: %d of 2 sentinels answered\n%s", len(segs)-1, tail(res.Out, 1500))
	}
	var shown mDB
	if err := json.Unmarshal([]byte(segs[1]), &shown); err != nil || !logsEqual(shown.Log, local) {
		t.Fail("declined merge: the session goes on with another log (%v)", err)
	}
	db, _ := openDB(t, f, "", "pw")
	if !logsEqual(db.Log, local) {
		t.Fail("declined merge: the local file has another log")
	}
	for _, p := range paths {
		a, b := stateOf(p), before[p]
		if a.ok != b.ok || a.data != b.data {
			t.Fail("declined merge: the remote %s was changed", filepath.Base(p))
		}
	}
	t.Count("declined", 1)
	t.Eval(fmt.Sprint(how, root, ans, nr, bad, t.Case))
}

// c31moved: what is merged gives an entry another url, of a store that this sync did not fetch.
func c31moved(t *T) {
	r := t.R
	dir := t.Scratch()
	f, target := dir+"/f", dir+"/target"
	g := newLogGen(r, 1571887976e9, 1000)
	nr := 1 + r.Intn(3)
	var paths, ids []string
	for i := 0; i < nr; i++ {
		p := fmt.Sprintf("%s/remote%d", dir, i)
		e := g.add(fmt.Sprintf("sync/r%d", i))
		g.set(e, "url", "file://"+p)
		g.set(e, "sync", "true")
		paths, ids = append(paths, p), append(ids, e)
	}
	e := g.add("e")
	base := g.log
	now := int64(1571888000e9)
	made := map[mTx]bool{}
	for _, x := range base {
		made[x] = true
	}
	edit := func(l []mTx, i int) []mTx {
		for n := r.Intn(3); n > 0; n-- {
			x := mTx{now + r.Int63n(1000), "setk", e, fmt.Sprintf("k%d", i), fmt.Sprint(r.Intn(100))}
			l = append(l, x)
			now += 1000
		}
		return l
	}
	salt := t.bytes(fSalt)
	write := func(p string, l []mTx) {
		mustWriteFile(p, fWriteSingle("pw", salt, t.bytes(fIV), (&mDB{Log: l}).encode()))
	}
	note := func(l []mTx) {
		for _, x := range l {
			made[x] = true
		}
	}
	moved, by := r.Intn(nr), r.Intn(nr)
	local := edit(append([]mTx{}, base...), 0)
	note(local)
	write(f, local)
	for i, p := range paths {
		if i != by && r.Intn(3) == 0 {
			continue // missing
		}
		l := edit(append([]mTx{}, base...), 1+i)
		if i == by {
			now += 10
			l = append(l, mTx{now, "setk", ids[moved], "url", "file://" + target})
			l = edit(l, 1+i)
		}
		note(l)
		write(p, l)
	}
	kind := pick(r, "fork", "fork", "fork", "ahead", "junk", "other passphrase", "missing")
	var there []mTx
	switch kind {
	case "fork":
		there = append(append([]mTx{}, base...), mTx{now + 5, "setk", e, "kt", "only there"})
		write(target, there)
	case "ahead":
		there = append(append([]mTx{}, local...), mTx{now + 5, "setk", e, "kt", "only there"})
		write(target, there)
	case "junk":
		mustWriteFile(target, t.bytes(1+r.Intn(300)))
	case "other passphrase":
		mustWriteFile(target, fWriteSingle("another", t.bytes(fSalt), t.bytes(fIV), (&mDB{Log: append(append([]mTx{}, base...), mTx{now + 5, "setk", e, "kt", "only there"})}).encode()))
	}
	note(there)
	before := stateOf(target)
	t.Note("%d remotes, r%d moved by r%d to a %s target", nr, moved, by, kind)
	has := func(what, p string, want map[mTx]bool) {
		db, _ := openDB(t, p, "", "pw")
		in := map[mTx]bool{}
		for _, x := range db.Log {
			in[x] = true
		}
		for x := range want {
			if !in[x] {
				t.Fail("%s lacks the record %+v", what, x)
			}
		}
	}
	for run := 1; run <= 2; run++ {
		s := &Script{}
		s.Raw("pw")
		var args []string
		if run == 1 && nr == 1 && r.Intn(2) == 0 {
			args = []string{"--no-sync"}
			s.Raw(pick(r, "sync", "sync sync/r0"))
		}
		if kind == "other passphrase" {
			s.Raw("") // not known
		}
		s.Raw(sentinelCmd, "exit")
		res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: args}).Run(t)
		if c := res.Crashed(); c != "" {
			t.Fail("crash: %s", c)
		}
		if res.Code != 0 || len(res.Segs()) != 2 {
			t.Fail("moved remote: status %d\n%s", res.Code, tail(res.Out, 1500))
		}
		after := stateOf(target)
		t.Set("output", tail(res.Out, 1500))
		if (kind == "junk" || kind == "other passphrase") && (!after.ok || after.data != before.data) {
			t.Fail("session %d: a remote that was not merged (%s) was overwritten\n%s", run, kind, tail(res.Out, 1500))
		}
		if there != nil && after.data != before.data {
			w := map[mTx]bool{}
			for _, x := range there {
				w[x] = true
			}
			has(fmt.Sprintf("session %d: the other remote, which was overwritten,", run), target, w)
		}
		if run == 1 {
			w := map[mTx]bool{}
			for x := range made {
				if x.Value != "only there" {
					w[x] = true
				}
			}
			has("session 1: the file", f, w)
		}
	}
	has("the file after another sync", f, func() map[mTx]bool {
		return made
	}())
	if kind == "fork" || kind == "ahead" || kind == "missing" {
		has("the new remote after another sync", target, made)
	}
	t.Count("moved_"+strings.ReplaceAll(kind, " ", "_"), 1)
	t.Eval(fmt.Sprint("moved", nr, moved, by, kind, t.Case))
}

func init() {
	register(&Check{ID: "C09",
		Rule:        "Random histories (records on, next to and between whole seconds, with and without a stored view, multi-user too) are opened with -t at chosen moments; dumpall, ls, queries, dump and history of entries are compared with the replay of exactly the records up to that moment, before and after a series of modifying commands, none of which may have any effect; bytes, mode and modification time of the file and of its remotes must stay and no connection be made; export at a past time too. Non-trivial: every session; distinct by moment and commands.",
		Assumptions: []string{"records' times do not run backwards", "the time given is UTC"},
		Run:         func(c *Ctx) { c.Cases("moments", c.N(5000, 60000), c09case) }})
	register(&Check{ID: "C31",
		Rule:        "Files with one to five remotes in every condition (forked, same, missing, damaged, foreign, wrong version, not JSON, unreplayable, empty, directory, unreachable, unusable url, not marked) are synchronised automatically, by command, by name, not at all or at a past time; remotes that are not to be used or cannot be merged must keep their bytes, all others and the local file must hold exactly the union of records, and the session must go on. Declined merges must change nothing. Non-trivial: every session; distinct by kinds and mode.",
		Assumptions: []string{"a remote that already held the local log may be left alone until the next sync", "forks without conflicts except in the declined group"},
		Run: func(c *Ctx) {
			c.Cases("remotes", c.N(6000, 80000), c31case)
			c.Cases("declined", c.N(1500, 20000), c31declined)
			c.Cases("moved", c.N(600, 8000), c31moved)
		}})
}
