package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
)

// checkStored judges what a saved database says about itself.
func checkStored(t *T, what string, db *mDB) mView {
	v, err := mReplay(db.Log)
	if err != nil {
		t.Fail("%s: the saved log does not replay: %v", what, err)
	}
	if db.Version > uint(len(db.Log)) {
		t.Fail("%s: saved view of version %d, there are %d records", what, db.Version, len(db.Log))
	}
	c, _ := mReplay(db.Log[:db.Version])
	if !(len(c) == 0 && len(db.Snapshot) == 0) && !viewsEqual(c, db.Snapshot) {
		t.Fail("%s: the saved view is not that of its version: %s", what, viewDiff(c, db.Snapshot))
	}
	return v
}

// parallel runs sessions at the same time; panics of the cases' own are passed on.
func parallel(fs ...func()) {
	var wg sync.WaitGroup
	ps := make([]interface{}, len(fs))
	for i, f := range fs {
		wg.Add(1)
		go func(i int, f func()) {
			defer wg.Done()
			defer func() { ps[i] = recover() }()
			f()
		}(i, f)
	}
	wg.Wait()
	for _, p := range ps {
		if p != nil {
			panic(p)
		}
	}
}

// ---- C12 ----

type sdev struct {
	id    int
	dir   string
	file  string
	user  string
	pass  string
	log   []mTx
	bytes string
}

func (d *sdev) login() []string {
	if d.user == "" {
		return []string{d.pass}
	}
	return []string{d.user, d.pass}
}

// multiFile is a multi-user file made by the independent codec, with its user entries.
type multiFile struct {
	users       []fUserCred
	master, ivm []byte
	log         []mTx
	uuids       map[string]string
}

func newMulti(t *T, users []fUserCred, start int64) *multiFile {
	m := &multiFile{master: t.bytes(fKey), ivm: t.bytes(fIV), uuids: map[string]string{}}
	g := plainLogGen(t.R, start, 1000)
	for _, u := range users {
		u.Salt, u.IV = t.bytes(fSalt), t.bytes(fIV)
		m.users = append(m.users, u)
		id := g.add("user/" + u.Name)
		m.uuids[u.Name] = id
		g.rec("setk", id, "salt", hex.EncodeToString(u.Salt))
		g.rec("setk", id, "iv", hex.EncodeToString(u.IV))
		g.rec("setk", id, "mkey", hex.EncodeToString(fWrapMaster(fDerive(u.Pass, u.Salt), u.IV, m.master)))
	}
	m.log = g.log
	return m
}

func (m *multiFile) write(f string, log []mTx) {
	mustWriteFile(f, fWriteMulti(m.users, m.master, m.ivm, (&mDB{Log: log}).encode()))
}

type syncWorld struct {
	t       *T
	devs    []*sdev
	remotes []string
	names   []string // entries by name, all devices
	frozen  map[string]bool
	all     map[mTx]bool
	seq     int
	noDel   bool
	cred    [2]string
	sig     strings.Builder
}

func newSyncWorld(t *T, nd, nr int) *syncWorld {
	w := &syncWorld{t: t, frozen: map[string]bool{}, all: map[mTx]bool{}}
	root := t.Scratch()
	now := int64(1571887976e9)
	var base []mTx
	for i := 0; i < nr; i++ {
		p := fmt.Sprintf("%s/remote%d", root, i)
		w.remotes = append(w.remotes, p)
		base = append(base, syncEntry(t, now, fmt.Sprintf("sync/r%d", i), p)...)
		now += 1e6
	}
	g := newLogGen(t.R, now, 1000)
	for i := 1 + t.R.Intn(3); i > 0; i-- {
		n := fmt.Sprintf("base%d", i)
		g.set(g.add(n), "k", "v")
		w.names = append(w.names, n)
	}
	base = append(base, g.log...)
	multi := t.R.Intn(3) == 0
	var mu *multiFile
	if multi {
		var us []fUserCred
		for i := 0; i < nd; i++ {
			us = append(us, fUserCred{Name: fmt.Sprintf("u%d", i), Pass: fmt.Sprintf("pw%d", i)})
		}
		mu = newMulti(t, us, g.now+1e6)
		base = append(base, mu.log...)
	}
	w.cred = [2]string{"", "pw"}
	for i := 0; i < nd; i++ {
		d := &sdev{id: i, dir: fmt.Sprintf("%s/dev%d", root, i), pass: "pw", log: base}
		os.MkdirAll(d.dir, 0700)
		d.file = d.dir + "/f"
		if multi {
			d.user, d.pass = mu.users[i].Name, mu.users[i].Pass
			mu.write(d.file, base)
		} else {
			craft(t, d.file, "pw", base)
		}
		w.devs = append(w.devs, d)
	}
	if multi {
		w.cred = [2]string{"u0", "pw0"}
	} else if t.R.Intn(3) != 0 {
		// usually the copies are copies
		for _, d := range w.devs[1:] {
			mustWriteFile(d.file, mustRead(t, w.devs[0].file))
		}
	}
	for i, p := range w.remotes {
		if t.R.Intn(3) != 0 {
			mustWriteFile(p, mustRead(t, w.devs[0].file))
		} else if !multi && i == 0 && t.R.Intn(4) == 0 {
			craft(t, p, "pw", nil)
		}
	}
	w.note(base)
	return w
}

func (w *syncWorld) note(l []mTx) {
	for _, x := range l {
		w.all[x] = true
	}
}

func contains(outer, inner []mTx) *mTx {
	m := map[mTx]int{}
	for _, x := range outer {
		m[x]++
	}
	for i := range inner {
		if m[inner[i]] == 0 {
			return &inner[i]
		}
	}
	return nil
}

func (w *syncWorld) remoteLog(i int) ([]mTx, bool) {
	if _, err := os.Stat(w.remotes[i]); err != nil {
		return nil, false
	}
	db, _ := openDB(w.t, w.remotes[i], w.cred[0], w.cred[1])
	checkStored(w.t, "remote", db)
	return db.Log, true
}

type recKey struct{ kind, key, val string }

// edits makes up the commands of a session and the records they must leave.
func (w *syncWorld) edits(d *sdev, s *Script, n int) (want []recKey) {
	r := w.t.R
	view, _ := mReplay(d.log)
	have := map[string]bool{}
	for n := range view.byName() {
		have[n] = true
	}
	for ; n > 0; n-- {
		w.seq++
		var mine []string
		for _, x := range w.names {
			if have[x] && !w.frozen[x] {
				mine = append(mine, x)
			}
		}
		v := fmt.Sprintf("v%d-%d", d.id, w.seq)
		if len(mine) == 0 || r.Intn(4) == 0 {
			n := fmt.Sprintf("d%d-e%d", d.id, w.seq)
			s.Cmd("add "+n, "", "u"+v, "m", v, v)
			want = append(want, recKey{"add", "", ""}, recKey{"setk", "name", n}, recKey{"setk", "user", "u" + v}, recKey{"setk", "pass", v})
			w.names = append(w.names, n)
			have[n] = true
			w.sig.WriteByte('a')
			continue
		}
		x := mine[r.Intn(len(mine))]
		k := r.Intn(8)
		if k == 0 && w.noDel {
			k = 7
		}
		switch k {
		case 0:
			s.Cmd("rm "+x, x)
			want = append(want, recKey{"del", "", ""})
			w.frozen[x] = true
			w.sig.WriteByte('x')
		case 1:
			s.Cmd("label "+x, fmt.Sprintf("l%d", w.seq), "")
			want = append(want, recKey{"setk", "labels", "*"})
			w.sig.WriteByte('l')
		default:
			k := pick(r, "k", "user", "notes")
			s.Cmd("set " + x + " " + k + " " + v)
			want = append(want, recKey{"setk", k, v})
			w.sig.WriteByte('s')
		}
	}
	return want
}

// account checks that the records nobody had before are those the sessions asked for.
func (w *syncWorld) account(what string, log []mTx, want []recKey) {
	left := append([]recKey{}, want...)
	for _, x := range log {
		if w.all[x] {
			continue
		}
		if x.Kind == "setk" && x.Key == "updated" {
			continue
		}
		ok := false
		for i, k := range left {
			if k.kind == x.Kind && k.key == x.Key && (k.val == x.Value || k.val == "*") {
				left = append(left[:i:i], left[i+1:]...)
				ok = true
				break
			}
		}
		if !ok {
			w.t.Fail("%s: record %+v was made by no one", what, x)
		}
	}
	if len(left) > 0 {
		w.t.Fail("%s: edits %v are missing from the log", what, left)
	}
	w.note(log)
}

func (w *syncWorld) load(d *sdev) []mTx {
	db, _ := openDB(w.t, d.file, d.user, d.pass)
	checkStored(w.t, "local", db)
	return db.Log
}

// session runs one session on a device and judges what it left.
func (w *syncWorld) session(d *sdev, mode string) {
	t, r := w.t, w.t.R
	s := NewSession(d.login()...)
	var before [][]mTx
	for i := range w.remotes {
		l, _ := w.remoteLog(i)
		before = append(before, l)
	}
	fmt.Fprintf(&w.sig, "|%d%s:", d.id, mode)
	var want []recKey
	args := []string{"--no-sync"}
	local0 := mustRead(t, d.file)
	switch mode {
	case "auto":
		args = nil
		want = w.edits(d, s, r.Intn(4))
	case "idle":
		args = nil
	case "offline":
		want = w.edits(d, s, 1+r.Intn(4))
	case "cmd":
		want = w.edits(d, s, r.Intn(3))
		s.Cmd(pick(r, "sync", fmt.Sprintf("sync sync/r%d", r.Intn(len(w.remotes)))))
		// names of entries that arrived are not used: the model cannot know which did
		want = append(want, w.edits(d, s, r.Intn(3))...)
		if r.Intn(3) == 0 {
			s.Cmd("sync")
		}
	case "interrupt":
		want = w.edits(d, s, r.Intn(3))
		s.Cmd("sync")
		s.b.WriteString("\x03\n")
	}
	if mode != "interrupt" {
		s.Raw("exit")
	}
	t.Note("device %d %s: %s", d.id, mode, quoteInput(s.String()))
	res := (&Sess{Dir: d.dir, File: d.file, Input: s.String(), Args: args}).Run(t)
	if mode == "interrupt" {
		if c := res.Crashed(); c != "" {
			t.Fail("crash: %s", c)
		}
		if string(mustRead(t, d.file)) != string(local0) {
			t.Fail("an interrupted session changed the local file")
		}
		l, ok := w.remoteLog(0)
		if !ok {
			t.Fail("sync did not create the remote\n%s", tail(res.Out, 1000))
		}
		if x := contains(l, d.log); x != nil {
			t.Fail("the synchronised remote lacks the local record %+v", *x)
		}
		w.account("remote after an interrupted session", l, want)
	} else {
		res.MustOK(t, "session with sync")
		res.Segments(t, s)
		l := w.load(d)
		if x := contains(l, d.log); x != nil {
			t.Fail("device %d lost its record %+v in a session (%s)\n%s", d.id, *x, mode, tail(res.Out, 1200))
		}
		w.account(fmt.Sprintf("device %d (%s)", d.id, mode), l, want)
		if mode == "auto" || mode == "idle" {
			for i := range w.remotes {
				if x := contains(l, before[i]); x != nil {
					t.Fail("device %d did not receive %+v from remote %d\n%s", d.id, *x, i, tail(res.Out, 1200))
				}
				rl, ok := w.remoteLog(i)
				if !ok || !logsEqual(rl, l) {
					t.Fail("after automatic sync remote %d has %d records, device %d has %d\nremote %s\nlocal  %s\n%s", i, len(rl), d.id, len(l), times(rl), times(l), tail(res.Out, 1200))
				}
			}
		}
		d.log = l
	}
	for i := range w.remotes {
		l, _ := w.remoteLog(i)
		if x := contains(l, before[i]); x != nil {
			t.Fail("remote %d lost %+v when device %d synchronised (%s)\n%s", i, *x, d.id, mode, tail(res.Out, 1200))
		}
		if mode == "offline" && !logsEqual(l, before[i]) {
			t.Fail("a session told not to sync changed remote %d", i)
		}
		w.note(l)
	}
}

// converge lets everybody sync twice and judges the outcome.
func (w *syncWorld) converge() {
	t := w.t
	for round := 0; round < 2; round++ {
		for _, d := range w.devs {
			w.session(d, "idle")
		}
	}
	first := w.devs[0].log
	for _, d := range w.devs {
		if !logsEqual(d.log, first) {
			t.Fail("devices 0 and %d differ after everybody has synced twice:\n%s\n%s", d.id, times(first), times(d.log))
		}
	}
	for x := range w.all {
		if contains(first, []mTx{x}) != nil {
			t.Fail("record %+v that was made somewhere is missing after everybody has synced", x)
		}
	}
	if len(first) != len(w.all) {
		t.Fail("the synced log has %d records, %d were made", len(first), len(w.all))
	}
	v, err := mReplay(first)
	if err != nil {
		t.Fail("the synced log does not replay: %v", err)
	}
	if n := v.byName(); len(n) != len(v) {
		t.Fail("two entries share a name after sync")
	}
	d := w.devs[t.R.Intn(len(w.devs))]
	w.session(d, "idle")
	if !logsEqual(d.log, first) {
		t.Fail("a further sync changed the log")
	}
	t.Count("records_converged", len(first))
}

func c12world(t *T) {
	r := t.R
	nr := 1 + r.Intn(5)/3
	if t.Large {
		nr = 3 + r.Intn(6)
	}
	w := newSyncWorld(t, 2+r.Intn(3), nr)
	for i := 4 + r.Intn(8); i > 0; i-- {
		d := w.devs[r.Intn(len(w.devs))]
		switch r.Intn(10) {
		case 0, 1, 2:
			w.session(d, "auto")
		case 3, 4, 5:
			w.session(d, "offline")
		case 6, 7:
			w.session(d, "cmd")
		case 8:
			w.session(d, "interrupt")
		case 9:
			w.race(d)
		}
	}
	w.converge()
	t.Eval(w.sig.String())
	t.Sample(w.sig.String())
}

// race plays the schedule in which two devices pull before either pushes: the first push is
// overwritten by the second.
func (w *syncWorld) race(d *sdev) {
	t := w.t
	e := w.devs[t.R.Intn(len(w.devs))]
	if e == d {
		return
	}
	if t.R.Intn(2) == 0 {
		// make both logs equally long
		w.session(d, "auto")
		w.session(e, "auto")
		for _, x := range []*sdev{d, e} {
			s := NewSession(x.login()...)
			w.seq++
			n := fmt.Sprintf("d%d-e%d", x.id, w.seq)
			s.Cmd("add "+n, "", "", "m", "p", "p")
			s.Raw("exit")
			(&Sess{Dir: x.dir, File: x.file, Input: s.String(), Args: []string{"--no-sync"}}).Run(t).MustOK(t, "offline session")
			x.log = w.load(x)
			w.note(x.log)
			w.names = append(w.names, n)
		}
	}
	var keep [][]byte
	for _, p := range w.remotes {
		b, _ := os.ReadFile(p)
		keep = append(keep, b)
	}
	w.sig.WriteString("|race")
	w.session(d, "idle")
	for i, p := range w.remotes {
		if keep[i] == nil {
			os.Remove(p)
		} else {
			mustWriteFile(p, keep[i])
		}
	}
	w.session(e, "idle")
	t.Count("races", 1)
}

// c12concurrent runs sessions of several devices at the same time.
func c12concurrent(t *T) {
	r := t.R
	w := newSyncWorld(t, 2+r.Intn(3), 1+r.Intn(2))
	w.noDel = true // others may edit what is being deleted
	for round := 1 + r.Intn(3); round > 0; round-- {
		var fs []func()
		scripts := make([]*Script, len(w.devs))
		wants := make([][]recKey, len(w.devs))
		results := make([]*Result, len(w.devs))
		for i, d := range w.devs {
			s := NewSession(d.login()...)
			wants[i] = w.edits(d, s, 1+r.Intn(3))
			if r.Intn(2) == 0 {
				s.Cmd("sync")
			}
			s.Raw("exit")
			scripts[i] = s
			i, d := i, d
			fs = append(fs, func() {
				results[i] = (&Sess{Dir: d.dir, File: d.file, Input: s.String()}).Run(t)
			})
		}
		parallel(fs...)
		for i := range w.remotes {
			w.remoteLog(i) // whole, whoever pushed last
		}
		var wantAll []recKey
		for i, d := range w.devs {
			results[i].MustOK(t, "concurrent session")
			l := w.load(d)
			if x := contains(l, d.log); x != nil {
				t.Fail("device %d lost %+v while others synced", i, *x)
			}
			d.log = l
			wantAll = append(wantAll, wants[i]...)
		}
		// every edit is in its own device's file, and nothing came from nowhere
		for i, d := range w.devs {
			left := append([]recKey{}, wants[i]...)
			for _, x := range d.log {
				for k := range left {
					if left[k].kind == x.Kind && left[k].key == x.Key && (left[k].val == x.Value || left[k].val == "*") && !w.all[x] {
						left = append(left[:k:k], left[k+1:]...)
						break
					}
				}
			}
			if len(left) > 0 {
				t.Fail("device %d: own edits %v are missing\nlog %s\n%s\nsession: %s", i, left, times(d.log), tail(results[i].Out, 3000), quoteInput(scripts[i].String()))
			}
		}
		var union []mTx
		seen := map[mTx]bool{}
		for _, d := range w.devs {
			for _, x := range d.log {
				if !seen[x] {
					seen[x] = true
					union = append(union, x)
				}
			}
		}
		sort.SliceStable(union, func(a, b int) bool { return union[a].Time < union[b].Time })
		w.account("all devices", union, wantAll)
		w.sig.WriteString("|conc")
	}
	w.converge()
	var order strings.Builder
	for _, x := range w.devs[0].log {
		fmt.Fprintf(&order, "%s%s%s;", x.Kind, x.Key, x.Value)
	}
	t.Eval(order.String())
	t.Count("concurrent_worlds", 1)
}

func init() {
	register(&Check{
		ID:          "C12",
		Rule:        "Fleets of 2-4 devices with 1-2 file remotes (present, empty or missing) run random sessions of the real program: edits with automatic sync, offline edits, explicit syncs, interrupted sessions, overlapping pull/push and truly concurrent sessions; all files are decrypted after every session. Then everybody syncs twice. Non-trivial: every world; distinct by its sequence of sessions and edits.",
		Assumptions: []string{"the devices' clocks agree (they are the same machine)", "no entry is edited after another device deleted it (C11 covers that)", "a remote is replaced atomically by a push"},
		Run: func(c *Ctx) {
			c.Cases("worlds", c.N(300, 6000), c12world)
			c.CasesW("concurrent", c.N(80, 1500), 3, c12concurrent)
		},
	})
}
