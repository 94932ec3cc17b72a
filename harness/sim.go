package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
)

// sim is a model of a session at the prompt: it makes up commands, writes them into a script and
// keeps what they must do to the entries. It knows the documented commands only.
type sim struct {
	t    *T
	s    *Script
	ents map[string]*simEnt // by current name
	dead []*simEnt
	ctx  string
	// checks to run on the output once the session is over
	checks []simCheck
	edits  []EditAction
	seenEd []simEditExpect
	ops    map[string]int
	long   bool // long values now and then
	clips  []simClip
	multi  bool
	pwVals []string // passwords typed by hand
}

type simCheck struct {
	seg  int
	what string
	f    func(out string) string // "" or what is wrong
}

type simEditExpect struct {
	content string
}

type simClip struct{ key, val string }

type simEnt struct {
	uuid string // of entries that were there before, "" for new ones
	name string
	keys map[string]string
	recs []mTx // records the session must have written, without times, without "updated"
	was  string
	gone bool
}

func newSim(t *T, s *Script, log []mTx) *sim {
	m := &sim{t: t, s: s, ents: map[string]*simEnt{}, ops: map[string]int{}}
	v, err := mReplay(log)
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	for u, e := range v {
		k := map[string]string{}
		for a, b := range e {
			if a != "updated" {
				k[a] = b
			}
		}
		m.ents[e["name"]] = &simEnt{uuid: u, name: e["name"], keys: k, was: e["name"]}
	}
	return m
}

func (m *sim) names() []string {
	var out []string
	for n := range m.ents {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// resolve is what a command does with a query: "" if it acts on nothing.
func (m *sim) resolve(q string) string {
	hits := refSearch(m.names(), q)
	if len(hits) == 1 {
		return hits[0]
	}
	for _, h := range hits {
		if h == q {
			return h
		}
	}
	return ""
}

// target picks what to put before a key (nothing when in an entry) and the entry that is meant.
// ok says whether the command acts on e.
func (m *sim) target() (prefix string, e *simEnt) {
	if m.ctx != "" {
		return "", m.ents[m.resolve(m.ctx)]
	}
	q := m.query()
	return q + " ", m.ents[m.resolve(q)]
}

// query makes a non-empty query without spaces.
func (m *sim) query() string {
	r := m.t.R
	ns := m.names()
	if len(ns) == 0 || r.Intn(12) == 0 {
		return pick(r, "nothere", "zz/zz", "/", "q")
	}
	n := ns[r.Intn(len(ns))]
	switch r.Intn(4) {
	case 0:
		q := strings.Join(strings.Fields(genQuery(m.t, []string{n})), "")
		if q != "" {
			return q
		}
	}
	return n
}

func (m *sim) expect(seg int, what string, f func(out string) string) {
	m.checks = append(m.checks, simCheck{seg, what, f})
}

func (m *sim) cmd(op string, lines ...string) int {
	m.ops[op]++
	m.t.Count("cmd_"+op, 1)
	m.t.Note("%q", lines)
	return m.s.Cmd(lines...)
}

func (e *simEnt) set(k, v string) {
	e.keys[k] = v
	e.recs = append(e.recs, mTx{Kind: "setk", Key: k, Value: v})
}

func (e *simEnt) delk(k string) {
	delete(e.keys, k)
	e.recs = append(e.recs, mTx{Kind: "delk", Key: k})
}

func (m *sim) freshName() string {
	for i := 0; ; i++ {
		n := genName(m.t.R)
		if i > 10 {
			n += fmt.Sprint(i)
		}
		if m.ents[n] == nil && !strings.HasPrefix(n, "user/") && !strings.HasPrefix(n, "sync/") && n != "." {
			return n
		}
	}
}

func (m *sim) anyName() string {
	var ns []string
	for _, n := range m.names() {
		// users have rules of their own
		if !strings.HasPrefix(n, "user/") {
			ns = append(ns, n)
		}
	}
	if len(ns) == 0 || m.t.R.Intn(4) == 0 {
		return m.freshName()
	}
	return ns[m.t.R.Intn(len(ns))]
}

func (m *sim) value(max int) string {
	r := m.t.R
	if m.long && r.Intn(12) == 0 {
		// the line editor needs quadratic time for a line
		s := strings.TrimSpace(strings.Repeat(genLine(r, 20)+"x", 1+r.Intn(400)))
		return s
	}
	return genLine(r, max)
}

// password lines for the password wizard, by hand
func (m *sim) passLines() (lines []string, pass string) {
	r := m.t.R
	for {
		pass = genLine(r, 14)
		if pass != "" {
			break
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		lines = append(lines, pick(r, "?", "", "u 2", "40", "e", "n 3", "b", "zz", "c", "l"))
	}
	if r.Intn(5) == 0 {
		lines = append(lines, "m", pass, pass+"x")
	}
	lines = append(lines, "m", pass, pass)
	m.pwVals = append(m.pwVals, pass)
	return lines, pass
}

func (m *sim) opAdd() {
	name := m.anyName()
	if m.ents[name] != nil {
		m.cmd("add-taken", "add "+name)
		return
	}
	email, user := m.value(12), m.value(12)
	pl, pass := m.passLines()
	e := &simEnt{name: name, keys: map[string]string{}}
	e.recs = append(e.recs, mTx{Kind: "add"})
	e.set("name", name)
	if user != "" {
		e.set("user", user)
	}
	if email != "" {
		e.set("email", email)
	}
	e.set("pass", pass)
	m.cmd("add", append([]string{"add " + name, email, user}, pl...)...)
	m.ents[name] = e
}

func (m *sim) opSet() {
	r := m.t.R
	pre, e := m.target()
	k := genKey(r)
	if r.Intn(8) == 0 {
		k = caseVariant(m.t, pick(r, "name", "updated", "iv", "salt", "mkey"))
		m.cmd("set-protected", "set "+pre+k+" "+genWord(r, 6))
		return
	}
	switch {
	case k == "url":
		v := pick(r, "https://example.com/a?b=c&d=%20", "http://h", "scp://u@h:22/p", "nonsense", "mailto:x@y", "https://ex%zz")
		m.cmd("set-url", "set "+pre+"url "+v)
		if e != nil && strings.Contains(v, "://") && !strings.Contains(v, "%zz") {
			e.set("url", v)
		}
	case k == "pass" && r.Intn(2) == 0:
		line := "set " + pre + "pass"
		if e == nil {
			m.cmd("set-nothing", line)
			return
		}
		pl, pass := m.passLines()
		m.cmd("set-pass", append([]string{line}, pl...)...)
		e.set("pass", pass)
	case k != "pass" && r.Intn(4) == 0:
		// several lines
		if e == nil {
			m.cmd("set-nothing", "set "+pre+k)
			return
		}
		var lines, vals []string
		for i := r.Intn(5); i > 0; i-- {
			l := m.value(15)
			if l == "." || l == "" {
				l = "x"
			}
			if len(vals) > 0 && r.Intn(4) == 0 {
				lines, vals = append(lines, ""), append(vals, "")
			}
			lines, vals = append(lines, l), append(vals, l)
		}
		switch r.Intn(5) {
		case 0, 1:
			lines = append(lines, ".")
		case 2, 3:
			lines = append(lines, "", "")
		default:
			lines = append(lines, "\x04") // ctrl-d ends the text too
		}
		m.cmd("set-lines", append([]string{"set " + pre + k}, lines...)...)
		e.set(k, strings.Join(vals, "\n"))
	default:
		v := m.value(20)
		if v == "" {
			v = "v"
		}
		if r.Intn(6) == 0 {
			v = pick(r, " ", "  ") + v // blanks before the value belong to it
		}
		m.cmd("set", "set "+pre+k+" "+v)
		if e != nil {
			e.set(k, v)
		}
	}
}

func (m *sim) opRmk() {
	r := m.t.R
	pre, e := m.target()
	k := genKey(r)
	if e != nil && len(e.keys) > 1 && r.Intn(3) != 0 {
		var ks []string
		for x := range e.keys {
			ks = append(ks, x)
		}
		sort.Strings(ks)
		k = ks[r.Intn(len(ks))]
	}
	if r.Intn(10) == 0 {
		k = pick(r, "name", "updated")
	}
	m.cmd("rmk", "rmk "+pre+k)
	if e == nil || k == "name" || k == "updated" || k == "iv" || k == "salt" || k == "mkey" {
		return
	}
	if _, ok := e.keys[k]; ok {
		e.delk(k)
	}
}

func (m *sim) opRm() {
	r := m.t.R
	name := m.anyName()
	e := m.ents[name]
	if e == nil {
		m.cmd("rm-nothing", "rm "+name)
		return
	}
	if r.Intn(2) == 0 {
		m.cmd("rm-declined", "rm "+name, pick(r, "", "no", "y", name+"x", strings.ToUpper(name)+"X"))
		if m.ctx == name {
			// whether the current entry is left then is not specified
			m.opCd("")
		}
		return
	}
	m.cmd("rm", "rm "+name, name)
	e.recs = append(e.recs, mTx{Kind: "del"})
	e.gone = true
	m.dead = append(m.dead, e)
	delete(m.ents, name)
	if m.ctx == name {
		m.ctx = ""
	}
}

func (m *sim) opMv() {
	from, to := m.anyName(), m.anyName()
	if m.t.R.Intn(2) == 0 {
		to = m.freshName()
	}
	m.cmd("mv", "mv "+from+" "+to)
	e := m.ents[from]
	if e == nil || m.ents[to] != nil {
		return
	}
	e.set("name", to)
	e.name = to
	delete(m.ents, from)
	m.ents[to] = e
	if m.ctx == from {
		// what a context means after its entry is renamed is not specified
		m.opCd("")
	}
}

func (m *sim) opCd(q string) {
	if q == "" {
		m.cmd("cd", "cd")
		m.ctx = ""
		return
	}
	m.cmd("cd", "cd "+q)
	if n := m.resolve(q); n != "" {
		m.ctx = n
	}
}

func (m *sim) opLabel() {
	r := m.t.R
	pre, e := m.target()
	if e == nil {
		m.cmd("label-nothing", "label "+pre)
		return
	}
	var ls []string
	if e.keys["labels"] != "" {
		ls = strings.Split(e.keys["labels"], ",")
	}
	var lines []string
	changed := false
	for i := r.Intn(m.t.scale(4, 70)); i > 0; i-- {
		l := pick(r, "a", "b", "work", "two words", "Caps", "wörk", "x,y", "a,a", ",", genWord(r, 5))
		if m.t.Large && r.Intn(3) > 0 {
			l = fmt.Sprint("tag", r.Intn(1000))
		}
		if l == "." || l == "" {
			continue
		}
		lines = append(lines, l)
		if labelOK(ls, l) {
			ls = append(ls, l)
			changed = true
		}
	}
	lines = append(lines, pick(r, "", ".", "\x04"))
	m.cmd("label", append([]string{"label " + pre}, lines...)...)
	if changed {
		e.set("labels", strings.Join(ls, ","))
	}
}

func labelOK(have []string, l string) bool {
	for _, c := range l {
		if unicode.IsSpace(c) || unicode.IsUpper(c) || c == ',' {
			return false
		}
	}
	for _, h := range have {
		if h == l {
			return false
		}
	}
	return true
}

func (m *sim) opRmlabel() {
	r := m.t.R
	pre, e := m.target()
	l := pick(r, "a", "b", "work", "wörk", "zzz")
	var ls []string
	if e != nil && e.keys["labels"] != "" {
		ls = strings.Split(e.keys["labels"], ",")
		if r.Intn(3) != 0 {
			l = ls[r.Intn(len(ls))]
		}
	}
	if l == "" || strings.ContainsAny(l, " \n") || len(strings.Fields(l)) != 1 || strings.Fields(l)[0] != l {
		l = "zzz"
	}
	m.cmd("rmlabel", "rmlabel "+pre+l)
	if e == nil {
		return
	}
	for i, x := range ls {
		if x == l {
			ls = append(append([]string{}, ls[:i]...), ls[i+1:]...)
			if len(ls) == 0 {
				e.delk("labels")
			} else {
				e.set("labels", strings.Join(ls, ","))
			}
			return
		}
	}
}

func (m *sim) opTotp() {
	r := m.t.R
	pre, e := m.target()
	switch r.Intn(3) {
	case 0:
		u := "otpauth://totp/x:y?secret=JBSWY3DPEHPK3PXP&digits=" + pick(r, "6", "8")
		m.cmd("set-totp", "set "+pre+"totp "+u)
		if e != nil {
			e.set("totp", u)
		}
	default:
		// a bare secret becomes an address of the program's own making
		m.cmd("set-totp", "set "+pre+"totp JBSWY3DPEHPK3PXP")
		if e != nil {
			e.set("totp", "?secret=JBSWY3DPEHPK3PXP")
		}
	}
}

func (m *sim) opEdit() {
	r := m.t.R
	pre, e := m.target()
	k := genKey(r)
	if e == nil {
		m.cmd("edit-nothing", "edit "+pre+k)
		return
	}
	old := e.keys[k]
	a := EditAction{}
	switch r.Intn(5) {
	case 0:
		a.NoWrite = true
	case 1:
		a.Write = []byte("discarded")
		a.Exit = 3
	default:
		a.Write = []byte(genText(r, 20))
		if r.Intn(3) == 0 {
			a.Write = []byte(genText(r, 8) + "\n" + genText(r, 8) + "\n")
		}
		if m.long && r.Intn(4) == 0 {
			a.Write = []byte(strings.Repeat(genText(r, 20)+"\n", 1+r.Intn(60000)))
		}
		a.Replace = r.Intn(3) == 0
	}
	m.edits = append(m.edits, a)
	m.seenEd = append(m.seenEd, simEditExpect{old})
	m.cmd("edit", "edit "+pre+k)
	if a.Exit != 0 {
		return
	}
	v := string(a.Write)
	if a.NoWrite {
		v = old
	}
	if v == "" {
		e.delk(k)
	} else {
		e.set(k, v)
	}
}

// opShow runs a display or failing command that changes nothing.
func (m *sim) opIdle() {
	r := m.t.R
	pre, _ := m.target()
	q := m.query()
	switch r.Intn(12) {
	case 0:
		m.cmd("ls", "ls "+q)
	case 1:
		m.cmd("show", "show "+pre)
	case 2:
		m.cmd("dumpall", "dumpall")
	case 3:
		m.cmd("help", "help "+pick(r, "", "sync", "users", "other", "nonsense"))
	case 4:
		m.cmd("get", "get "+pre+genKey(r))
	case 5:
		m.cmd("cp", "cp "+pre+genKey(r))
	case 6:
		m.cmd("labels", "labels "+pick(r, "a", "work b", "zz"))
	case 7:
		m.s.segs++ // looks like a sentinel
		m.cmd("unknown", pick(r, "foo", "LS", "sett a b c", "quit", "?"))
	case 8:
		m.cmd("short", pick(r, "add", "rm", "mv a", "cd a b c", "adduser", "addsync", "labels", "addsync nonsense"))
	case 9:
		m.cmd("dump", "dump "+pre)
	case 10:
		c := pick(r, "passwd nobody", "rekey nobody", "rekeyall", "sync nothere")
		if c == "rekeyall" && m.multi {
			m.cmd("rekeyall-declined", c, "n")
		} else {
			m.cmd("passwd-user", c)
		}
	default:
		m.cmd("blank", pick(r, "", "   "))
	}
}

// step makes up one command.
func (m *sim) step() {
	r := m.t.R
	if len(m.ents) == 0 {
		m.opAdd()
		return
	}
	switch r.Intn(20) {
	case 0, 1, 2:
		m.opAdd()
	case 3, 4, 5, 6, 7:
		m.opSet()
	case 8:
		m.opRmk()
	case 9:
		m.opRm()
	case 10, 11:
		m.opMv()
	case 12:
		if m.ctx != "" && r.Intn(2) == 0 {
			m.opCd("")
		} else {
			m.opCd(m.query())
		}
	case 13:
		m.opLabel()
	case 14:
		m.opRmlabel()
	case 15:
		m.opTotp()
	case 16:
		m.opEdit()
	default:
		m.opIdle()
	}
}

// verify compares the saved database with the model: the old records first, unchanged, then for
// every entry and key exactly the records the session had to write, and the resulting view.
func (m *sim) verify(old []mTx, db *mDB, t0, t1 int64) {
	t := m.t
	if len(db.Log) < len(old) || !logsEqual(db.Log[:len(old)], old) {
		t.Fail("the session rewrote earlier history: had %d records, the file has %d", len(old), len(db.Log))
	}
	view, err := mReplay(db.Log)
	if err != nil {
		t.Fail("the saved log does not replay: %v", err)
	}
	if db.Version > uint(len(db.Log)) {
		t.Fail("saved view version %d of %d records", db.Version, len(db.Log))
	}
	cached, _ := mReplay(db.Log[:db.Version])
	if !(len(cached) == 0 && len(db.Snapshot) == 0) && !viewsEqual(cached, db.Snapshot) {
		t.Fail("the saved view is not that of its version: %s", viewDiff(cached, db.Snapshot))
	}
	// view by name
	byName := view.byName()
	if len(byName) != len(view) {
		t.Fail("two saved entries share a name")
	}
	for n := range byName {
		if m.ents[n] == nil {
			t.Fail("the saved file has an entry %q that nobody made; made: %q", n, m.names())
		}
	}
	for n, e := range m.ents {
		u, ok := byName[n]
		if !ok {
			t.Fail("entry %q is missing from the saved file", n)
		}
		if e.uuid == "" {
			e.uuid = u
		}
		if e.uuid != u {
			t.Fail("entry %q is stored under another identity than before", n)
		}
		got := map[string]string{}
		for k, v := range view[u] {
			if k != "updated" {
				got[k] = v
			}
		}
		if !keysMatch(e.keys, got) {
			t.Fail("entry %q was saved as %q, want %q", n, got, e.keys)
		}
		up, err := strconv.ParseInt(view[u]["updated"], 10, 64)
		if len(e.recs) > 0 && (err != nil || up < t0 || up > t1) {
			t.Fail("entry %q: updated time %q is not within the session", n, view[u]["updated"])
		}
	}
	// new records by entry
	got := map[string][]mTx{}
	var order []string
	last := int64(0)
	for _, tx := range db.Log[len(old):] {
		if tx.Time < t0 || tx.Time > t1 {
			t.Fail("record %+v has a time outside the session", tx)
		}
		if tx.Time < last {
			t.Fail("record %+v is older than the one before it", tx)
		}
		last = tx.Time
		if _, ok := got[tx.UUID]; !ok {
			order = append(order, tx.UUID)
		}
		u := tx.UUID
		tx.Time, tx.UUID = 0, ""
		if tx.Key == "updated" && tx.Kind == "setk" {
			if _, ok := got[u]; !ok {
				got[u] = nil
			}
			continue
		}
		got[u] = append(got[u], tx)
	}
	var all []*simEnt
	for _, e := range m.ents {
		all = append(all, e)
	}
	all = append(all, m.dead...)
	used := map[string]bool{}
	for _, e := range all {
		if e.uuid != "" {
			used[e.uuid] = true
			if !recsMatch(e.recs, got[e.uuid]) {
				t.Fail("changes recorded for entry %q: %+v, want %+v", e.name, got[e.uuid], e.recs)
			}
		}
	}
	// entries that were made and removed again have no identity yet: find each a history
	for _, e := range all {
		if e.uuid != "" {
			continue
		}
		found := false
		for _, u := range order {
			if !used[u] && recsMatch(e.recs, got[u]) {
				used[u], found = true, true
				break
			}
		}
		if !found {
			t.Fail("no recorded history matches the entry %q that was added and removed: want %+v", e.name, e.recs)
		}
	}
	for _, u := range order {
		if !used[u] {
			t.Fail("the session recorded changes to %s that nobody asked for: %+v", u, got[u])
		}
	}
	t.Count("entries_compared", len(m.ents))
	t.Count("records_compared", len(db.Log))
}

func totpLike(want, got string) bool {
	return want == got || strings.HasPrefix(want, "?") && strings.HasPrefix(got, "otpauth://totp/") && strings.Contains(got, want[1:])
}

func keysMatch(want, got map[string]string) bool {
	if len(want) != len(got) {
		return false
	}
	for k, v := range want {
		g, ok := got[k]
		if !ok || k != "totp" && g != v || k == "totp" && !totpLike(v, g) {
			return false
		}
	}
	return true
}

// recsMatch compares histories key by key; the order among different keys of one command is free.
func recsMatch(want, got []mTx) bool {
	if len(want) != len(got) {
		return false
	}
	split := func(l []mTx) map[string][]mTx {
		m := map[string][]mTx{}
		for _, x := range l {
			k := x.Kind + "|"
			if x.Kind == "setk" || x.Kind == "delk" {
				k = "key|" + x.Key
			}
			m[k] = append(m[k], x)
		}
		return m
	}
	a, b := split(want), split(got)
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y := b[k]
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].Kind != y[i].Kind || x[i].Key != y[i].Key {
				return false
			}
			if x[i].Value != y[i].Value && !(x[i].Key == "totp" && totpLike(x[i].Value, y[i].Value)) {
				return false
			}
		}
	}
	return true
}

// verifyEdits compares what the editor saw.
func (m *sim) verifyEdits(evs []Event) {
	n := 0
	for _, e := range evs {
		if e.Prog != "vedit" {
			continue
		}
		if n >= len(m.seenEd) {
			m.t.Fail("the editor ran more often than asked")
		}
		if string(e.Content) != m.seenEd[n].content {
			m.t.Fail("the editor was given %q, the stored value is %q", e.Content, m.seenEd[n].content)
		}
		n++
	}
	if n != len(m.seenEd) {
		m.t.Fail("the editor ran %d times instead of %d", n, len(m.seenEd))
	}
}

func (m *sim) runChecks(segs []string) {
	for _, c := range m.checks {
		if e := c.f(segs[c.seg]); e != "" {
			m.t.Fail("%s: %s\noutput: %s", c.what, e, tail(segs[c.seg], 1500))
		}
	}
}

func (m *sim) sig() string {
	var ks []string
	for k, n := range m.ops {
		ks = append(ks, fmt.Sprint(k, n))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func nowNano() int64 { return time.Now().UnixNano() }

// oldLog makes some history to start from, in the past.
func oldLog(t *T, n int) []mTx {
	g := newLogGen(t.R, 1571887976e9, 5e12)
	for i := 0; i < n; i++ {
		g.op(true)
	}
	return g.log
}
