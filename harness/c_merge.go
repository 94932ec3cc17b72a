package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/aarondl/bpass/txlogs"
)

// ---- histories of several devices ----

type mdev struct {
	log  []mTx
	skew int64
	old  [][]mTx // earlier states
}

type fleet struct {
	t      *T
	devs   []*mdev
	now    int64
	frozen map[string]bool // entries deleted somewhere
	author map[string]map[int]bool
	mode   string // "plain": no conflicts; "skew": no conflicts, clocks differ; "conflict"
	seq    int
}

func newFleet(t *T, n int, mode string, baseOps int, base []mTx) *fleet {
	if t.Large {
		base = append(newLogGen(t.R, 1571887976e9, 1000).log, base...)
	}
	f := &fleet{t: t, now: 1571887976e9, frozen: map[string]bool{}, author: map[string]map[int]bool{}, mode: mode}
	for i := 0; i < n; i++ {
		d := &mdev{log: append([]mTx{}, base...)}
		if mode == "skew" {
			d.skew = int64(t.R.Intn(5)-2) * 1000
		}
		f.devs = append(f.devs, d)
	}
	for _, x := range base {
		if x.Time > f.now {
			f.now = x.Time
		}
	}
	for i := 0; i < baseOps; i++ {
		f.edit(0)
	}
	for i := 1; i < n; i++ {
		f.devs[i].log = append([]mTx{}, f.devs[0].log...)
	}
	return f
}

func (f *fleet) rec(d int, kind, uuid, key, val string) {
	f.now += 1 + f.t.R.Int63n(200)
	tm := f.now + f.devs[d].skew
	if f.mode == "skew" {
		// unique times even though the clocks differ
		tm = tm*16 + int64(d)
	}
	f.devs[d].log = append(f.devs[d].log, mTx{Time: tm, Kind: kind, UUID: uuid, Key: key, Value: val})
	if f.author[uuid] == nil {
		f.author[uuid] = map[int]bool{}
	}
	f.author[uuid][d] = true
}

// edit makes one change on a device.
func (f *fleet) edit(d int) {
	r := f.t.R
	dev := f.devs[d]
	dev.old = append(dev.old, append([]mTx{}, dev.log...))
	v, err := mReplay(dev.log)
	if err != nil {
		panic(inconclusive("generator: " + err.Error()))
	}
	var us []string
	for u, e := range v {
		if f.mode != "conflict" && f.frozen[u] || e["sync"] != "" {
			continue
		}
		us = append(us, u)
	}
	sort.Strings(us)
	if len(us) == 0 || r.Intn(5) == 0 && len(us) < 12 {
		u := uuidSeq(r)
		f.rec(d, "add", u, "", "")
		f.rec(d, "setk", u, "name", fmt.Sprintf("e%d-%d", d, f.seq))
		f.seq++
		return
	}
	if f.t.Large && len(us) > 60 {
		us = us[:60] // so that the devices meet
	}
	u := us[r.Intn(len(us))]
	delP := 10
	if f.mode == "conflict" {
		delP = 4
	}
	switch {
	case r.Intn(delP) == 0 && (f.mode != "skew" || len(f.author[u]) == 1 && f.author[u][d]):
		f.rec(d, "del", u, "", "")
		f.frozen[u] = true
	case r.Intn(5) == 0:
		f.rec(d, "delk", u, pick(r, "a", "b", "c"), "")
	default:
		f.rec(d, "setk", u, pick(r, "a", "b", "c", "user"), fmt.Sprint("v", f.seq))
		f.seq++
	}
}

// sortedUnion is what merging means for logs whose times increase.
func sortedUnion(a, b []mTx) []mTx {
	seen := map[int64]bool{}
	var out []mTx
	for _, l := range [][]mTx{a, b} {
		for _, x := range l {
			if !seen[x.Time] {
				seen[x.Time] = true
				out = append(out, x)
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Time < out[j].Time })
	return out
}

func times(l []mTx) string {
	var b strings.Builder
	for _, x := range l {
		fmt.Fprintf(&b, "%s@%d ", x.Kind, x.Time)
	}
	return b.String()
}

// realMerge merges with the code under test and checks that the inputs are left alone.
func realMerge(t *T, a, b []mTx, resolved []txlogs.Conflict) ([]mTx, []txlogs.Conflict) {
	ra, rb := fromM(a), fromM(b)
	out, conf := txlogs.Merge(ra, rb, resolved)
	if !logsEqual(toM(ra), a) || !logsEqual(toM(rb), b) {
		t.Fail("Merge altered its arguments")
	}
	t.Count("merges", 1)
	return toM(out), conf
}

func noConflict(t *T, what string, a, b []mTx) []mTx {
	m, conf := realMerge(t, a, b, nil)
	if len(conf) != 0 {
		t.Fail("%s: %d conflicts reported, none exists (first %+v)\na: %s\nb: %s", what, len(conf), conf[0], times(a), times(b))
	}
	return m
}

// checkMerge judges one merge without conflicts.
func checkMerge(t *T, a, b []mTx, monotone bool) []mTx {
	t.Set("a", a)
	t.Set("b", b)
	m := noConflict(t, "merge", a, b)
	if !logsEqual(m, noConflict(t, "swapped merge", b, a)) {
		t.Fail("merging in the other order gives another log\na: %s\nb: %s", times(a), times(b))
	}
	want := sortedUnion(a, b)
	// every change exactly once
	got := map[mTx]int{}
	for _, x := range m {
		got[x]++
	}
	for _, x := range want {
		if got[x] != 1 {
			t.Fail("change %+v is in the merged log %d times\na: %s\nb: %s\nmerged: %s", x, got[x], times(a), times(b), times(m))
		}
	}
	if len(m) != len(want) {
		t.Fail("the merged log has %d changes, the two logs %d", len(m), len(want))
	}
	for _, l := range [][]mTx{a, b} {
		if !isSubsequence(l, m) {
			t.Fail("the merged log does not keep the order of an input\ninput: %s\nmerged: %s", times(l), times(m))
		}
	}
	if monotone && !logsEqual(m, want) {
		t.Fail("the merged log is not in time order: %s", times(m))
	}
	v, err := mReplay(m)
	if err != nil {
		t.Fail("the merged log does not replay: %v\na: %s\nb: %s", err, times(a), times(b))
	}
	db := &txlogs.DB{Log: fromM(m)}
	if err := db.UpdateSnapshot(); err != nil {
		t.Fail("the merged log does not replay: %v", err)
	}
	if !viewsEqual(v, viewM(db.Snapshot)) {
		t.Fail("view of the merged log: %s", viewDiff(v, viewM(db.Snapshot)))
	}
	for i, l := range [][]mTx{a, b} {
		if !logsEqual(m, noConflict(t, "merging an input again", m, l)) || !logsEqual(m, noConflict(t, "merging an input again", l, m)) {
			t.Fail("merging again with input %d changes the log", i)
		}
	}
	if !logsEqual(m, noConflict(t, "merging a log with itself", m, append([]mTx{}, m...))) {
		t.Fail("merging a log with itself changes it")
	}
	return m
}

func isSubsequence(l, m []mTx) bool {
	i := 0
	for _, x := range m {
		if i < len(l) && l[i] == x {
			i++
		}
	}
	return i == len(l)
}

func init() {
	register(&Check{
		ID:          "C10",
		Rule:        "Histories of 2-5 devices with local edits, additions and deletions and earlier merges between any two devices; every merge in the history is one case, judged against the time-ordered union, the swapped merge, repeated merges, merges with ancestors and all groupings of three. Half of the histories use clocks that differ between the devices. Non-trivial: both logs hold changes the other lacks; distinct by the shape of the two logs.",
		Assumptions: []string{"every change has its own time and a device's clock does not run backwards", "conflict-free histories only (C11 covers the others)"},
		Run: func(c *Ctx) {
			c.Cases("histories", c.N(30000, 400000), func(t *T) { c10history(t, pick(t.R, "plain", "skew")) })
			c.Cases("edges", c.N(1000, 10000), c10edges)
		},
	})
	register(&Check{
		ID:          "C11",
		Rule:        "Pairs of logs from devices that deleted and edited the same entries, with and without a common beginning; every answer pattern is decided round by round with a model that walks the time-ordered union. The session group answers the prompts of the program, including invalid answers. Non-trivial: at least one conflict; distinct by conflict pattern and answers.",
		Assumptions: []string{"every change has its own time and a device's clock does not run backwards"},
		Run: func(c *Ctx) {
			c.Cases("library", c.N(80000, 1200000), c11lib)
			c.Cases("session", c.N(900, 12000), c11session)
		},
	})
}

func c10history(t *T, mode string) {
	r := t.R
	n := 2 + r.Intn(4)
	f := newFleet(t, n, mode, 1+r.Intn(6), nil)
	mono := mode == "plain"
	for i, steps := 0, 4+r.Intn(20); i < steps; i++ {
		d := r.Intn(n)
		if r.Intn(3) != 0 {
			for k := 1 + r.Intn(t.scale(3, 20)); k > 0; k-- {
				f.edit(d)
			}
			continue
		}
		e := r.Intn(n)
		if e == d {
			continue
		}
		a, b := f.devs[d].log, f.devs[e].log
		m := checkMerge(t, a, b, mono)
		sig := ""
		if len(m) > len(a) && len(m) > len(b) {
			sig = shape(a, b, m)
		}
		t.Eval(sig)
		// with an ancestor
		for _, dev := range []*mdev{f.devs[d], f.devs[e]} {
			if len(dev.old) > 0 {
				o := dev.old[r.Intn(len(dev.old))]
				if len(o) > 0 && (!logsEqual(m, noConflict(t, "merge with an ancestor", m, o)) || !logsEqual(m, noConflict(t, "merge with an ancestor", o, m))) {
					t.Fail("merging with an ancestor changes the log\nlog: %s\nancestor: %s", times(m), times(o))
				}
			}
		}
		// any grouping of three
		x := r.Intn(n)
		c := f.devs[x].log
		g1 := noConflict(t, "merge of three", m, c)
		g2 := noConflict(t, "merge of three", a, noConflict(t, "merge of three", b, c))
		g3 := noConflict(t, "merge of three", noConflict(t, "merge of three", c, a), b)
		if !logsEqual(g1, g2) || !logsEqual(g1, g3) {
			t.Set("c", c)
			t.Fail("the grouping of three merges matters\na: %s\nb: %s\nc: %s\n(ab)c: %s\na(bc): %s\n(ca)b: %s", times(a), times(b), times(c), times(g1), times(g2), times(g3))
		}
		f.devs[d].old = append(f.devs[d].old, a)
		f.devs[d].log = m
		if r.Intn(2) == 0 {
			f.devs[e].old = append(f.devs[e].old, b)
			f.devs[e].log = append([]mTx{}, m...)
		}
		t.Sample(map[string]string{"a": times(a), "b": times(b), "merged": times(m)})
	}
}

// shape is where the records of a merge come from.
func shape(a, b, m []mTx) string {
	in := func(l []mTx) map[int64]bool {
		s := map[int64]bool{}
		for _, x := range l {
			s[x.Time] = true
		}
		return s
	}
	sa, sb := in(a), in(b)
	var o strings.Builder
	for _, x := range m {
		switch {
		case sa[x.Time] && sb[x.Time]:
			o.WriteByte('=')
		case sa[x.Time]:
			o.WriteByte('a')
		default:
			o.WriteByte('b')
		}
	}
	return o.String()
}

func c10edges(t *T) {
	f := newFleet(t, 2, "plain", 1+t.R.Intn(5), nil)
	l := f.devs[0].log
	for _, p := range [][2][]mTx{{nil, l}, {l, nil}, {[]mTx{}, l}, {l, l}} {
		m := noConflict(t, "merge with an empty log", p[0], p[1])
		if !logsEqual(m, l) {
			t.Fail("merging %d with %d records gives %d", len(p[0]), len(p[1]), len(m))
		}
	}
	if m := noConflict(t, "merge of empty logs", nil, nil); len(m) != 0 {
		t.Fail("merging nothing gives %d records", len(m))
	}
	// one side only appended
	d := append([]mTx{}, l...)
	f.edit(1)
	if m := checkMerge(t, d, f.devs[1].log, true); !logsEqual(m, f.devs[1].log) {
		t.Fail("fast forward: %s", times(m))
	}
	t.Eval(fmt.Sprint(len(l), len(f.devs[1].log)))
}

// ---- C11 ----

type plan struct {
	log       []mTx
	conflicts []mPair
}

type mPair struct{ initial, conflict mTx }

// planMerge walks the time-ordered union with the decisions made so far ('r' restore, 'd' delete).
func planMerge(a, b []mTx, dec map[int64]byte) plan {
	var p plan
	dead := map[string]mTx{}
	asked := map[int64]bool{}
	for _, x := range sortedUnion(a, b) {
		del, gone := dead[x.UUID]
		if !gone {
			if x.Kind == "del" {
				if dec[x.Time] == 'r' {
					continue
				}
				dead[x.UUID] = x
			}
			p.log = append(p.log, x)
			continue
		}
		if dec[del.Time] == 'd' {
			continue
		}
		if !asked[del.Time] {
			asked[del.Time] = true
			p.conflicts = append(p.conflicts, mPair{del, x})
		}
	}
	return p
}

func c11lib(t *T) {
	r := t.R
	n := 2 + r.Intn(2)
	f := newFleet(t, n, "conflict", 1+r.Intn(6), nil)
	root := r.Intn(8) == 0
	if root {
		f.devs[1].log = nil
	}
	for i, steps := 0, 3+r.Intn(t.scale(14, 200)); i < steps; i++ {
		d := r.Intn(n)
		f.edit(d)
		if n > 2 && r.Intn(5) == 0 && !root {
			// an earlier merge with the third device, decided at random
			if m := decide(f.devs[2].log, f.devs[d].log, r.Intn); m != nil {
				f.devs[d].log = m
			}
		}
	}
	if root && len(f.devs[1].log) == 0 {
		f.edit(1)
	}
	a, b := f.devs[0].log, f.devs[1].log
	t.Set("a", a)
	t.Set("b", b)
	dec := map[int64]byte{}
	var resolved []txlogs.Conflict
	sig := ""
	forced := false
	for round := 0; ; round++ {
		p := planMerge(a, b, dec)
		m, conf := realMerge(t, a, b, resolved)
		want := len(p.conflicts)
		needRoot := root && !forced
		if needRoot {
			want++
		}
		if len(conf) != want {
			t.Fail("round %d: %d conflicts reported, want %d (%+v)\nreported %+v\na: %s\nb: %s", round, len(conf), want, p.conflicts, conf, times(a), times(b))
		}
		if want == 0 {
			if !logsEqual(m, p.log) {
				t.Fail("round %d, decisions %v: merged log\n%+v\nwant\n%+v", round, dec, m, p.log)
			}
			if _, err := mReplay(m); err != nil {
				t.Fail("the merged log does not replay after decisions %v: %v", dec, err)
			}
			if err := (&txlogs.DB{Log: fromM(m)}).UpdateSnapshot(); err != nil {
				t.Fail("the merged log does not replay after decisions %v: %v", dec, err)
			}
			break
		}
		if len(m) != 0 {
			t.Fail("round %d: a merged log is returned although %d conflicts are open", round, want)
		}
		if needRoot {
			c0 := conf[0]
			if c0.Kind != txlogs.ConflictKindRoot {
				t.Fail("logs without a common beginning: first conflict is %+v", c0)
			}
			pairOK := toM([]txlogs.Tx{c0.Initial, c0.Conflict})
			if !(pairOK[0] == a[0] && pairOK[1] == b[0]) {
				t.Fail("root conflict names %+v, the logs begin with %+v and %+v", pairOK, a[0], b[0])
			}
		}
		k := 0
		// an unanswered conflict never merges
		if r.Intn(3) == 0 {
			m2, c2 := realMerge(t, a, b, append(append([]txlogs.Conflict{}, resolved...), conf...))
			if len(m2) != 0 || len(c2) == 0 {
				t.Fail("round %d: merged although conflicts were passed back unanswered", round)
			}
		}
		for i := range conf {
			c := &conf[i]
			if needRoot && i == 0 {
				c.Force()
				forced = true
				sig += "F"
				continue
			}
			w := p.conflicts[k]
			k++
			got := toM([]txlogs.Tx{c.Initial, c.Conflict})
			if c.Kind != txlogs.ConflictKindDeleteSet || got[0] != w.initial || got[1] != w.conflict {
				t.Fail("round %d: conflict %d is %+v, want deletion %+v against %+v", round, i, *c, w.initial, w.conflict)
			}
			if r.Intn(2) == 0 {
				c.DiscardInitial()
				dec[c.Initial.Time] = 'r'
				sig += "r"
			} else {
				c.DiscardConflict()
				dec[c.Initial.Time] = 'd'
				sig += "d"
			}
		}
		sig += "/"
		resolved = append(resolved, conf...)
		if round > 50 {
			t.Fail("answering conflicts never ends")
		}
	}
	t.Count("rounds", strings.Count(sig, "/"))
	if sig != "" {
		t.Eval(sig + shape(a, b, sortedUnion(a, b)))
	} else {
		t.Eval("")
	}
	t.Sample(map[string]string{"a": times(a), "b": times(b), "answers": sig})
}

// decide merges in the model, answering at random.
func decide(a, b []mTx, rnd func(int) int) []mTx {
	dec := map[int64]byte{}
	for i := 0; i < 50; i++ {
		p := planMerge(a, b, dec)
		if len(p.conflicts) == 0 {
			if _, err := mReplay(p.log); err != nil {
				return nil
			}
			return p.log
		}
		for _, c := range p.conflicts {
			dec[c.initial.Time] = "rd"[rnd(2)]
		}
	}
	return nil
}

// syncEntry is a base history that holds a sync entry for a file remote.
func syncEntry(t *T, start int64, name, path string) []mTx {
	g := newLogGen(t.R, start, 1000)
	u := g.add(name)
	g.set(u, "url", "file://"+path)
	g.set(u, "sync", "true")
	return g.log
}

func c11session(t *T) {
	r := t.R
	dir := t.Scratch()
	local, remote := dir+"/local", dir+"/remote"
	base := syncEntry(t, 1571887976e9, "sync/r", remote)
	f := newFleet(t, 2, "conflict", 1+r.Intn(5), base)
	root := r.Intn(6) == 0
	if root {
		f.devs[1].log = nil
	}
	for i, steps := 0, 4+r.Intn(t.scale(14, 120)); i < steps; i++ {
		f.edit(r.Intn(2))
	}
	if root && len(f.devs[1].log) == 0 {
		f.edit(1)
	}
	a, b := f.devs[0].log, f.devs[1].log
	t.Set("a", a)
	t.Set("b", b)
	craft(t, local, "pw", a)
	craft(t, remote, "pw", b)
	rb := mustRead(t, remote)
	dec := map[int64]byte{}
	var answers []string
	forced, declined, asked := false, false, 0
	for {
		p := planMerge(a, b, dec)
		if len(p.conflicts) == 0 && (!root || forced) {
			break
		}
		if root && !forced {
			if r.Intn(3) == 0 {
				answers = append(answers, pick(r, "n", "N"))
				declined = true
				break
			}
			answers = append(answers, pick(r, "y", "Y"))
			forced = true
		}
		for _, c := range p.conflicts {
			for r.Intn(4) == 0 {
				answers = append(answers, pick(r, "", "x", "yes", "rd", "restore"))
			}
			if r.Intn(2) == 0 {
				dec[c.initial.Time] = 'r'
				answers = append(answers, pick(r, "r", "R"))
			} else {
				dec[c.initial.Time] = 'd'
				answers = append(answers, pick(r, "d", "D"))
			}
			asked++
		}
	}
	s := NewSession("pw")
	seg := s.Cmd(append([]string{pick(r, "sync", "sync sync/r")}, answers...)...)
	s.Raw("exit")
	t.Note("answers %q", answers)
	res := (&Sess{Dir: dir, File: local, Input: s.String(), Args: []string{"--no-sync"}}).Run(t)
	res.MustOK(t, "sync with conflicts")
	segs := res.Segments(t, s)
	if n := strings.Count(segs[seg], "was deleted at:"); n != asked && !declined {
		t.Fail("%d conflicts were shown, there are %d\n%s", n, asked, tail(segs[seg], 2000))
	}
	_, db := openView(t, local, "", "pw")
	if declined {
		if !logsEqual(db.Log, a) {
			t.Fail("a declined merge changed the local log")
		}
		if string(mustRead(t, remote)) != string(rb) {
			t.Fail("a declined merge changed the remote file")
		}
		t.Eval("declined" + times(b))
		return
	}
	want := planMerge(a, b, dec).log
	if !logsEqual(db.Log, want) {
		t.Fail("after answers %q the log is\n%s\nwant\n%s", answers, times(db.Log), times(want))
	}
	if !logsEqual(a, b) {
		_, rdb := openDB(t, remote, "", "pw")
		_ = rdb
		_, r2 := openView(t, remote, "", "pw")
		if !logsEqual(r2.Log, want) {
			t.Fail("the remote was not given the merged log: %s\nwant %s", times(r2.Log), times(want))
		}
	}
	t.Count("conflicts_answered", asked)
	if asked > 0 || forced {
		t.Eval(fmt.Sprint(answers) + shape(a, b, sortedUnion(a, b)))
	} else {
		t.Eval("")
	}
	t.Sample(map[string]interface{}{"a": times(a), "b": times(b), "answers": answers})
}
