package main

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/fuzzy"
	"github.com/aarondl/bpass/txlogs"
)

func init() {
	register(&Check{ID: "C07", Run: runC07,
		Rule: "random transaction bodies with refreshes inside and after success or failure, and every prompt of the add/addsync wizards as an abort point; non-trivial: distinct body or abort point that had already changed something"})
	register(&Check{ID: "C16", Run: runC16,
		Rule: "random operation sequences on the blob layer (including logs that start with duplicated names) and sessions of add/mv/adduser/addsync/set/edit/rmk; non-trivial: distinct sequence with at least one refused operation"})
	register(&Check{ID: "C17", Run: runC17,
		Rule: "name/query pairs where queries are mutated subsequences of names, over multi-byte and invalid UTF-8 text, against an independent matcher; sessions with ambiguous names; non-trivial: distinct pair with a query of at least 2 characters"})
	register(&Check{ID: "C18", Run: runC18,
		Rule: "random label lists with repetitions, indexes and requests on the blob layer, and label/rmlabel/labels sessions; non-trivial: distinct operation sequence with at least 3 labels"})
}

// ---- C07 (library part; the wizards are in c_session.go) ----

func runC07(c *Ctx) {
	c.Cases("transactions", c.N(60000, 800000), c07tx)
	c.Cases("wizards", c.N(700, 12000), c07wizard)
}

func c07tx(t *T) {
	r := t.R
	g := newLogGen(r, 1e15, 1000)
	for i := r.Intn(8); i > 0; i-- {
		g.op(true)
	}
	db := &txlogs.DB{Log: fromM(g.log)}
	bl := blobformat.Blobs{DB: db}
	stale := r.Intn(3)
	if stale != 0 {
		db.UpdateSnapshot()
	}
	cur := append([]mTx{}, g.log...)
	var trace []string
	changed := false
	for round := 0; round < 1+r.Intn(4); round++ {
		fail := r.Intn(3) != 0
		before := append([]mTx{}, cur...)
		alive := aliveUUIDs(cur)
		boom := errors.New("boom")
		n := 0
		manual := r.Intn(3) == 0
		body := func() error {
			for j := r.Intn(t.scale(6, 400)); j > 0; j-- {
				switch k := r.Intn(8); {
				case k == 0:
					db.UpdateSnapshot()
					trace = append(trace, "refresh")
				case k == 1:
					bl.Search("a")
					trace = append(trace, "search")
				case k == 2 || len(alive) == 0:
					u, err := bl.New(fmt.Sprintf("n%d-%d", len(cur), n))
					if err != nil {
						t.Fail("New: %v", err)
					}
					alive = append(alive, u)
					n++
					trace = append(trace, "new")
				case k == 3:
					u := alive[r.Intn(len(alive))]
					db.Delete(u)
					alive = remove(alive, u)
					n++
					trace = append(trace, "del")
				case k == 4:
					db.DeleteKey(alive[r.Intn(len(alive))], "user")
					n++
					trace = append(trace, "delk")
				default:
					db.Set(alive[r.Intn(len(alive))], genKey(r), genText(r, 5))
					n++
					trace = append(trace, "set")
				}
			}
			if r.Intn(2) == 0 {
				db.UpdateSnapshot()
				trace = append(trace, "refresh")
			}
			if fail {
				return boom
			}
			return nil
		}
		if manual {
			db.Begin()
			if body() != nil {
				db.Rollback()
			} else {
				db.Commit()
			}
		} else {
			err := db.Do(body)
			if fail && err != boom || !fail && err != nil {
				t.Fail("Do returned %v", err)
			}
		}
		trace = append(trace, fmt.Sprint("fail=", fail))
		got := toM(db.Log)
		if fail {
			if n > 0 {
				changed = true
			}
			if !logsEqual(got, before) {
				t.Fail("an aborted transaction left %d records where there were %d: %v", len(got), len(before), trace)
			}
			cur = before
		} else {
			if len(got) < len(before)+n || !logsEqual(got[:len(before)], before) {
				t.Fail("a committed transaction kept %d records of %d + %d operations: %v", len(got), len(before), n, trace)
			}
			cur = got
		}
		// later queries
		want, err := mReplay(cur)
		if err != nil {
			t.Fail("log does not replay after transaction: %v (%v)", err, trace)
		}
		if r.Intn(2) == 0 {
			// grow the log before the next refresh, as a following command does
			u, err := bl.New(fmt.Sprintf("after%d-%d", round, len(cur)))
			if err != nil {
				t.Fail("New after a transaction: %v (%v)", err, trace)
			}
			_ = u
			cur = toM(db.Log)
			if want, err = mReplay(cur); err != nil {
				t.Fail("log does not replay after a following add: %v (%v)", err, trace)
			}
		}
		if err := db.UpdateSnapshot(); err != nil {
			t.Fail("refresh after transaction: %v (%v)", err, trace)
		}
		if !viewsEqual(want, viewM(db.Snapshot)) {
			t.Fail("view after transaction: %s (%v)", viewDiff(want, viewM(db.Snapshot)), trace)
		}
		if _, err := db.Save(); err != nil {
			t.Fail("cannot save after a transaction: %v (%v)", err, trace)
		}
	}
	sig := ""
	if changed {
		sig = fmt.Sprint(trace, len(g.log), stale)
		t.Sample(trace)
	}
	t.Eval(sig)
}

func aliveUUIDs(log []mTx) []string {
	v, err := mReplay(log)
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	var out []string
	seen := map[string]bool{}
	for _, tx := range log {
		if _, ok := v[tx.UUID]; ok && !seen[tx.UUID] {
			seen[tx.UUID] = true
			out = append(out, tx.UUID)
		}
	}
	return out
}

func remove(xs []string, x string) []string {
	var out []string
	for _, y := range xs {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

// ---- C16 ----

func runC16(c *Ctx) {
	c.Cases("blobs", c.N(40000, 500000), c16case)
	c.Cases("duplicates", c.N(20000, 200000), c16dup)
	c.Cases("session", c.N(700, 12000), c16session)
}

func c16case(t *T) {
	r := t.R
	db := &txlogs.DB{}
	if t.Large {
		db.Log = fromM(newLogGen(r, 1e15, 1000).log)
	}
	bl := blobformat.Blobs{DB: db}
	refused := 0
	replay := func() mView {
		v, err := mReplay(toM(db.Log))
		if err != nil {
			t.Fail("log does not replay: %v", err)
		}
		return v
	}
	refuse := func(what string, n int) {
		refused++
		if len(db.Log) != n {
			t.Fail("%s was refused but changed the log", what)
		}
	}
	for i := 0; i < 3+r.Intn(25); i++ {
		v := replay()
		byName := v.byName()
		alive := aliveUUIDs(toM(db.Log))
		n := len(db.Log)
		op := r.Intn(8)
		if len(alive) == 0 {
			op = 0
		}
		// the blob layer's own view may be stale
		if r.Intn(4) == 0 {
			db.ResetSnapshot()
		}
		checkTouch := func(u, what string, t0 int64) {
			up, err := strconv.ParseInt(replay()[u]["updated"], 10, 64)
			if err != nil || up < t0 || up > time.Now().UnixNano() {
				t.Fail("%s did not refresh the updated time (%q)", what, replay()[u]["updated"])
			}
		}
		t0 := time.Now().UnixNano()
		switch op {
		case 0, 1:
			name := genName(r)
			which := r.Intn(4)
			var u string
			var err error
			switch which {
			case 0:
				u, err = bl.NewUser(name)
				name = "user/" + name
			case 1:
				kind := pick(r, "scp", "file")
				u, err = bl.NewSync(kind)
				if err != nil {
					t.Fail("NewSync: %v", err)
				}
				name = replay()[u]["name"]
				if !strings.HasPrefix(name, "sync/"+kind) {
					t.Fail("NewSync(%q) created an entry named %q", kind, name)
				}
			default:
				u, err = bl.New(name)
			}
			t.Note("new %q -> %v", name, err)
			if _, taken := byName[name]; taken {
				if err != blobformat.ErrNameNotUnique {
					t.Fail("adding the taken name %q: error %v", name, err)
				}
				refuse("an add of a taken name", n)
			} else {
				if err != nil {
					t.Fail("adding the free name %q: %v", name, err)
				}
				if replay()[u]["name"] != name {
					t.Fail("the new entry is named %q, want %q", replay()[u]["name"], name)
				}
				checkTouch(u, "New", t0)
			}
		case 2, 3:
			u := alive[r.Intn(len(alive))]
			name := genName(r)
			if r.Intn(3) == 0 {
				name = v[alive[r.Intn(len(alive))]]["name"]
			}
			err := bl.Rename(u, name)
			t.Note("rename %q %q -> %v", v[u]["name"], name, err)
			if _, taken := byName[name]; taken {
				if err != blobformat.ErrNameNotUnique {
					t.Fail("renaming to the taken name %q: error %v", name, err)
				}
				refuse("a rename to a taken name", n)
			} else {
				if err != nil || replay()[u]["name"] != name {
					t.Fail("rename to the free name %q: error %v, name is %q", name, err, replay()[u]["name"])
				}
				checkTouch(u, "Rename", t0)
			}
			if _, err := mReplay(toM(db.Log)); err != nil {
				t.Fail("%v", err)
			}
		case 4:
			u := alive[r.Intn(len(alive))]
			key := genKey(r)
			if r.Intn(2) == 0 {
				key = caseVariant(t, protectedNames[r.Intn(len(protectedNames))])
			}
			err := bl.Set(u, key, "v"+genText(r, 4))
			t.Note("set %q -> %v", key, err)
			if isProtected(key) {
				if err == nil || !blobformat.IsKeyNotAllowed(err) {
					t.Fail("Set of the protected key %q: error %v", key, err)
				}
				refuse("Set of a protected key", n)
			} else {
				if err != nil {
					t.Fail("Set(%q): %v", key, err)
				}
				checkTouch(u, "Set", t0)
			}
		case 5:
			u := alive[r.Intn(len(alive))]
			key := genKey(r)
			if r.Intn(2) == 0 {
				key = pick(r, "name", "updated", "iv", "salt", "mkey")
			}
			err := bl.DeleteKey(u, key)
			t.Note("delkey %q -> %v", key, err)
			switch key {
			case "name", "updated", "iv", "salt", "mkey":
				if err == nil || !blobformat.IsKeyNotAllowed(err) {
					t.Fail("DeleteKey of the protected key %q: error %v", key, err)
				}
				refuse("DeleteKey of a protected key", n)
			default:
				if err != nil {
					t.Fail("DeleteKey(%q): %v", key, err)
				}
				if _, ok := replay()[u][key]; ok {
					t.Fail("DeleteKey(%q) left the key", key)
				}
				checkTouch(u, "DeleteKey", t0)
			}
		case 6:
			u := alive[r.Intn(len(alive))]
			before := v[u]["labels"]
			if before == "" || r.Intn(2) == 0 {
				if err := bl.AddLabel(u, fmt.Sprint("l", r.Intn(5))); err != nil {
					t.Fail("AddLabel: %v", err)
				}
				checkTouch(u, "AddLabel", t0)
			} else {
				if err := bl.RemoveLabel(u, r.Intn(len(strings.Split(before, ",")))); err != nil {
					t.Fail("RemoveLabel: %v", err)
				}
				checkTouch(u, "RemoveLabel", t0)
			}
		case 7:
			u := alive[r.Intn(len(alive))]
			if err := bl.SetTwofactor(u, "JBSWY3DPEHPK3PXP"); err != nil {
				t.Fail("SetTwofactor: %v", err)
			}
			checkTouch(u, "SetTwofactor", t0)
		}
		after := replay()
		seen := map[string]string{}
		for u, e := range after {
			if o, dup := seen[e["name"]]; dup {
				t.Fail("entries %s and %s share the name %q", o, u, e["name"])
			}
			seen[e["name"]] = u
			// protected fields of entries that no operation was allowed to touch
			for _, p := range []string{"iv", "salt", "mkey"} {
				if e[p] != v[u][p] {
					t.Fail("protected key %q changed", p)
				}
			}
		}
		t.Count("operations", 1)
	}
	t.Count("refused", refused)
	sig := ""
	if refused > 0 {
		sig = fmt.Sprint(t.notes)
		t.Sample(t.notes)
	}
	t.Eval(sig)
}

func caseVariant(t *T, s string) string {
	b := []byte(s)
	if t.R.Intn(2) == 0 {
		for i := range b {
			if t.R.Intn(2) == 0 {
				b[i] = byte(unicode.ToUpper(rune(b[i])))
			}
		}
	}
	return string(b)
}

func c16dup(t *T) {
	r := t.R
	g := newLogGen(r, 1e15, 1000)
	pool := []string{"a", "a1", "a11", "b", "b1", "c", "a1111"}
	n := 2 + r.Intn(t.scale(10, 150))
	if t.Large {
		for i := 0; i < 100; i++ {
			pool = append(pool, fmt.Sprint("n", i))
		}
	}
	for i := 0; i < n; i++ {
		g.add(pool[r.Intn(len(pool))])
	}
	if r.Intn(3) == 0 {
		g.del(g.alive[r.Intn(len(g.alive))])
	}
	before := g.view()
	db := &txlogs.DB{Log: fromM(g.log)}
	bl := blobformat.Blobs{DB: db}
	if r.Intn(2) == 0 {
		db.UpdateSnapshot()
	}
	ren, err := bl.RenameDuplicates()
	if err != nil {
		t.Fail("RenameDuplicates: %v", err)
	}
	got := toM(db.Log)
	if len(got) < len(g.log) || !logsEqual(got[:len(g.log)], g.log) {
		t.Fail("RenameDuplicates rewrote earlier records")
	}
	after, err := mReplay(got)
	if err != nil {
		t.Fail("log does not replay: %v", err)
	}
	if err := db.UpdateSnapshot(); err != nil || !viewsEqual(after, viewM(db.Snapshot)) {
		t.Fail("view differs from log after RenameDuplicates: %v", err)
	}
	count := map[string]int{}
	for _, e := range before {
		count[e["name"]]++
	}
	holders := map[string]int{}
	names := map[string]bool{}
	renamed := map[string]map[string]bool{}
	for u, e := range after {
		if names[e["name"]] {
			t.Fail("two entries are still named %q (before: %v)", e["name"], count)
		}
		names[e["name"]] = true
		old := before[u]
		if old == nil {
			t.Fail("RenameDuplicates created an entry")
		}
		if old["name"] == e["name"] {
			holders[e["name"]]++
			if !mapsEqual(old, e) {
				t.Fail("RenameDuplicates changed an entry that kept its name")
			}
		} else {
			if renamed[old["name"]] == nil {
				renamed[old["name"]] = map[string]bool{}
			}
			renamed[old["name"]][e["name"]] = true
			if old["updated"] == e["updated"] {
				t.Fail("a renamed entry's updated time was not refreshed")
			}
		}
	}
	if len(after) != len(before) {
		t.Fail("RenameDuplicates removed an entry")
	}
	for nme := range count {
		if holders[nme] != 1 {
			t.Fail("no entry kept the name %q (before: %v, after: %v)", nme, count, names)
		}
	}
	if len(ren) != len(renamed) {
		t.Fail("reported renames %v, actual %v", ren, renamed)
	}
	for o, nn := range ren {
		if !renamed[o][nn] {
			t.Fail("reported rename %q => %q did not happen: %v", o, nn, renamed)
		}
	}
	sig := ""
	if len(renamed) > 0 {
		sig = fmt.Sprint(count)
		t.Count("renames", len(got)-len(g.log))
	}
	t.Eval(sig)
}

// ---- C17 ----

// refMatch: the query's characters occur in order; lower-case ones match either case.
func refMatch(name, q string) bool {
	nr, qr := []rune(name), []rune(q)
	i := 0
	for _, c := range qr {
		for i < len(nr) && !(nr[i] == c || unicode.ToLower(nr[i]) == c) {
			i++
		}
		if i == len(nr) {
			return false
		}
		i++
	}
	return true
}

func refSearch(names []string, q string) []string {
	var out []string
	for _, n := range names {
		ok := true
		if q != "" {
			qf := strings.Split(q, "/")
			if len(qf) == 1 {
				ok = refMatch(n, q)
			} else {
				nf := strings.Split(n, "/")
				ok = len(nf) >= len(qf)
				for i := 0; ok && i < len(qf); i++ {
					ok = refMatch(nf[i], qf[i])
				}
			}
		}
		if ok {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func runC17(c *Ctx) {
	c.Cases("match", c.N(30000, 600000), func(t *T) {
		for i := 0; i < 15; i++ {
			name, q := genPair(t)
			got := fuzzy.Match(name, q)
			if utf8.ValidString(name) && utf8.ValidString(q) {
				if want := refMatch(name, q); got != want {
					t.Fail("Match(%q, %q) = %v, want %v", name, q, got, want)
				}
			} else {
				t.Count("invalid_utf8", 1)
				if q == "" && !got {
					t.Fail("Match(%q, empty) = false", name)
				}
				if strings.Contains(name, q) && utf8.ValidString(q) && !got {
					t.Fail("Match(%q, %q) = false although the name contains the query", name, q)
				}
			}
			if got {
				t.Count("matched", 1)
			} else {
				t.Count("unmatched", 1)
			}
			sig := ""
			if utf8.RuneCountInString(q) >= 2 {
				sig = name + "\x00" + q
				t.Sample([]string{name, q, fmt.Sprint(got)})
			}
			t.Eval(sig)
		}
	})
	c.Cases("search", c.N(25000, 300000), func(t *T) {
		r := t.R
		g := newLogGen(r, 1e15, 1000)
		var names []string
		for _, u := range g.alive {
			names = append(names, g.names[u])
		}
		for i := r.Intn(9); i > 0; i-- {
			n := g.uniqueName()
			g.add(n)
			names = append(names, n)
		}
		db := &txlogs.DB{Log: fromM(g.log)}
		bl := blobformat.Blobs{DB: db}
		if r.Intn(2) == 0 {
			db.UpdateSnapshot()
		}
		for k := 0; k < 8; k++ {
			q := genQuery(t, names)
			res, err := bl.Search(q)
			if err != nil {
				t.Fail("Search(%q): %v", q, err)
			}
			got := res.Names()
			sort.Strings(got)
			if want := refSearch(names, q); fmt.Sprint(want) != fmt.Sprint(got) {
				t.Fail("Search(%q) over %q = %q, want %q", q, names, got, want)
			}
			for u, n := range res {
				if g.names[u] != n {
					t.Fail("Search(%q) maps %s to %q, it is named %q", q, u, n, g.names[u])
				}
			}
			if len(res.UUIDs()) != len(got) {
				t.Fail("UUIDs and Names disagree")
			}
			t.Eval(fmt.Sprint("search", names, q))
		}
		if !logsEqual(toM(db.Log), g.log) {
			t.Fail("searching changed the log")
		}
	})
	c.Cases("session", c.N(700, 12000), c17session)
}

func genPair(t *T) (string, string) {
	r := t.R
	name := genText(r, 12)
	if r.Intn(2) == 0 {
		name = genName(r)
	}
	if r.Intn(6) == 0 {
		b := append([]byte(name), t.bytes(1+r.Intn(3))...)
		r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
		name = string(b)
	}
	rs := []rune(name)
	var q []rune
	if !utf8.ValidString(name) && r.Intn(2) == 0 {
		// a raw sub-slice of bytes
		i := r.Intn(len(name) + 1)
		j := i + r.Intn(len(name)-i+1)
		return name, name[i:j]
	}
	for _, c := range rs {
		switch r.Intn(4) {
		case 0:
			q = append(q, c)
		case 1:
			q = append(q, unicode.ToLower(c))
		}
	}
	switch r.Intn(7) {
	case 0:
		if len(q) > 1 {
			q[0], q[len(q)-1] = q[len(q)-1], q[0]
		}
	case 1:
		for i := range q {
			if r.Intn(3) == 0 {
				q[i] = unicode.ToUpper(q[i])
			}
		}
	case 2:
		if len(q) > 0 {
			q = append(q, q[len(q)-1])
		}
	case 3:
		q = append(q, []rune(genText(r, 2))...)
	case 4:
		q = rs
	}
	return name, string(q)
}

func genQuery(t *T, names []string) string {
	r := t.R
	if len(names) == 0 || r.Intn(8) == 0 {
		return pick(r, "", "a", "/", "//", "a/", "/a", "zz", "A")
	}
	n := names[r.Intn(len(names))]
	if r.Intn(6) == 0 {
		return n
	}
	var parts []string
	frs := strings.Split(n, "/")
	frs = frs[:1+r.Intn(len(frs))]
	for _, f := range frs {
		var q []rune
		for _, c := range f {
			switch r.Intn(3) {
			case 0:
				q = append(q, c)
			case 1:
				q = append(q, unicode.ToLower(c))
			}
		}
		if r.Intn(8) == 0 && len(q) > 0 {
			q[0] = unicode.ToUpper(q[0])
		}
		parts = append(parts, string(q))
	}
	return strings.Join(parts, "/")
}

// ---- C18 ----

func runC18(c *Ctx) {
	c.Cases("blobs", c.N(40000, 500000), c18case)
	c.Cases("session", c.N(700, 12000), c18session)
}

func c18case(t *T) {
	r := t.R
	g := newLogGen(r, 1e15, 1000)
	labels := map[string][]string{}
	pool := []string{"a", "b", "c", "work", "home", "wörk", "ab"}
	if t.Large {
		g = plainLogGen(r, 1e15, 1000)
		for i := 0; i < 60; i++ {
			pool = append(pool, fmt.Sprint("l", i))
		}
	}
	for i := 1 + r.Intn(t.scale(4, 300)); i > 0; i-- {
		u := g.add(fmt.Sprintf("e%d", i))
		var ls []string
		for j := r.Intn(t.scale(5, 80)); j > 0; j-- {
			ls = append(ls, pool[r.Intn(len(pool))]) // repetitions may come from set
		}
		if len(ls) > 0 {
			g.set(u, "labels", strings.Join(ls, ","))
		}
		labels[u] = ls
	}
	db := &txlogs.DB{Log: fromM(g.log)}
	bl := blobformat.Blobs{DB: db}
	max := 0
	for i := 0; i < 10; i++ {
		u := g.all[r.Intn(len(g.all))]
		ls := labels[u]
		n := len(db.Log)
		switch r.Intn(3) {
		case 0:
			l := pool[r.Intn(len(pool))]
			if err := bl.AddLabel(u, l); err != nil {
				t.Fail("AddLabel: %v", err)
			}
			labels[u] = append(append([]string{}, ls...), l)
			t.Note("add %s", l)
		case 1:
			idx := r.Intn(len(ls)+3) - 1
			err := bl.RemoveLabel(u, idx)
			t.Note("remove %d of %v: %v", idx, ls, err)
			if idx < 0 || idx >= len(ls) && !(len(ls) == 0 && idx == 0) {
				if err == nil {
					t.Fail("RemoveLabel(%d) of %v gave no error", idx, ls)
				}
				if len(db.Log) != n {
					t.Fail("a refused RemoveLabel changed the log")
				}
			} else if len(ls) == 0 {
				// removing from an entry without labels: either answer is fine, it stays without
			} else {
				if err != nil {
					t.Fail("RemoveLabel(%d) of %v: %v", idx, ls, err)
				}
				labels[u] = append(append([]string{}, ls[:idx]...), ls[idx+1:]...)
			}
		default:
			var want []string
			if t.Large && len(ls) > 0 && r.Intn(3) == 0 {
				// the labels of one entry, all or the last of them
				want = append(want, ls[r.Intn(len(ls)):]...)
				r.Shuffle(len(want), func(i, j int) { want[i], want[j] = want[j], want[i] })
			}
			for j := r.Intn(3); j >= 0 && len(want) < 3; j-- {
				want = append(want, pool[r.Intn(len(pool))])
			}
			t.Note("search %v", want)
			res, err := bl.SearchLabels(want...)
			if err != nil {
				t.Fail("SearchLabels: %v", err)
			}
			for _, x := range g.all {
				has := true
				for _, w := range want {
					f := false
					for _, l := range labels[x] {
						f = f || l == w
					}
					has = has && f
				}
				if _, ok := res[x]; ok != has {
					t.Fail("SearchLabels(%v): entry with labels %v returned: %v, want %v", want, labels[x], ok, has)
				}
			}
			if len(db.Log) != n {
				t.Fail("a label search changed the log")
			}
		}
		v, err := mReplay(toM(db.Log))
		if err != nil {
			t.Fail("log does not replay: %v", err)
		}
		for _, x := range g.all {
			got := v[x]["labels"]
			if got != strings.Join(labels[x], ",") {
				t.Fail("labels are %q, want %v", got, labels[x])
			}
			b, err := bl.Find(x)
			if err != nil || fmt.Sprint(b.Labels()) != fmt.Sprint(labels[x]) {
				t.Fail("Labels() = %v, want %v", b.Labels(), labels[x])
			}
			if _, ok := v[x]["labels"]; ok && len(labels[x]) == 0 {
				t.Fail("an entry without labels still has the key")
			}
			if len(labels[x]) > max {
				max = len(labels[x])
			}
		}
		t.Count("operations", 1)
	}
	sig := ""
	if max >= 3 {
		sig = fmt.Sprint(t.notes)
		t.Sample(t.notes)
	}
	t.Eval(sig)
}
