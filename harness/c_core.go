package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/pkcs7"
	"github.com/aarondl/bpass/txlogs"
)

func init() {
	register(&Check{ID: "C06", Run: runC06,
		Rule:        "random operation sequences on the real database (and the blob layer above it) with refreshes at random moments; non-trivial: the sequence mixes at least 4 kinds of operations and refreshes at least once before a later removal",
		Assumptions: []string{"operations are addressed to entries that exist, as every caller in the program does"}})
	register(&Check{ID: "C08", Run: runC08,
		Rule: "random logs (deletions, unknown entries, stale snapshots) and every step count from -3 to beyond the end; non-trivial: log of at least 5 records with at least 2 entries"})
	register(&Check{ID: "C28", Run: runC28,
		Rule: "all lengths 0..520 with all block sizes 1..255, all 1- and 2-byte inputs to unpad, and structured near-valid paddings; non-trivial: each distinct (length, block size) or unpad input"})
}

// ---- C06 ----

func runC06(c *Ctx) {
	c.Cases("txlog", c.N(40000, 600000), func(t *T) { c06case(t, false) })
	c.Cases("blobs", c.N(20000, 250000), func(t *T) { c06case(t, true) })
}

func c06case(t *T, viaBlobs bool) {
	r := t.R
	db := &txlogs.DB{}
	var model []mTx // expected log
	var alive []string
	ops := map[string]int{}
	removalAfterRefresh, refreshed := false, false
	nops := 3 + r.Intn(40)
	if t.Large {
		model = newLogGen(r, 1571887976e9, 1000).log
		db.Log = fromM(model)
		if r.Intn(2) == 0 {
			var err error
			if db, err = txlogs.New((&mDB{Log: model}).encode()); err != nil {
				t.Fail("New: %v", err)
			}
		}
	}
	text := func(n int) string {
		if t.Large && r.Intn(8) == 0 {
			return longText(r, 60000, 2500000)
		}
		return genText(r, n)
	}

	// sync pulls times (and uuids of adds) of records that the database just appended
	check := func(what string, want []mTx) {
		got := toM(db.Log)
		if len(got) != len(want) {
			t.Fail("after %s: log has %d records, want %d", what, len(got), len(want))
		}
		for i := range want {
			g := got[i]
			if want[i].Time == 0 {
				want[i].Time = g.Time
			}
			if want[i].UUID == "?" {
				want[i].UUID = g.UUID
			}
			if want[i].Value == "?now" {
				want[i].Value = g.Value
			}
			if g != want[i] {
				t.Fail("after %s: record %d is %+v, want %+v", what, i, g, want[i])
			}
		}
		model = want
	}
	viewCheck := func(what string) {
		if err := db.UpdateSnapshot(); err != nil {
			t.Fail("after %s: refresh failed: %v", what, err)
		}
		refreshed = true
		want, err := mReplay(model)
		if err != nil {
			panic(inconclusive("model log invalid: " + err.Error()))
		}
		if got := viewM(db.Snapshot); !viewsEqual(want, got) {
			t.Fail("after %s: the refreshed view differs from the replayed log: %s", what, viewDiff(want, got))
		}
		if db.Version != uint(len(model)) {
			t.Fail("after %s: view version %d, log has %d records", what, db.Version, len(model))
		}
		t.Count("view_comparisons", 1)
	}
	// mirror checks what a refresh would give now, without refreshing
	mirror := func(what string) {
		b, err := json.Marshal(db)
		if err != nil {
			t.Fail("cannot encode: %v", err)
		}
		cp := &txlogs.DB{}
		if err := json.Unmarshal(b, cp); err != nil {
			t.Fail("cannot decode: %v", err)
		}
		if err := cp.UpdateSnapshot(); err != nil {
			t.Fail("after %s: a refresh would fail: %v", what, err)
		}
		want, _ := mReplay(model)
		if got := viewM(cp.Snapshot); !viewsEqual(want, got) {
			t.Fail("after %s: a refresh gives a view that differs from the replayed log: %s", what, viewDiff(want, got))
		}
	}
	rec := func(kind, uuid, key, val string) mTx { return mTx{0, kind, uuid, key, val} }
	with := func(extra ...mTx) []mTx { return append(append([]mTx{}, model...), extra...) }
	aliveOf := func() {
		v, _ := mReplay(model)
		alive = alive[:0]
		seen := map[string]bool{}
		for _, tx := range model { // in log order, for determinism
			if _, ok := v[tx.UUID]; ok && !seen[tx.UUID] {
				seen[tx.UUID] = true
				alive = append(alive, tx.UUID)
			}
		}
		if t.Large && len(alive) > 40 {
			alive = alive[:40]
		}
	}
	bl := blobformat.Blobs{DB: db}
	aliveOf()

	mutate := func() string {
		if len(alive) == 0 || r.Intn(4) == 0 {
			if viaBlobs {
				name := fmt.Sprintf("%s-%d", genName(r), len(model))
				_, err := bl.New(name)
				if err != nil {
					t.Fail("New(%q): %v", name, err)
				}
				check("New", with(rec("add", "?", "", "")))
				return "new"
			}
			u, err := db.Add()
			if err != nil {
				t.Fail("Add: %v", err)
			}
			check("Add", with(rec("add", u, "", "")))
			return "add"
		}
		u := alive[r.Intn(len(alive))]
		k, v := genKey(r), text(10)
		switch r.Intn(4) {
		case 0, 1:
			db.Set(u, k, v)
			check("Set", with(rec("setk", u, k, v)))
			return "set"
		case 2:
			db.DeleteKey(u, k)
			check("DeleteKey", with(rec("delk", u, k, "")))
			return "delk"
		}
		db.Delete(u)
		check("Delete", with(rec("del", u, "", "")))
		return "del"
	}
	if viaBlobs {
		mutate = func() string {
			before := len(model)
			name := ""
			if len(alive) == 0 || r.Intn(4) == 0 {
				name = fmt.Sprintf("%s-%d", genName(r), len(model))
				u, err := bl.New(name)
				if err != nil {
					t.Fail("New(%q): %v", name, err)
				}
				c06absorb(t, db, &model, before)
				want, err := mReplay(model)
				if err != nil || want[u]["name"] != name {
					t.Fail("New(%q): the log does not contain the named entry", name)
				}
				return "new"
			}
			u := alive[r.Intn(len(alive))]
			var what string
			switch r.Intn(6) {
			case 0:
				what = "rename"
				bl.Rename(u, fmt.Sprintf("%s-%d", genName(r), len(model)))
			case 1:
				what = "addlabel"
				bl.AddLabel(u, genWord(r, 4))
			case 2:
				what = "delkey"
				bl.DeleteKey(u, genKey(r))
			case 3:
				what = "bset"
				bl.Set(u, genKey(r), text(8))
			case 4:
				what = "del"
				db.Delete(u)
			default:
				what = "rmlabel"
				bl.RemoveLabel(u, 0)
			}
			c06absorb(t, db, &model, before)
			return what
		}
	}

	for i := 0; i < nops; i++ {
		what := ""
		switch k := r.Intn(16); {
		case k < 7:
			what = mutate()
			aliveOf()
		case k < 9:
			what = "refresh"
			viewCheck("refresh")
		case k == 9:
			what = "reset"
			db.ResetSnapshot()
		case k == 10:
			n := uint(r.Intn(len(model) + 3))
			what = "undo"
			err := db.RollbackN(n)
			if n > uint(len(model)) {
				if err == nil {
					t.Fail("RollbackN(%d) with %d records gave no error", n, len(model))
				}
				check("refused RollbackN", with())
			} else {
				if err != nil {
					t.Fail("RollbackN(%d) with %d records: %v", n, len(model), err)
				}
				if n > 0 && refreshed {
					removalAfterRefresh = true
				}
				check("RollbackN", append([]mTx{}, model[:len(model)-int(n)]...))
			}
			aliveOf()
		case k < 13:
			fail := r.Intn(3) != 0
			what = "tx-commit"
			if fail {
				what = "tx-abort"
			}
			saved := append([]mTx{}, model...)
			n := r.Intn(5)
			var boom = errors.New("boom")
			err := db.Do(func() error {
				for j := 0; j < n; j++ {
					if r.Intn(2) == 0 {
						viewCheck("refresh inside a transaction")
					}
					mutate()
					aliveOf()
				}
				if r.Intn(2) == 0 {
					viewCheck("refresh at the end of a transaction")
				}
				if _, err := db.Save(); err == nil {
					t.Fail("Save succeeded with a transaction open")
				}
				if fail {
					return boom
				}
				return nil
			})
			if fail {
				if err != boom {
					t.Fail("Do lost the error: %v", err)
				}
				if refreshed && n > 0 {
					removalAfterRefresh = true
				}
				model = saved
				check("rollback", model)
			} else if err != nil {
				t.Fail("Do: %v", err)
			}
			aliveOf()
		case k == 13:
			what = "reload"
			b, err := db.Save()
			if err != nil {
				t.Fail("Save: %v", err)
			}
			n, err := txlogs.New(b)
			if err != nil {
				t.Fail("New: %v", err)
			}
			if n.Version != db.Version || !logsEqual(toM(n.Log), toM(db.Log)) || !viewsEqual(viewM(n.Snapshot), viewM(db.Snapshot)) {
				t.Fail("save and load changed log, view or version: %s", b)
			}
			l, err := txlogs.NewLog(b)
			if err != nil || !logsEqual(toM(l), toM(db.Log)) {
				t.Fail("NewLog disagrees with the saved log: %v", err)
			}
			db = n
			bl.DB = n
		case k == 14:
			what = "history"
			if len(model) > 0 {
				n := r.Intn(len(model))
				if _, err := db.SnapshotAt(n); err != nil {
					t.Fail("SnapshotAt: %v", err)
				}
				if len(alive) > 0 {
					db.EntrySnapshotAt(alive[r.Intn(len(alive))], r.Intn(4))
				}
				check("history query", with())
			}
		default:
			what = "read"
			if viaBlobs || len(alive) == 0 {
				bl.Search("")
			} else if b, err := bl.Find(alive[r.Intn(len(alive))]); err != nil || b == nil {
				t.Fail("Find of a live entry: %v %v", b, err)
			}
			refreshed = true
			check("read", with())
		}
		ops[what]++
		t.Note("%s", what)
		t.Count("op_"+what, 1)
		mirror(what)
	}
	viewCheck("the whole sequence")
	sig := ""
	if len(ops) >= 4 && removalAfterRefresh {
		sig = fmt.Sprint(t.notes)
	}
	t.Eval(sig)
	if sig != "" {
		t.Sample(t.notes)
	}
}

// c06absorb extends the model with the records the blob layer appended, which must be an extension.
func c06absorb(t *T, db *txlogs.DB, model *[]mTx, before int) {
	got := toM(db.Log)
	if len(got) < before || !logsEqual(got[:before], (*model)[:before]) {
		t.Fail("an operation rewrote earlier records")
	}
	*model = got
}

// ---- C08 ----

func runC08(c *Ctx) {
	c.Cases("queries", c.N(20000, 300000), c08case)
	c.Cases("show", c.N(400, 8000), c08show)
}

func c08case(t *T) {
	r := t.R
	g := newLogGen(r, 1e9, 1000)
	n := r.Intn(25)
	for i := 0; i < n; i++ {
		g.op(true)
	}
	if r.Intn(3) == 0 && len(g.all) > 0 {
		// an entry deleted and created again under the same id
		u := g.all[0]
		if _, ok := g.view()[u]; !ok {
			g.rec("add", u, "", "")
			g.rec("setk", u, "name", "again")
		}
	}
	log := g.log
	if r.Intn(3) == 0 {
		// any beginning of a log is one, down to a single record
		log = log[:r.Intn(len(log)+1)]
		if r.Intn(3) == 0 && len(log) > 2 {
			log = log[:r.Intn(3)]
		}
	}
	db := &txlogs.DB{Log: fromM(log)}
	if r.Intn(2) == 0 {
		db.UpdateSnapshot()
	} else if len(log) > 0 && r.Intn(2) == 0 {
		k := r.Intn(len(log) + 1)
		db.Log = db.Log[:k:k]
		db.UpdateSnapshot()
		db.Log = fromM(log)
	}
	ver0, snap0 := db.Version, viewM(db.Snapshot)
	t.Set("log", log)
	same := func(what string) {
		if db.Version != ver0 || !viewsEqual(snap0, viewM(db.Snapshot)) || !logsEqual(log, toM(db.Log)) {
			t.Fail("%s changed the database", what)
		}
	}
	// steps asks about every step of n, or of a large history about some
	steps := func(n int, f func(ago int)) {
		for ago := -3; ago <= n+3; ago++ {
			if t.Large && ago > 2 && ago < n-2 && r.Intn(n) > 20 {
				continue
			}
			f(ago)
		}
	}
	steps(len(log), func(ago int) {
		s, err := db.SnapshotAt(ago)
		t.Count("queries", 1)
		if ago < 0 || ago > len(log) {
			if err == nil {
				t.Fail("SnapshotAt(%d) of %d records gave no error", ago, len(log))
			}
		} else {
			want, _ := mReplay(log[:len(log)-ago])
			if err != nil {
				t.Fail("SnapshotAt(%d) of %d records: %v", ago, len(log), err)
			}
			if !viewsEqual(want, viewM(s)) {
				t.Fail("SnapshotAt(%d): %s", ago, viewDiff(want, viewM(s)))
			}
			for _, e := range s {
				e["poison"] = "x"
			}
			delete(s, "")
		}
		same(fmt.Sprintf("SnapshotAt(%d)", ago))
	})
	uuids := append(append([]string{}, g.all...), "no-such-entry", "")
	changes := map[string]int{}
	if t.Large {
		most := ""
		for _, tx := range log {
			if changes[tx.UUID]++; changes[tx.UUID] > changes[most] {
				most = tx.UUID
			}
		}
		r.Shuffle(len(uuids), func(i, j int) { uuids[i], uuids[j] = uuids[j], uuids[i] })
		for _, u := range uuids[5:] {
			if changes[u] > 90 {
				uuids = append(uuids[:5:5], u)
			}
		}
		uuids = append(uuids[:minInt(7, len(uuids))], most)
	}
	for _, u := range uuids {
		var own []mTx
		last := int64(-1)
		for _, tx := range log {
			if tx.UUID == u {
				own = append(own, tx)
				last = tx.Time
			}
		}
		if v := db.NVersions(u); v != len(own) {
			t.Fail("NVersions(%s) = %d, the entry has %d changes", u, v, len(own))
		}
		if l := db.LastUpdated(u); l != last {
			t.Fail("LastUpdated(%s) = %d, want %d", u, l, last)
		}
		steps(len(own), func(ago int) {
			e, err := db.EntrySnapshotAt(u, ago)
			t.Count("queries", 1)
			var want map[string]string
			ok := false
			if ago >= 0 && ago <= len(own) {
				v, verr := mReplay(own[:len(own)-ago])
				if verr != nil {
					panic(inconclusive(verr.Error()))
				}
				want, ok = v[u]
			}
			if ok != (err == nil) {
				t.Fail("EntrySnapshotAt(%s, %d) with %d changes: error %v, want a state: %v", u, ago, len(own), err, ok)
			}
			if ok {
				if !mapsEqual(want, e) {
					t.Fail("EntrySnapshotAt(%s, %d): got %q want %q", u, ago, e, want)
				}
				e["poison"] = "x"
			}
			same(fmt.Sprintf("EntrySnapshotAt(%s, %d)", u, ago))
		})
		same("NVersions/LastUpdated")
	}
	for _, ago := range []int{-1 << 62, -1 << 31, 1 << 31, 1 << 62} {
		if _, err := db.SnapshotAt(ago); err == nil {
			t.Fail("SnapshotAt(%d) gave no error", ago)
		}
		for _, u := range uuids {
			if _, err := db.EntrySnapshotAt(u, ago); err == nil {
				t.Fail("EntrySnapshotAt(%s,%d) gave no error", u, ago)
			}
		}
	}
	sig := ""
	if len(log) >= 5 && len(g.all) >= 2 {
		sig = fmt.Sprint(log)
		t.Sample(map[string]interface{}{"records": len(log), "entries": len(g.all), "steps": len(log) + 7})
	}
	t.Eval(sig)
}

// ---- C28 ----

func runC28(c *Ctx) {
	maxLen := c.N(520, 1100)
	c.Cases("pad", maxLen+1, func(t *T) {
		n := t.Case
		for k := 1; k <= 255; k++ {
			b := t.bytes(n)
			if t.R.Intn(2) == 0 && n > 0 {
				v := byte(1 + t.R.Intn(8))
				for i := n - 1; i >= 0 && i > n-9; i-- {
					b[i] = v // data that looks like padding
				}
			}
			orig := append([]byte{}, b...)
			p := pkcs7.Pad(b, k)
			if !bytes.Equal(b, orig) {
				t.Fail("Pad(len %d, %d) changed its input", n, k)
			}
			m := k - n%k
			if len(p) != n+m || len(p)%k != 0 {
				t.Fail("Pad(len %d, %d) has length %d, want %d", n, k, len(p), n+m)
			}
			if !bytes.Equal(p[:n], orig) {
				t.Fail("Pad(len %d, %d) changed the data", n, k)
			}
			for _, x := range p[n:] {
				if int(x) != m {
					t.Fail("Pad(len %d, %d): padding bytes %v, want %d of %d", n, k, p[n:], m, m)
				}
			}
			pc := append([]byte{}, p...)
			u, err := pkcs7.Unpad(p)
			if err != nil || !bytes.Equal(u, orig) {
				t.Fail("Unpad(Pad(len %d, %d)) failed: %v", n, k, err)
			}
			if !bytes.Equal(p, pc) {
				t.Fail("Unpad changed its input (len %d, %d)", n, k)
			}
			t.Eval(fmt.Sprintf("pad %d %d", n, k))
		}
	})
	c.Cases("pad-large", c.N(24, 200), func(t *T) {
		n := pickInt(t.R, 1<<12, 1<<16, 1<<20, 1<<24, 1<<25) - 300 + t.R.Intn(600)
		k := pickInt(t.R, 1, 8, 16, 16, 16, 128, 255)
		b := t.bytes(n)
		orig := append([]byte{}, b...)
		p := pkcs7.Pad(b, k)
		m := k - n%k
		if !bytes.Equal(b, orig) || len(p) != n+m || !bytes.Equal(p[:n], orig) {
			t.Fail("Pad(len %d, %d): length %d, want %d, or other data", n, k, len(p), n+m)
		}
		for _, x := range p[n:] {
			if int(x) != m {
				t.Fail("Pad(len %d, %d): padding bytes %v, want %d of %d", n, k, p[n:], m, m)
			}
		}
		if u, err := pkcs7.Unpad(p); err != nil || !bytes.Equal(u, orig) {
			t.Fail("Unpad(Pad(len %d, %d)) failed: %v", n, k, err)
		}
		if m > 1 {
			p[len(p)-1-t.R.Intn(m-1)-1] ^= 1
			if _, err := pkcs7.Unpad(p); err == nil {
				t.Fail("Unpad accepts broken padding of %d bytes", len(p))
			}
		}
		t.Eval(fmt.Sprintf("pad %d %d", n, k))
	})
	unpad := func(t *T, b []byte) {
		orig := append([]byte{}, b...)
		var want []byte
		ok := false
		if len(b) > 0 {
			n := int(b[len(b)-1])
			if n >= 1 && n <= len(b) {
				ok = true
				for _, x := range b[len(b)-n:] {
					ok = ok && int(x) == n
				}
				if ok {
					want = append([]byte{}, b[:len(b)-n]...)
				}
			}
		}
		got, err := pkcs7.Unpad(b)
		if ok != (err == nil) {
			t.Fail("Unpad(%x): error %v, exact padding: %v", tailBytes(orig), err, ok)
		}
		if ok && !bytes.Equal(got, want) {
			t.Fail("Unpad(%x) returned %d bytes, want %d", tailBytes(orig), len(got), len(want))
		}
		if !bytes.Equal(b, orig) {
			t.Fail("Unpad changed its input")
		}
		if ok {
			t.Count("unpad_accepted", 1)
		} else {
			t.Count("unpad_refused", 1)
		}
		t.Eval(fmt.Sprintf("unpad %x", orig))
	}
	c.Cases("unpad-small", 257, func(t *T) {
		if t.Case == 256 {
			unpad(t, nil)
			unpad(t, []byte{})
			for a := 0; a < 256; a++ {
				unpad(t, []byte{byte(a)})
			}
			return
		}
		for b := 0; b < 256; b++ {
			unpad(t, []byte{byte(t.Case), byte(b)})
		}
	})
	c.Cases("unpad-structured", c.N(3000, 60000), func(t *T) {
		r := t.R
		for i := 0; i < 20; i++ {
			n := r.Intn(300)
			b := t.bytes(n)
			v := r.Intn(256)
			run := v + r.Intn(5) - 2
			for j := 0; j < run && j < n; j++ {
				b[n-1-j] = byte(v)
			}
			if r.Intn(3) == 0 && n > 0 {
				k := r.Intn(n)
				if run > 0 && r.Intn(2) == 0 {
					k = n - 1 - r.Intn(minInt(run, n))
				}
				b[k] ^= byte(1 << uint(r.Intn(8)))
			}
			unpad(t, b)
		}
		t.Sample(map[string]interface{}{"kind": "structured unpad", "case": t.Case})
	})
}

func tailBytes(b []byte) []byte {
	if len(b) > 40 {
		return b[len(b)-40:]
	}
	return b
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var _ = reflect.DeepEqual

// c08show asks the program for every past state of an entry.
func c08show(t *T) {
	r := t.R
	g := newLogGen(r, 1571887976e9, 5e9)
	name := "entry" + fmt.Sprint(r.Intn(100))
	u := g.add(name)
	g.add("other")
	for i := r.Intn(12); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			g.rec("delk", u, pick(r, "user", "email", "k1"), "")
		case 1:
			g.set(g.all[1], "k1", "unrelated")
		case 2:
			g.set(u, "name", "old"+fmt.Sprint(r.Intn(5)))
		default:
			g.set(u, pick(r, "user", "email", "k1", "k2", "notes"), pick(r, "v1", "v2", "v3", "v four"))
		}
	}
	name = g.view()[u]["name"]
	var own []mTx
	for _, tx := range g.log {
		if tx.UUID == u {
			own = append(own, tx)
		}
	}
	dir := t.Scratch()
	f := dir + "/f"
	craft(t, f, "pw", g.log)
	s := NewSession("pw")
	var idx []int
	lo, hi := -2, len(own)+2
	for n := lo; n <= hi; n++ {
		idx = append(idx, s.Cmd(fmt.Sprintf("show %s %d", name, n)))
	}
	s.Raw("exit")
	res := (&Sess{Dir: dir, File: f, Input: s.String()}).Run(t)
	res.MustOK(t, "show with history")
	segs := res.Segments(t, s)
	for i, n := 0, lo; n <= hi; i, n = i+1, n+1 {
		got := parseShow(segs[idx[i]])
		var want map[string]string
		if n >= 0 && n <= len(own) {
			v, err := mReplay(own[:len(own)-n])
			if err != nil {
				panic(inconclusive(err.Error()))
			}
			want = expectShow(v[u])
			if n == 0 {
				want["snaps"] = fmt.Sprint(len(own))
			}
		}
		if len(want) == 0 {
			if len(got) != 0 {
				t.Fail("show %s %d: shows %q although there is no such state (%d changes)\n%s", name, n, got, len(own), segs[idx[i]])
			}
			continue
		}
		if !mapsEqual(want, got) {
			t.Fail("show %s %d of %d changes: got %q want %q\n%s", name, n, len(own), got, want, segs[idx[i]])
		}
		t.Count("shown_states", 1)
	}
	t.Eval(fmt.Sprint("show", g.log))
	t.Sample(map[string]interface{}{"show": name, "changes": len(own)})
}
