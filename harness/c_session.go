package main

import (
	"bytes"
	"fmt"
	"strings"
)

// ---- C07: wizards ----

// c07wizard aborts the add and addsync wizards at every prompt, in three ways, or completes them.
func c07wizard(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	old := oldLog(t, 2+r.Intn(8))
	craft(t, f, "pw", old)
	before := mustRead(t, f)

	type prompt struct{ line string }
	scp := t.Case%3 == 2
	file := t.Case%3 == 1
	var first string
	var answers []string
	want := map[string]string{}
	name := ""
	switch {
	case scp:
		first = "addsync scp"
		user, host, path := "joe", "host"+fmt.Sprint(r.Intn(9)), "dir/f"+fmt.Sprint(r.Intn(9))
		answers = []string{user, host, "", path}
		want["sync"] = "true"
		want["url"] = "scp://" + user + "@" + host + ":22/" + path
		if r.Intn(2) == 0 {
			answers = []string{"", user, "", host, "nonsense", "2222", "", path}
			want["url"] = "scp://" + user + "@" + host + ":2222/" + path
		}
		if r.Intn(2) == 0 {
			answers = append(answers, "9", "x", "1")
			want["privkey"], want["pubkey"] = "?", "?"
		} else {
			answers = append(answers, "3", "m", "s3cret", "s3cret")
			want["url"] = strings.Replace(want["url"], "joe@", "joe:s3cret@", 1)
		}
		name = "sync/scp"
	case file:
		first = "addsync file"
		p := dir + "/remote" + fmt.Sprint(r.Intn(9))
		answers = []string{p}
		if r.Intn(2) == 0 {
			answers = []string{"", "", p}
		}
		want["sync"], want["url"] = "true", "file://"+p
		name = "sync/file"
	default:
		name = "newone"
		first = "add " + name
		answers = []string{"e@x.org", "joe"}
		want["email"], want["user"] = "e@x.org", "joe"
		for i := r.Intn(3); i > 0; i-- {
			answers = append(answers, pick(r, "?", "", "12", "u 3", "zz"))
		}
		answers = append(answers, "m", "p1", "p2", "m", "hunter2", "hunter2")
		want["pass"] = "hunter2"
	}
	want["name"] = name
	cut := r.Intn(len(answers) + 2)
	style := t.Case / 3 % 3
	if cut >= len(answers) {
		// complete
		s := NewSession("pw")
		s.Cmd(append([]string{first}, answers...)...)
		ls := s.Cmd("ls")
		s.Raw("exit")
		t0 := nowNano()
		res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: []string{"--no-sync"}}).Run(t)
		res.MustOK(t, "completed wizard "+first)
		segs := res.Segments(t, s)
		v, db := openView(t, f, "", "pw")
		if !logsEqual(db.Log[:len(old)], old) {
			t.Fail("completing %q rewrote history", first)
		}
		u, ok := v.byName()[name]
		if !ok || !strings.Contains(segs[ls], name) {
			t.Fail("completing %q left no entry %q\n%s", first, name, segs[ls])
		}
		got := v[u]
		up := got["updated"]
		delete(got, "updated")
		if up < fmt.Sprint(t0) {
			t.Fail("updated time %q of the new entry", up)
		}
		for k, w := range want {
			if w == "?" && got[k] != "" {
				continue
			}
			if got[k] != w {
				t.Fail("completing %q stored %s = %q, want %q", first, k, got[k], w)
			}
		}
		if len(got) != len(want) {
			t.Fail("completing %q stored %q, want keys of %q", first, got, want)
		}
		oldView, _ := mReplay(old)
		delete(v, u)
		if !viewsEqual(oldView, v) {
			t.Fail("completing %q changed other entries: %s", first, viewDiff(oldView, v))
		}
		t.Count("completed", 1)
		t.Eval(fmt.Sprint(first, answers, "complete"))
		return
	}
	t.Note("%s, abort after %q, style %d", first, answers[:cut], style)
	sig := fmt.Sprint(first, answers[:cut], style)
	t.Count("aborted", 1)
	switch style {
	case 0: // end of input: the session then ends and saves
		in := "pw\n" + first + "\n"
		for _, a := range answers[:cut] {
			in += a + "\n"
		}
		res := (&Sess{Dir: dir, File: f, Input: in, Args: []string{"--no-sync"}}).Run(t)
		res.MustOK(t, "wizard aborted by end of input")
		_, db := openView(t, f, "", "pw")
		if !logsEqual(db.Log, old) {
			t.Fail("%q aborted after %q by end of input left %d records where there were %d", first, answers[:cut], len(db.Log), len(old))
		}
	case 1: // ctrl-d, then the session goes on
		lines := append([]string{first}, answers[:cut]...)
		s := NewSession("pw")
		s.Raw(lines...)
		s.b.WriteByte(4)
		s.b.WriteByte('\n')
		s.Cmd()
		ls := s.Cmd("ls")
		s.Cmd("show " + name)
		again := r.Intn(2) == 0
		if again {
			s.Cmd(append([]string{first}, answers...)...)
		}
		s.Cmd("add afterwards", "", "", "m", "x", "x")
		s.Cmd("set afterwards k v")
		s.Raw("exit")
		res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: []string{"--no-sync"}}).Run(t)
		res.MustOK(t, "session after an aborted wizard")
		segs := res.Segs()
		if len(segs) != s.segs+2 {
			t.Fail("the session went wrong after the aborted wizard:\n%s", tail(res.Out, 1500))
		}
		for _, l := range strings.Split(segs[ls], "\n") {
			if l == name {
				t.Fail("%q aborted after %q is listed as an entry", first, answers[:cut])
			}
		}
		v, db := openView(t, f, "", "pw")
		if !logsEqual(db.Log[:len(old)], old) {
			t.Fail("history was rewritten")
		}
		oldView, _ := mReplay(old)
		nm := v.byName()
		wantN := len(oldView) + 1
		if again {
			wantN++
			if v[nm[name]]["name"] != name {
				t.Fail("repeating the aborted %q did not create %q: %q", first, name, nm)
			}
		}
		if len(v) != wantN || v[nm["afterwards"]]["k"] != "v" || v[nm["afterwards"]]["pass"] != "x" {
			t.Fail("after an aborted %q (after %q) the file holds %q", first, answers[:cut], nm)
		}
		adds := 0
		for _, tx := range db.Log[len(old):] {
			if tx.Kind == "add" {
				adds++
			}
		}
		if adds != wantN-len(oldView) {
			t.Fail("the aborted wizard's records were saved: %+v", db.Log[len(old):])
		}
	case 2: // ctrl-c: the session ends without saving
		in := "pw\n" + first + "\n"
		for _, a := range answers[:cut] {
			in += a + "\n"
		}
		in += "\x03"
		res := (&Sess{Dir: dir, File: f, Input: in, Args: []string{"--no-sync"}}).Run(t)
		if c := res.Crashed(); c != "" {
			t.Fail("crash on ctrl-c: %s", c)
		}
		if !bytes.Equal(mustRead(t, f), before) {
			t.Fail("%q interrupted after %q changed the file", first, answers[:cut])
		}
	}
	t.Eval(sig)
	t.Sample(sig)
}

// ---- C16 sessions ----

func c16session(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	old := oldLog(t, 6+r.Intn(8))
	craft(t, f, "pw", old)
	s := NewSession("pw")
	m := newSim(t, s, old)
	for i := 0; i < 12; i++ {
		switch r.Intn(6) {
		case 0:
			m.opAdd()
		case 1, 2:
			m.opMv()
		case 3:
			pre, e := m.target()
			k := caseVariant(t, pick(r, "name", "updated", "iv", "salt", "mkey"))
			if r.Intn(2) == 0 && e != nil {
				content := pick(r, "", "changed", "a")
				if content == "" {
					k = strings.ToLower(k) // other spellings never exist: erasing those is neither here nor there
				}
				m.edits = append(m.edits, EditAction{Write: []byte(content)})
				m.seenEd = append(m.seenEd, simEditExpect{""})
				m.cmd("edit-protected", "edit "+pre+k)
			} else {
				m.cmd("set-protected", "set "+pre+k+" changed")
			}
		case 4:
			pre, _ := m.target()
			m.cmd("rmk-protected", "rmk "+pre+pick(r, "name", "updated"))
		case 5:
			m.opSet()
		}
	}
	s.Raw("exit")
	t0 := nowNano()
	res := (&Sess{Dir: dir, File: f, Input: s.String(), Edits: m.edits, Args: []string{"--no-sync"}}).Run(t)
	res.MustOK(t, "session of adds and renames")
	res.Segments(t, s)
	_, db := openView(t, f, "", "pw")
	m.verify(old, db, t0, nowNano())
	// user key material
	if t.Case%4 == 0 {
		c16user(t)
	}
	t.Eval(fmt.Sprint(t.notes))
	t.Sample(t.notes)
}

// c16user tries to damage a user entry with every generic command.
func c16user(t *T) {
	dir := t.Scratch()
	f := dir + "/u"
	s := NewSession("pw", "pw")
	s.Cmd("adduser ann")
	s.Cmd("adduser bob", "m", "bobpw", "bobpw")
	s.Raw("exit")
	(&Sess{Dir: dir, File: f, Input: s.String()}).Run(t).MustOK(t, "making users")
	db0, _ := openDB(t, f, "ann", "pw")
	v0, _ := mReplay(db0.Log)
	s = NewSession("ann", "pw")
	var edits []EditAction
	for _, k := range []string{"iv", "salt", "mkey", "IV", "Salt", "mKey", "name", "updated"} {
		s.Cmd("set user/bob " + k + " 00")
		s.Cmd("edit user/bob " + k)
		edits = append(edits, EditAction{Write: []byte("00")})
		s.Cmd("edit user/bob " + k)
		edits = append(edits, EditAction{Write: []byte{}})
		s.Cmd("rmk user/bob " + k)
	}
	s.Cmd("adduser bob")
	s.Cmd("mv user/bob user/ann")
	s.Raw("exit")
	res := (&Sess{Dir: dir, File: f, Input: s.String(), Edits: edits}).Run(t)
	res.MustOK(t, "damaging a user entry")
	res.Segments(t, s)
	for _, c := range [][2]string{{"ann", "pw"}, {"bob", "bobpw"}} {
		v, _ := openView(t, f, c[0], c[1])
		for u, e := range v0 {
			for _, k := range []string{"iv", "salt", "mkey", "name"} {
				if v[u][k] != e[k] {
					t.Fail("generic commands changed %s of %s", k, e["name"])
				}
			}
		}
		if len(v) != len(v0) {
			t.Fail("generic commands changed the users")
		}
	}
	t.Count("user_entries", 2)
}

// ---- C17 sessions ----

// c17session sends queries to commands and checks on which entry they act.
func c17session(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 1e9)
	var names []string
	for i, u := range g.alive {
		g.set(u, "k1", "bulk-value-of-"+fmt.Sprint(i))
	}
	for i := 2 + r.Intn(7); i > 0; i-- {
		n := g.uniqueName()
		u := g.add(n)
		g.set(u, "k1", "value-of-"+fmt.Sprint(i))
		names = append(names, n)
	}
	craft(t, f, "pw", g.log)
	s := NewSession("pw")
	m := newSim(t, s, g.log)
	acted, ambiguous := 0, 0
	for i := 0; i < 14; i++ {
		q := m.query()
		hits := refSearch(m.names(), q)
		e := m.ents[m.resolve(q)]
		if e != nil {
			acted++
		} else if len(hits) > 1 {
			ambiguous++
		}
		switch r.Intn(4) {
		case 0:
			want := strings.Join(hits, "\n") + "\n"
			i := m.cmd("ls", "ls "+q)
			m.expect(i, fmt.Sprintf("ls %q over %q", q, m.names()), func(out string) string {
				if len(hits) == 0 {
					for _, n := range names {
						if strings.Contains(out, n+"\n") && strings.HasPrefix(out, n) {
							return "lists an entry that does not match"
						}
					}
					return ""
				}
				if out != want {
					return fmt.Sprintf("lists %q, want %q", out, want)
				}
				return ""
			})
		case 1:
			i := m.cmd("get", "get "+q+" k1")
			val := ""
			if e != nil {
				val = e.keys["k1"]
			}
			m.expect(i, fmt.Sprintf("get %q over %q", q, m.names()), func(out string) string {
				for _, o := range m.t.data["vals"].([]string) {
					has := false
					for _, l := range strings.Split(out, "\n") {
						has = has || l == o
					}
					if has != (o == val && val != "") {
						return fmt.Sprintf("prints %q: %v", o, has)
					}
				}
				return ""
			})
		case 2:
			v := fmt.Sprint("set-", i)
			m.cmd("set", "set "+q+" k2 "+v)
			if e != nil {
				e.set("k2", v)
			}
		case 3:
			m.cmd("rmk", "rmk "+q+" k2")
			if e != nil {
				if _, ok := e.keys["k2"]; ok {
					e.delk("k2")
				}
			}
		}
	}
	i := s.Cmd("ls")
	all := strings.Join(m.names(), "\n") + "\n"
	m.expect(i, "ls", func(out string) string {
		if out != all {
			return fmt.Sprintf("lists %q, want %q", out, all)
		}
		return ""
	})
	s.Raw("exit")
	var vals []string
	for _, e := range m.ents {
		vals = append(vals, e.keys["k1"])
	}
	t.Set("vals", vals)
	t0 := nowNano()
	res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: []string{"--no-sync"}}).Run(t)
	res.MustOK(t, "session of queries")
	m.runChecks(res.Segments(t, s))
	_, db := openView(t, f, "", "pw")
	m.verify(g.log, db, t0, nowNano())
	t.Count("queries_acting", acted)
	t.Count("queries_ambiguous", ambiguous)
	t.Eval(fmt.Sprint(names, t.notes))
}

// ---- C18 sessions ----

func c18session(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 1e9)
	for i := 1 + r.Intn(4); i > 0; i-- {
		u := g.add(fmt.Sprintf("entry%d", i))
		if r.Intn(3) == 0 {
			g.set(u, "labels", pick(r, "a,b,a", "work", "b,b", "a,work,wörk"))
		}
	}
	craft(t, f, "pw", g.log)
	s := NewSession("pw")
	m := newSim(t, s, g.log)
	for i := 0; i < 14; i++ {
		switch r.Intn(4) {
		case 0, 1:
			m.opLabel()
		case 2:
			m.opRmlabel()
		default:
			var want []string
			for j := 1 + r.Intn(3); j > 0; j-- {
				want = append(want, pick(r, "a", "b", "work", "wörk", "zz"))
			}
			var hits []string
			for _, n := range m.names() {
				ls := strings.Split(m.ents[n].keys["labels"], ",")
				all := true
				for _, w := range want {
					f := false
					for _, l := range ls {
						f = f || l == w
					}
					all = all && f
				}
				if all {
					hits = append(hits, n)
				}
			}
			i := m.cmd("labels", "labels "+strings.Join(want, " "))
			names := m.names()
			m.expect(i, fmt.Sprintf("labels %v", want), func(out string) string {
				var got []string
				for _, l := range strings.Split(out, "\n") {
					for _, n := range names {
						if l == n {
							got = append(got, l)
						}
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(hits) {
					return fmt.Sprintf("lists %q, want %q", got, hits)
				}
				return ""
			})
		}
	}
	s.Raw("exit")
	t0 := nowNano()
	res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: []string{"--no-sync"}}).Run(t)
	res.MustOK(t, "session of label commands")
	m.runChecks(res.Segments(t, s))
	_, db := openView(t, f, "", "pw")
	m.verify(g.log, db, t0, nowNano())
	t.Eval(fmt.Sprint(t.notes))
	t.Sample(t.notes)
}
