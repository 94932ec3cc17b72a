package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unicode/utf8"
)

// ---- C23 ----

func editValue(t *T, long bool) []byte {
	r := t.R
	switch r.Intn(9) {
	case 0:
		return nil
	case 1:
		return []byte(pick(r, "\n", " ", "x\n", "\r\n", "\x00", "a\x00b", "\ufeffx", "%s", "x\n\n\n", "\t\x1b[31m", "\xef\xbf\xbd", "{\"a\":1}", "</script>", "\u2028"))
	case 2:
		return []byte(strings.Repeat(genText(r, 10)+"\n", 1+r.Intn(40)))
	case 3:
		if long && r.Intn(6) == 0 {
			t.Count("huge", 1)
			return []byte(strings.Repeat(genText(r, 40)+"z\n", 60000+r.Intn(60000)))
		}
		if long {
			return []byte(strings.Repeat(genText(r, 40)+"z", 1+r.Intn(9000)))
		}
	}
	return []byte(genText(r, 30))
}

// wiped says what is wrong with what is left in an inode that held content.
func wiped(left, content []byte) string {
	if len(left) < len(content) {
		return fmt.Sprintf("only %d of its %d bytes were overwritten, it was cut short", len(left), len(content))
	}
	nz, eq := 0, 0
	for i, b := range left {
		if b != 0 {
			nz++
		}
		if i < len(content) && content[i] != 0 && content[i] == b {
			eq++
		}
	}
	switch {
	case nz == 0:
		return ""
	case nz < len(left)/2 && eq > 0:
		return fmt.Sprintf("%d of its %d bytes were not overwritten", eq, len(content))
	case eq > len(content)/4+2:
		return fmt.Sprintf("%d of its %d bytes were not overwritten", eq, len(content))
	}
	return ""
}

func c23case(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	long := r.Intn(6) == 0
	g := newLogGen(r, 1571887976e9, 5e12)
	var us []string
	for i := 0; i < 1+r.Intn(4); i++ {
		u := g.add(fmt.Sprintf("e%d", i))
		us = append(us, u)
		for j := r.Intn(4); j > 0; j-- {
			v := editValue(t, long)
			if utf8.Valid(v) && len(v) > 0 {
				g.set(u, pick(r, "notes", "user", "url", "k", "Ü", "pass", "email"), string(v))
			}
		}
	}
	craft(t, f, "pw", g.log)
	before := g.view()
	model := before.clone()
	type want struct {
		u, k    string
		content string
		a       EditAction
	}
	var wants []want
	var acts []EditAction
	s := NewSession("pw")
	noEditor := r.Intn(12) == 0
	env := []string{}
	why := ""
	if noEditor {
		why = pick(r, "missing", "folder", "unset", "no tmp")
		switch why {
		case "missing":
			env = append(env, "EDITOR=/no/such/editor")
		case "folder":
			env = append(env, "EDITOR="+dir)
		case "unset":
			env = append(env, "EDITOR=")
		case "no tmp":
			env = append(env, "TMPDIR="+dir+"/nothing/here")
		}
	}
	var notes []string
	for i := 1 + r.Intn(5); i > 0; i-- {
		u := us[r.Intn(len(us))]
		k := pick(r, "notes", "notes", "user", "url", "k", "Ü", "pass", "email", "fresh")
		old := model[u][k]
		a := EditAction{}
		kind := r.Intn(10)
		a.Write = editValue(t, long)
		switch kind {
		case 0:
			a.NoWrite = true
		case 1:
			a.Write = append([]byte(old), a.Write...) // longer
		case 2:
			if len(old) > 0 {
				a.Write = []byte(old)[:r.Intn(len(old))] // shorter, perhaps not UTF-8
			}
		case 3:
			a.Write = append(a.Write, pick(r, "\xff", "\xc3", "Gr\xfc\xdfe", "\xed\xa0\x80", "\xf4\x90\x80\x80")...)
			t.Count("not_utf8", 1)
		}
		if !a.NoWrite && r.Intn(5) == 0 {
			a.Replace = true
		}
		switch r.Intn(8) {
		case 0:
			a.Exit = 1 + r.Intn(255)
		case 1:
			a.Kill = true
		case 2:
			if r.Intn(2) == 0 {
				a = EditAction{Remove: true}
				if r.Intn(2) == 0 {
					a.Exit = 1
				}
			}
		}
		if r.Intn(2) == 0 {
			s.Cmd(fmt.Sprintf("edit %s %s", model[u]["name"], k))
		} else {
			s.Cmd("cd " + model[u]["name"])
			s.Cmd("edit " + k)
			s.Cmd("cd")
		}
		notes = append(notes, fmt.Sprintf("edit %s %s (%d bytes): %d bytes, nowrite %v, replace %v, remove %v, exit %d, kill %v",
			model[u]["name"], k, len(old), len(a.Write), a.NoWrite, a.Replace, a.Remove, a.Exit, a.Kill))
		if noEditor {
			continue
		}
		acts = append(acts, a)
		wants = append(wants, want{u, k, old, a})
		if a.Exit != 0 || a.Kill || a.Remove || a.NoWrite {
			continue
		}
		if !utf8.Valid(a.Write) {
			continue
		}
		if len(a.Write) == 0 {
			delete(model[u], k)
		} else {
			model[u][k] = string(a.Write)
		}
	}
	for _, n := range notes {
		t.Note("%s", n)
	}
	se := &Sess{Dir: dir, File: f, Edits: acts, Env: env, Input: s.String()}
	if r.Intn(3) == 0 {
		se.Wrap = []string{"/bin/sh", "-c", "umask " + pick(r, "0", "022", "0777") + "; exec \"$@\"", "sh"}
	}
	res := se.Run(t)
	res.MustOK(t, "session of edits "+why)
	res.Segments(t, s)
	t.Set("output", tail(res.Out, 2000))
	n := 0
	for _, e := range res.Events {
		if e.Prog != "vedit" {
			continue
		}
		if n >= len(wants) {
			t.Fail("the editor ran more often than asked (%d)", len(wants))
		}
		w := wants[n]
		if string(e.Content) != w.content {
			t.Fail("edit %d (%s): the editor was given %q, the stored value is %q", n, w.k, tail(string(e.Content), 300), tail(w.content, 300))
		}
		if e.Mode&0077 != 0 {
			t.Fail("edit %d: the file has mode %o", n, e.Mode)
		}
		if len(e.Args) != 1 {
			t.Fail("edit %d: the editor was run with %q", n, e.Args)
		}
		if !strings.HasPrefix(e.Path, dir+"/tmp/") {
			t.Fail("edit %d: the file %q is not in the folder for temporary files", n, e.Path)
		}
		if _, err := os.Lstat(e.Path); err == nil {
			t.Fail("edit %d: the temporary file is still there", n)
		}
		n++
	}
	if n != len(wants) {
		t.Fail("the editor ran %d times instead of %d", n, len(wants))
	}
	left, _ := os.ReadDir(dir + "/tmp")
	for _, l := range left {
		t.Fail("%q is left in the folder for temporary files", l.Name())
	}
	for i, w := range wants {
		link := func(k int) ([]byte, bool) {
			m, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("run*.keep%d.%d", i, k)))
			if len(m) == 0 {
				return nil, false
			}
			return mustRead(t, m[0]), true
		}
		last := []byte(w.content)
		if !w.a.NoWrite && !w.a.Remove {
			last = w.a.Write
		}
		if w.a.Remove { // it was the editor that removed it
			continue
		}
		which := 0
		if w.a.Replace {
			which = 1
		}
		b, ok := link(which)
		if !ok {
			panic(inconclusive("the harness's link to the edited file is missing"))
		}
		if e := wiped(b, last); e != "" {
			t.Fail("edit %d (%s): the temporary file was not overwritten before it was removed: %s", i, notes[i], e)
		}
		if which == 0 && len(b) < len(w.content) && !w.a.NoWrite && len(w.a.Write) < len(w.content) {
			// an editor that shortens the file has let go of the rest itself
			t.Count("shortened", 1)
		}
		t.Count("wiped_bytes", len(last))
	}
	after, db := openView(t, f, "", "pw")
	if len(db.Log) < len(g.log) || !logsEqual(db.Log[:len(g.log)], g.log) {
		t.Fail("the records that were there changed")
	}
	touched := map[string]bool{}
	for _, tx := range db.Log[len(g.log):] {
		touched[tx.UUID] = true
	}
	for u := range before {
		want, got := model[u], after[u]
		if got == nil {
			t.Fail("the entry %s is gone", want["name"])
		}
		if mapsEqual(before[u], model[u]) && !mapsEqual(before[u], got) && noEditor {
			t.Fail("an edit that failed (%s) changed %q to %q", why, before[u], got)
		}
		ks := map[string]bool{}
		for k := range want {
			ks[k] = true
		}
		for k := range got {
			ks[k] = true
		}
		var all []string
		for k := range ks {
			all = append(all, k)
		}
		sort.Strings(all)
		for _, k := range all {
			if k == "updated" {
				continue
			}
			wv, wok := want[k]
			gv, gok := got[k]
			if wok != gok || wv != gv {
				t.Fail("%s of %s is %q (there: %v), want %q (%v)\n%s", k, want["name"], tail(gv, 400), gok, tail(wv, 400), wok, strings.Join(notes, "\n"))
			}
		}
		changed := touched[u]
		if !changed && got["updated"] != before[u]["updated"] {
			t.Fail("an untouched entry is marked as updated")
		}
	}
	if len(after) != len(before) {
		t.Fail("%d entries became %d", len(before), len(after))
	}
	if len(wants) == 0 {
		t.Count("no_editor", 1)
	}
	t.Count("edits", len(wants))
	t.Eval(strings.Join(notes, ";") + why)
}

// c23full: a folder for temporary files that cannot hold the value.
func c23full(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 5e12)
	u := g.add("e")
	val := genWord(r, 5) + strings.Repeat(fmt.Sprintf("%d ", r.Intn(1000)), 3000+r.Intn(3000))
	g.set(u, "notes", val)
	craft(t, f, "pw", g.log)
	s := NewSession("pw")
	s.Cmd("edit e notes")
	res := (&Sess{Dir: dir, File: f, Input: s.String(), FSize: 1 + r.Intn(8), Edits: []EditAction{{Write: []byte("changed")}}}).Run(t)
	if c := res.Crashed(); c != "" {
		t.Fail("crash: %s", c)
	}
	// the limit holds for the stand-in's own log as well, its link tells that it ran
	if m, _ := filepath.Glob(dir + "/run*.keep*"); len(m) > 0 {
		t.Fail("the editor was given a part of a value of %d bytes, the rest did not fit\noutput: %s", len(val), tail(res.Out, 500))
	}
	left, _ := os.ReadDir(dir + "/tmp")
	if len(left) > 0 {
		t.Fail("%q is left in the folder for temporary files", left[0].Name())
	}
	v, _ := openView(t, f, "", "pw")
	if v[u]["notes"] != val {
		t.Fail("the value changed")
	}
	t.Count("full", 1)
	t.Eval(fmt.Sprint(len(val)))
}

// c23signalled: a signal reaches the program while the editor runs, as ctrl-c or a closed terminal sends one.
func c23signalled(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 5e12)
	u := g.add("e")
	old, val := "", "new "+genWord(r, 5)+strings.Repeat("x", r.Intn(3000))
	if r.Intn(5) > 0 {
		old = "old " + genWord(r, 5) + strings.Repeat("y", r.Intn(3000))
		g.set(u, "notes", old)
	}
	craft(t, f, "pw", g.log)
	before := mustRead(t, f)
	sig := []syscall.Signal{syscall.SIGINT, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGHUP, syscall.SIGTERM}[r.Intn(5)]
	a := EditAction{Write: []byte(val), Signal: int(sig)}
	switch r.Intn(4) {
	case 0:
		a.Exit = 1
	case 1:
		a.Kill = true
	}
	s := NewSession("pw")
	s.Cmd("set e k before")
	s.Cmd("edit e notes")
	s.Cmd("set e k2 after")
	t.Note("%v, exit %d, kill %v", sig, a.Exit, a.Kill)
	res := (&Sess{Dir: dir, File: f, Edits: []EditAction{a}, Input: s.String()}).Run(t)
	t.Set("output", tail(res.Out, 800))
	left, _ := os.ReadDir(dir + "/tmp")
	for _, l := range left {
		t.Fail("%v while the editor ran: %q is left in the folder for temporary files", sig, l.Name())
	}
	m, _ := filepath.Glob(filepath.Join(dir, "run*.keep0.0"))
	if len(m) == 0 {
		panic(inconclusive("the editor did not run"))
	}
	if e := wiped(mustRead(t, m[0]), []byte(val)); e != "" {
		t.Fail("%v while the editor ran: the temporary file was not overwritten: %s", sig, e)
	}
	if sig == syscall.SIGINT || sig == syscall.SIGQUIT {
		// it was for the editor
		res.MustOK(t, "session with an interrupted editor")
		v, _ := openView(t, f, "", "pw")
		want := val
		if a.Exit != 0 || a.Kill {
			want = old
		}
		if v[u]["notes"] != want || v[u]["k"] != "before" || v[u]["k2"] != "after" {
			t.Fail("%v while the editor ran: the entry is %q, want notes %q", sig, v[u], tail(want, 200))
		}
	} else if v, _ := openView(t, f, "", "pw"); v[u]["k"] == "" && !bytes.Equal(mustRead(t, f), before) || v[u]["notes"] != old && v[u]["notes"] != val {
		t.Fail("%v while the editor ran: the entry is %q", sig, v[u])
	}
	t.Count("signalled_"+strings.ReplaceAll(sig.String(), " ", "_"), 1)
	t.Eval(fmt.Sprint(sig, a.Exit, a.Kill, t.Case))
}

var editors = map[string]bool{"vim": true, "code": true, "atom": true, "sublime": true, "emacs": true, "nano": true, "ed": true, "myed": true}

// c23which: the editor that is asked for runs, and one that is there when none is asked for.
func c23which(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	self, err := os.Executable()
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	bin := dir + "/ebin"
	os.MkdirAll(bin, 0755)
	var there []string
	known := map[string]bool{}
	for _, n := range []string{"vim", "code", "atom", "sublime", "emacs", "nano"} {
		switch r.Intn(4) {
		case 0:
			os.Symlink(self, bin+"/"+n)
			there = append(there, n)
			known[n] = true
		case 1: // something of that name that is no program
			if r.Intn(2) == 0 {
				os.Mkdir(bin+"/"+n, 0755)
			} else {
				os.WriteFile(bin+"/"+n, []byte("x"), 0644)
			}
		}
	}
	if len(there) == 0 && r.Intn(3) > 0 {
		n := pick(r, "vim", "code", "atom", "sublime", "emacs", "nano")
		os.RemoveAll(bin + "/" + n)
		os.Symlink(self, bin+"/"+n)
		there, known[n] = append(there, n), true
	}
	os.Symlink(self, bin+"/myed")
	editor := ""
	switch r.Intn(3) {
	case 0:
		editor = pick(r, "myed", bin+"/myed", "./ebin/myed")
		known = map[string]bool{"myed": true}
	case 1:
		if len(there) > 0 {
			editor = there[r.Intn(len(there))]
			known = map[string]bool{editor: true}
		}
	}
	g := newLogGen(r, 1571887976e9, 5e12)
	u := g.add("e")
	g.set(u, "notes", "old value")
	craft(t, f, "pw", g.log)
	s := NewSession("pw")
	s.Cmd("edit e notes")
	env := []string{"PATH=" + bin}
	if editor != "" || r.Intn(2) == 0 {
		env = append(env, "EDITOR="+editor)
	} else {
		env = append(env, "-EDITOR")
	}
	t.Note("editors there: %q, asked for: %q", there, editor)
	res := (&Sess{Dir: dir, File: f, Input: s.String(), Env: env, Edits: []EditAction{{Write: []byte("new value")}}}).Run(t)
	res.MustOK(t, "session with an edit")
	res.Segments(t, s)
	want, ran := "old value", ""
	for _, e := range res.Events {
		if editors[e.Prog] {
			if ran != "" {
				t.Fail("more than one editor ran: %s, %s", ran, e.Prog)
			}
			ran = e.Prog
			if string(e.Content) != "old value" {
				t.Fail("the editor %s was given %q", ran, e.Content)
			}
		}
	}
	if len(known) > 0 {
		want = "new value"
		if !known[ran] {
			t.Fail("asked for the editor %q with %q there, %q ran", editor, there, ran)
		}
	} else if ran != "" {
		t.Fail("an editor ran that is not there: %q", ran)
	}
	v, _ := openView(t, f, "", "pw")
	if v[u]["notes"] != want {
		t.Fail("with editor %q the value became %q, want %q", ran, v[u]["notes"], want)
	}
	if left, _ := os.ReadDir(dir + "/tmp"); len(left) > 0 {
		t.Fail("%q is left in the folder for temporary files", left[0].Name())
	}
	t.Count("editors_chosen", 1)
	t.Eval(fmt.Sprint(there, editor))
	t.Sample(t.notes)
}

func init() {
	for n := range editors {
		progs[n] = standEditor
	}
	register(&Check{ID: "C23",
		Rule:        "what a stand-in editor is given and leaves, the content of the temporary file's inode after its removal (kept by a hard link), and the stored values compared with a model of the edits",
		Assumptions: []string{"an editor that replaces the file is itself responsible for the file it replaced", "bytes that an editor cuts off the file are its own to wipe"},
		Run: func(c *Ctx) {
			c.Cases("edits", c.N(1500, 25000), c23case)
			c.Cases("full", c.N(60, 600), c23full)
			c.Cases("signalled", c.N(160, 1600), c23signalled)
			c.Cases("which", c.N(160, 1600), c23which)
		}})
}
