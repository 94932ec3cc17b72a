package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// ---- C32 ----

// node is what one path of a tree is.
type node struct {
	mode     os.FileMode
	uid, gid uint32
	data     string // contents or link target
}

func (n node) String() string {
	d := n.data
	if len(d) > 60 {
		d = fmt.Sprintf("%d bytes, %x...", len(d), d[:24])
	}
	return fmt.Sprintf("%v %d:%d %q", n.mode, n.uid, n.gid, d)
}

// tree looks at everything below a folder without following links.
func tree(dir string) map[string]node {
	m := map[string]node{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		n := node{mode: fi.Mode()}
		if st, ok := fi.Sys().(*syscall.Stat_t); ok {
			n.uid, n.gid = st.Uid, st.Gid
		}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			n.data, _ = os.Readlink(p)
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			n.data = string(b)
		}
		m[p] = n
		return nil
	})
	return m
}

// treeDiff describes how the tree changed apart from the contents of some paths ("" if not).
func treeDiff(a, b map[string]node, except map[string]bool) string {
	var d []string
	for p, n := range a {
		m, ok := b[p]
		if !ok {
			d = append(d, fmt.Sprintf("%s (%v) is gone", p, n))
			continue
		}
		if except[p] {
			m.data = n.data
		}
		if m != n {
			d = append(d, fmt.Sprintf("%s was %v, is %v", p, n, m))
		}
	}
	for p, n := range b {
		if _, ok := a[p]; !ok && !except[p] {
			d = append(d, fmt.Sprintf("%s (%v) was made", p, n))
		}
	}
	sort.Strings(d)
	return strings.Join(d, "\n")
}

// where is one place a database can be at.
type where struct {
	spell string // as the program is told
	real  string // the regular file behind it, as an absolute path
	pass  string
	log   []mTx // nil: no file there
	multi bool
	dir   bool // a folder is there
	lost  bool // its folder does not exist
}

type c32world struct {
	root, cwd string
	places    int
	fresh     int
}

func (w *c32world) name(t *T) string {
	w.places++
	n := pick(t.R, "db", "pass words", "пароли", ".hidden", "a.b", "ünï", "x'y", "p%20q", "UPPER", "$HOME", "~", "-", "d;b", "ﬁle") // any name
	return fmt.Sprintf("%s%d", n, w.places)
}

// spell writes a path in one of the ways that lead there from the working directory.
func (w *c32world) spell(t *T, p string) string {
	if t.R.Intn(2) == 0 {
		return p
	}
	rel, err := filepath.Rel(w.cwd, p)
	if err != nil || strings.HasPrefix(rel, "-") {
		return p
	}
	switch t.R.Intn(5) {
	case 4: // .. after a link leaves the folder behind the link
		return w.around(t, w.cwd, p)
	case 0:
		if !strings.HasPrefix(rel, "..") {
			return "./" + rel
		}
	case 1:
		return "../" + filepath.Base(w.cwd) + "/" + rel
	case 2:
		return ".//./" + rel
	}
	return rel
}

// around writes p, seen from a folder, through a link to a folder next to it.
func (w *c32world) around(t *T, from, p string) string {
	w.places++
	beside := filepath.Join(filepath.Dir(p), fmt.Sprintf("beside%d", w.places))
	if os.Mkdir(beside, 0700) != nil {
		return p
	}
	l := fmt.Sprintf("ln%d", w.places)
	if os.Symlink(beside, filepath.Join(from, l)) != nil {
		return p
	}
	t.Count("around_links", 1)
	return l + "/../" + filepath.Base(p)
}

// put makes a place below dir, in one of many forms.
func (w *c32world) put(t *T, p string, plain bool) *where {
	r := t.R
	pl := &where{real: p, pass: fmt.Sprintf("pass%d%s", w.places, genWord(r, 5))}
	link := p
	if !plain && r.Intn(3) == 0 { // through links
		for i := 1 + r.Intn(3); i > 0; i-- {
			to := filepath.Join(filepath.Dir(pl.real), w.name(t))
			switch r.Intn(4) {
			case 0:
				sub := filepath.Join(w.root, fmt.Sprintf("real%d", w.places))
				os.MkdirAll(sub, 0700)
				to = filepath.Join(sub, w.name(t))
			case 1: // a folder that is a link itself
				sub := filepath.Join(w.root, fmt.Sprintf("deep%d", w.places), "er")
				os.MkdirAll(sub, 0700)
				ls := filepath.Join(w.root, fmt.Sprintf("short%d", w.places))
				os.Symlink(sub, ls)
				n := w.name(t)
				to = filepath.Join(sub, n)
				if r.Intn(2) == 0 {
					os.Symlink(filepath.Join(ls, n), pl.real)
					pl.real = to
					continue
				}
			}
			target := to
			if r.Intn(2) == 0 {
				target, _ = filepath.Rel(filepath.Dir(pl.real), to)
				if r.Intn(4) == 0 {
					target = w.around(t, filepath.Dir(pl.real), to)
				}
			}
			os.Symlink(target, pl.real)
			pl.real = to
		}
	}
	pl.spell = w.spell(t, link)
	k := r.Intn(8)
	if plain && k >= 6 {
		k = r.Intn(6)
	}
	switch {
	case k < 4:
		g := newLogGen(r, 1571887976e9, 1000)
		for i := r.Intn(5); i >= 0; i-- {
			g.op(false)
		}
		pl.log = g.log
		if pl.log == nil {
			pl.log = []mTx{}
		}
		if r.Intn(4) == 0 {
			pl.multi = true
			m := newMulti(t, []fUserCred{{Name: "ann", Pass: pl.pass}, {Name: "bob", Pass: "bb"}}, 1571887970e9)
			pl.log = append(append([]mTx{}, m.log...), pl.log...)
			m.write(pl.real, pl.log)
		} else {
			craft(t, pl.real, pl.pass, pl.log)
		}
		os.Chmod(pl.real, []os.FileMode{0600, 0600, 0640, 0660, 0644, 0664, 0666, 0700}[r.Intn(8)])
		if os.Getuid() == 0 && r.Intn(2) == 0 {
			u, gr := 0, 0
			if r.Intn(2) == 0 {
				u = 1000 + r.Intn(50000)
			}
			if r.Intn(3) > 0 {
				gr = 1000 + r.Intn(50000)
			}
			if os.Chown(pl.real, u, gr) == nil {
				t.Count("foreign_owner", 1)
			}
		}
		t.Count("places_existing", 1)
	case k < 6:
		t.Count("places_absent", 1)
	case k == 6:
		pl.dir = true
		os.MkdirAll(pl.real, 0700)
		t.Count("places_folder", 1)
	default:
		if link != pl.real {
			t.Count("places_absent", 1)
			break
		}
		pl.lost = true
		pl.spell = w.spell(t, filepath.Join(p, "none"))
		t.Count("places_lost", 1)
	}
	return pl
}

func c32case(t *T) {
	r := t.R
	dir := t.Scratch()
	w := &c32world{root: dir + "/w"}
	home := w.root + "/home"
	for _, d := range []string{home, w.root + "/tmp", w.root + "/at/cwd/sub", w.root + "/else where"} {
		os.MkdirAll(d, 0700)
	}
	w.cwd = w.root + pick(r, "/at/cwd", "/at/cwd", "/home", "/else where", "/at")
	var env, wrap, args []string
	umask := pick(r, "000", "022", "027", "077", "002")
	// the three ways to name a file, strongest first, each with a bystander that must stay as it is
	hasHome := r.Intn(8) > 0
	var target *where
	var all []*where
	defPath := home + "/.bpass"
	if !hasHome {
		defPath = w.cwd + "/.bpass"
	}
	def := w.put(t, defPath, r.Intn(2) == 0)
	def.spell, def.lost = defPath, false
	all = append(all, def)
	target = def
	how := "default"
	if hasHome {
		env = append(env, "HOME="+home)
	} else if r.Intn(2) == 0 {
		env = append(env, "HOME=")
		how = "nohome"
	} else {
		wrap = []string{"/usr/bin/env", "-u", "HOME"}
		how = "nohome"
	}
	places := []string{w.cwd, w.cwd, w.root + "/at/cwd/sub", w.root + "/else where", w.root}
	some := func() *where { return w.put(t, filepath.Join(places[r.Intn(len(places))], w.name(t)), false) }
	// decoys: same base name elsewhere
	switch r.Intn(4) {
	case 0:
		env = append(env, "BPASS=")
	case 1, 2:
		b := some()
		all = append(all, b)
		env = append(env, "BPASS="+b.spell)
		target, how = b, "env"
	}
	file := ""
	if r.Intn(2) == 0 {
		f := def
		if k := r.Intn(5); k > 0 || def.lost {
			f = some()
			all = append(all, f)
			if how == "env" && k == 1 {
				f = target // the same file twice
			}
		} else if !def.dir { // the default, said explicitly
			f.spell = w.spell(t, defPath)
			if r.Intn(2) == 0 {
				f.spell = defPath
			}
		}
		file = f.spell
		target, how = f, how+"+flag"
		switch r.Intn(4) {
		case 0:
			args = append(args, "-f", file)
		case 1:
			args = append(args, "--file", file)
		case 2:
			args = append(args, "-f="+file)
		default:
			args = append(args, "--file="+file)
		}
	}
	for _, d := range all { // decoys with the same name in other folders
		if p := filepath.Join(w.root+"/at/cwd/sub", filepath.Base(d.spell)); r.Intn(3) == 0 {
			if _, err := os.Lstat(p); err != nil && !isPlace(all, p) {
				os.WriteFile(p, []byte("decoy"), 0600)
			}
		}
	}
	// a remote with its own owner and mode
	var remote *where
	if target.log != nil && !target.multi && r.Intn(3) == 0 {
		p := filepath.Join(w.root, "else where", w.name(t))
		remote = w.put(t, p, false)
		if remote.dir || remote.lost || remote.multi || strings.ContainsAny(p, "%?#;") {
			remote = nil
		} else {
			g := newLogGen(r, 1571887999e9, 1000)
			g.log = append(g.log, target.log...)
			u := g.add("zz/remote")
			g.set(u, "url", "file://"+p)
			g.set(u, "sync", "true")
			if remote.log != nil { // an ancestor
				fi, _ := os.Stat(remote.real)
				st := fi.Sys().(*syscall.Stat_t)
				craft(t, remote.real, target.pass, target.log)
				os.Chown(remote.real, int(st.Uid), int(st.Gid))
				os.Chmod(remote.real, fi.Mode().Perm())
			}
			target.log = g.log
			fi, _ := os.Stat(target.real)
			st := fi.Sys().(*syscall.Stat_t)
			craft(t, target.real, target.pass, target.log)
			os.Chown(target.real, int(st.Uid), int(st.Gid))
			os.Chmod(target.real, fi.Mode().Perm())
			t.Count("remotes", 1)
		}
	}
	csv := filepath.Join(w.cwd, fmt.Sprintf("out%d.csv", w.places))
	csvSpell := w.spell(t, csv)
	before := tree(w.root)
	ok := !target.dir && !target.lost
	var login []string
	isNew := target.log == nil
	switch {
	case isNew:
		login = []string{target.pass, target.pass}
	case target.multi:
		login = []string{"ann", target.pass}
	default:
		login = []string{target.pass}
	}
	sess := &Sess{Dir: dir, Cwd: w.cwd, Umask: umask, Env: append(env, "TMPDIR="+w.root+"/tmp"), Wrap: wrap, Args: args}
	if remote == nil {
		sess.Args = append([]string{"--no-sync"}, sess.Args...)
	}
	if r.Intn(3) == 0 && len(sess.Args) > 1 { // other order
		if sess.Args[0] == "--no-sync" {
			sess.Args = append(append([]string{}, sess.Args[1:]...), "--no-sync")
		}
	}
	act := pick(r, "edit", "edit", "edit", "edit", "look", "import", "export", "mismatch", "empty", "wrongpass", "interrupt", "time", "badtime", "version", "help", "gen")
	in := strings.Join(login, "\n") + "\n"
	except := map[string]bool{}
	wantCode := 0
	changes := false

	switch act {
	case "edit":
		in += "note zz\nadd zz/new\nme@x\nme\nm\nsecret\nsecret\n" + pick(r, "exit\n", "", "\x04")
		changes = true
	case "look":
		in += "ls\nshow x\n"
		changes = true
	case "import":
		sess.Sub = []string{"lpassimport"}
		sess.Lpass = []byte("url,username,password,extra,name,grouping,fav\nhttp://x,u,p,,zz/new,,0\n")
		if !isNew {
			in += "y\n"
		}
		changes = true
	case "export":
		sess.Sub = []string{"export", csvSpell}
		except[csv] = true
		changes = true
	case "mismatch":
		if !isNew {
			act = "wrongpass"
		}
		in = target.pass + "\n" + target.pass + pick(r, "x", " ", "\\", "A") + "\n"
		if !isNew {
			in = strings.Join(login, "\n") + "x\n"
		}
		wantCode = 1
	case "empty":
		in = strings.TrimSuffix(strings.Join(login[:len(login)-1], "\n")+"\n\n\n", "")
		if !target.multi && !isNew {
			in = "\n\n"
		}
		if isNew {
			in = "\n\n"
		}
		wantCode = 1
	case "wrongpass":
		o := all[r.Intn(len(all))]
		if isNew || o == target || o.pass == target.pass {
			in = "other\n"
			if isNew {
				in = "other\nanother\n"
			}
		} else if target.multi {
			in = "ann\n" + o.pass + "\n"
		} else {
			in = o.pass + "\n" // opens another file, not this one
		}
		wantCode = 1
	case "interrupt":
		in += "add zz/new\nme@x\nme\nm\nsecret\nsecret\n\x03\n"
		wantCode = 1
	case "time":
		sess.Args = append(sess.Args, "-t", "2019-10-24 03:32:57")
		in += "ls\nadd zz/new\n"
		if isNew {
			in += "a\nb\nm\nc\nc\n"
		}
	case "badtime":
		sess.Args = append(sess.Args, "-t", pick(r, "2019-10-24", "yesterday", "2019-13-24 03:32:57", "2019-10-24 3:32:57pm", "2019-10-24 03:32:57 "))
		wantCode = 1
	case "version":
		sess.Sub = []string{"version"}
		ok = true
	case "help":
		sess.Args = append(sess.Args, pick(r, "-h", "--help"))
		ok = true
	case "gen":
		sess.Sub = []string{"gen"}
		in = "y\n"
		ok = true
	}
	sess.Input = in
	desc := fmt.Sprintf("%s, file given by %s (%q), cwd %s", act, how, target.spell, w.cwd)
	if act == "badtime" || act == "version" || act == "help" || act == "gen" {
		changes = false
	} else if !ok {
		wantCode = 1
		changes = false
	}
	synced := remote != nil && (act == "edit" || act == "look") && ok
	if act == "interrupt" && remote != nil {
		synced = true // the automatic sync at the start has been
	}
	t.Note("%s", desc)
	t.Note("args %q sub %q env %q umask %s", sess.Args, sess.Sub, sess.Env, umask)
	t.Note("input %q", in)
	for _, p := range all {
		t.Note("place %+v", *p)
	}
	res := sess.Run(t)
	after := tree(w.root)
	if c := res.Crashed(); c != "" {
		t.Fail("%s: the program crashed: %s", desc, c)
	}
	if act == "time" && isNew { // nothing to look at: may be refused
		wantCode = res.Code
	}
	if wantCode == 0 && res.Code != 0 {
		t.Fail("%s: exit status %d\noutput: %s%s", desc, res.Code, tail(res.Out, 1200), tail(res.Err, 300))
	}
	if wantCode != 0 && res.Code == 0 {
		t.Fail("%s: exit status 0, but it cannot have worked\noutput: %s", desc, tail(res.Out, 1200))
	}
	if changes {
		except[target.real] = true
	}
	if synced {
		except[remote.real] = true
	}
	if d := treeDiff(before, after, except); d != "" {
		t.Fail("%s: more changed than the contents of the right file:\n%s\noutput: %s", desc, d, tail(res.Out, 800))
	}
	if changes {
		user := ""
		if target.multi {
			user = "ann"
		}
		n, has := after[target.real]
		if !has {
			t.Fail("%s: no file at %s after a session that ended well\noutput: %s", desc, target.real, tail(res.Out, 800))
		}
		if isNew && n.mode != 0600 {
			t.Fail("%s: the new file's mode is %v with umask %s, want only its owner to have access", desc, n.mode, umask)
		}
		db, _ := openDB(t, target.real, user, target.pass)
		if len(db.Log) < len(target.log) || !logsEqual(db.Log[:len(target.log)], target.log) {
			t.Fail("%s: the history at %s is not continued", desc, target.real)
		}
		v, err := mReplay(db.Log)
		if err != nil {
			t.Fail("%s: %v", desc, err)
		}
		_, hasNew := v.byName()["zz/new"]
		if want := act == "edit" || act == "import"; hasNew != want {
			t.Fail("%s: new entry in the right file: %v, want %v\noutput: %s", desc, hasNew, want, tail(res.Out, 1200))
		}
		if !hasNew && len(db.Log) != len(target.log) {
			t.Fail("%s: the history grew without a change", desc)
		}
	}
	if synced {
		if n := after[remote.real]; remote.log == nil && n.mode != 0600 {
			t.Fail("%s: the new remote's mode is %v with umask %s", desc, n.mode, umask)
		}
		rdb, _ := openDB(t, remote.real, "", target.pass)
		want := target.log
		if changes {
			tdb, _ := openDB(t, target.real, "", target.pass)
			want = tdb.Log
		}
		if !logsEqual(rdb.Log, want) {
			t.Fail("%s: the remote does not hold the history", desc)
		}
	}
	if act == "export" && ok {
		b, err := os.ReadFile(csv)
		if err != nil || len(b) == 0 {
			t.Fail("%s: no export at %s (%v)", desc, csv, err)
		}
	}
	t.Count("act_"+act, 1)
	t.Count("by_"+how, 1)
	if target.real != filepath.Join(w.cwd, target.spell) && target.real != target.spell {
		t.Count("indirect_targets", 1)
	}
	t.Count("paths_compared", len(after))
	t.Eval(fmt.Sprintf("%s|%s|%v|%v|%s", act, how, target.spell, isNew, in))
	if t.Case < 2 {
		t.Sample(map[string]interface{}{"what": desc, "args": sess.Args, "env": sess.Env, "output": tail(res.Out, 300)})
	}
}

func isPlace(all []*where, p string) bool {
	for _, a := range all {
		if a.real == p || strings.HasPrefix(a.real, p+"/") || strings.HasSuffix(p, "/"+filepath.Base(a.spell)) && filepath.Join(p) == a.real {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C32",
		Rule:        "A session, import, export, read-only session, generator, help, version, or one of several ways to fail, started with any combination of -f, $BPASS and home folder (with and without existing files, folders, missing folders, absolute, relative and odd spellings, links to files, folders and nothing, other owners, groups, modes and umasks); a complete picture of the folder tree before and after must differ only in the contents of the right file (and its remote), which must hold the continued history. Non-trivial: every session; distinct by action, way of naming, spelling and input.",
		Assumptions: []string{"scrypt is replaced by a fast keyed hash in these sessions", "hard links, access control lists and extended attributes are not looked at"},
		Run: func(c *Ctx) {
			c.Cases("files", c.N(1500, 30000), c32case)
		}})
}
