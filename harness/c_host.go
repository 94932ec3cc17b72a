package main

import (
	"bytes"
	"fmt"
	"net"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/crypto/ssh"
)

// ---- C20 ----

type hostWorld struct {
	t      *T
	dir, f string
	srv    *sshSrv
	fs     *memFS
	path   string
	uuid   string
	flip   int        // the key changes after so many connections have run a command
	flipTo ssh.Signer // to this one
	seenEx int
	mu     sync.Mutex
}

func (w *hostWorld) exec(s *sshSrv, cmd string, ch ssh.Channel, conn net.Conn) exit {
	e := w.fs.exec(s, cmd, ch, conn)
	w.mu.Lock()
	w.seenEx++
	flip := w.flip > 0 && w.seenEx == w.flip
	w.mu.Unlock()
	if flip {
		s.setKeys(w.flipTo)
		s.log("flip", "")
	}
	return e
}

func (w *hostWorld) entry() map[string]string {
	v, _ := openView(w.t, w.f, "", "pw")
	e := v[w.uuid]
	if e == nil {
		w.t.Fail("the sync entry is gone")
	}
	return e
}

// negotiated is the key a client that prefers ed25519 is shown.
func negotiated(keys []ssh.Signer) ssh.Signer {
	for _, k := range keys {
		if k.PublicKey().Type() == "ssh-ed25519" {
			return k
		}
	}
	return keys[0]
}

// pins are the remembered lines about a host.
func pinsFor(known, host string) (lines [][]string) {
	for _, l := range strings.Split(known, "\n") {
		f := strings.Split(l, " ")
		if f[0] == host {
			lines = append(lines, f)
		}
	}
	return lines
}

func fingerprints(out, hash string) int {
	n := 0
	var colon []string
	for i := 0; i+1 < len(hash); i += 2 {
		colon = append(colon, hash[i:i+2])
	}
	n += strings.Count(strings.ToLower(out), strings.Join(colon, ":"))
	n += strings.Count(strings.ToLower(out), hash)
	return n
}

func nearMiss(t *T, hash string) string {
	r := t.R
	flip := func(i int) string {
		b := []byte(hash)
		if b[i] == '0' {
			b[i] = '1'
		} else {
			b[i] = '0'
		}
		return string(b)
	}
	switch r.Intn(7) {
	case 0:
		return flip(0)
	case 1:
		return flip(len(hash) - 1)
	case 2:
		return flip(r.Intn(len(hash)))
	case 3:
		return hash[:len(hash)-1-r.Intn(10)]
	case 4:
		return hash + "0"
	case 5:
		return ""
	}
	return strings.Repeat("0", len(hash))
}

var warnWords = []string{"changed", "mitm", "malformed", "mismatch", "known host"}

func warned(out string) bool {
	o := strings.ToLower(out)
	for _, w := range warnWords {
		if strings.Contains(o, w) {
			return true
		}
	}
	return false
}

func c20case(t *T) {
	r := t.R
	w := &hostWorld{t: t, dir: t.Scratch()}
	w.f = w.dir + "/f"
	w.fs = &memFS{files: map[string]*memFile{}, seed: r.Int63()}
	eds := []ssh.Signer{hostKey("ed", 0), hostKey("ed", 1), hostKey("ed", 2)}
	rsas := []ssh.Signer{hostKey("rsa", 0), hostKey("rsa", 1)}
	genKeys := func() []ssh.Signer {
		switch r.Intn(5) {
		case 0:
			return []ssh.Signer{rsas[r.Intn(2)]}
		case 1:
			return []ssh.Signer{rsas[r.Intn(2)], eds[r.Intn(3)]}
		}
		return []ssh.Signer{eds[r.Intn(3)]}
	}
	w.srv = newSSH("joe", "s3cret pw", genKeys()...)
	w.srv.exec = w.exec
	defer w.srv.close()
	host := w.srv.addr()
	w.path = pick(r, "f.bp", "dir/f.bp", "/abs/f.bp")
	g := newLogGen(r, 1571887976e9, 1000)
	for i := r.Intn(6); i > 0; i-- {
		g.op(false)
	}
	w.uuid = g.add("sync/r")
	u := url.URL{Scheme: "scp", User: url.UserPassword("joe", "s3cret pw"), Host: host, Path: "/" + w.path}
	g.set(w.uuid, "url", u.String())
	g.set(w.uuid, "sync", "true")
	remoteLog := append([]mTx{}, g.log...)
	// what is known at first
	cur := negotiated(w.srv.keys)
	line := func(h, typ, hash string) string { return h + " 127.0.0.1:22 " + typ + " " + hash }
	known := ""
	switch r.Intn(9) {
	case 0, 1:
		known = line(host, cur.PublicKey().Type(), keyHash(cur))
	case 2:
		known = line(host, cur.PublicKey().Type(), nearMiss(t, keyHash(cur)))
	case 3:
		known = line(host, pick(r, "ssh-rsa", "ssh-ed25519", "ssh-ed2551", "", "ssh-dss"), keyHash(cur))
	case 4: // about other hosts
		known = line(pick(r, "other:22", host+"0", host[:len(host)-1], "127.0.0.1", "[::1]:22", "", "127.0.0.1:22"), cur.PublicKey().Type(), keyHash(cur))
	case 5:
		known = pick(r, host, host+" 127.0.0.1:22", host+" 127.0.0.1:22 "+cur.PublicKey().Type(), host+" ")
	}
	if known != "" && r.Intn(3) == 0 {
		known = line("elsewhere:22", "ssh-rsa", keyHash(rsas[0])) + "\n" + known
	}
	if known != "" {
		g.set(w.uuid, "knownhosts", known)
	}
	craft(t, w.f, "pw", g.log)
	if r.Intn(4) > 0 { // there is a file already, with an entry of its own
		u2 := uuidSeq(r)
		remoteLog = append(remoteLog, mTx{1571899999e9, "add", u2, "", ""}, mTx{1571899999e9 + 1, "setk", u2, "name", "zz/fromremote"})
		w.fs.files[w.path] = &memFile{fWriteSingle("pw", t.bytes(fSalt), t.bytes(fIV), (&mDB{Log: remoteLog}).encode()), "0600"}
	}
	t.Note("host %s, server has %s %s, known %q", host, cur.PublicKey().Type(), keyHash(cur), known)

	for round := 1 + r.Intn(4); round >= 0; round-- {
		if r.Intn(4) == 0 {
			w.srv.setKeys(genKeys()...)
		}
		cur := negotiated(w.srv.keys)
		typ, hash := cur.PublicKey().Type(), keyHash(cur)
		w.flip, w.seenEx = 0, 0
		if r.Intn(6) == 0 {
			w.flip = 1 + r.Intn(2)
			w.flipTo = eds[r.Intn(3)]
			if w.flipTo == cur {
				w.flip = 0
			}
		}
		before := w.entry()
		pins := pinsFor(before["knownhosts"], host)
		mode := pick(r, "auto", "auto", "auto", "sync", "named", "no-sync", "readonly")
		answer := pick(r, "y", "y", "y", "Y", "n", "", "N", "yes", "no", "yy", " y", "\x04", "EOF")
		accepts := answer == "y" || answer == "Y" || answer == " y"
		if answer == " y" { // whether a blank counts is not said
			answer, accepts = "n", false
		}
		edit := r.Intn(2) == 0
		s := &Sess{Dir: w.dir, File: w.f}
		in := []string{"pw"}
		ask := func() {
			if answer != "EOF" {
				in = append(in, answer)
			}
		}
		name := fmt.Sprintf("zz/e%d", round)
		addLines := []string{"add " + name, "", "u", "m", "p", "p"}
		canEdit := answer != "\x04" && answer != "EOF" && mode != "readonly"
		edit = edit && canEdit
		switch mode {
		case "auto":
			ask()
			if edit {
				in = append(in, addLines...)
			}
			if answer != "EOF" && answer != "\x04" {
				in = append(in, "exit", answer, answer)
			}
		case "sync", "named":
			s.Args = []string{"--no-sync"}
			if edit {
				in = append(in, addLines...)
			}
			if mode == "sync" {
				in = append(in, "sync")
			} else {
				in = append(in, "sync sync/r")
			}
			ask()
		case "no-sync":
			s.Args = []string{"--no-sync"}
			if edit {
				in = append(in, addLines...)
			}
		case "readonly":
			s.Args = []string{"-t", "2200-01-01 00:00:00"}
			in = append(in, "ls", "sync", answer)
		}
		s.Input = strings.Join(in, "\n") + "\n"
		stored := w.fs.files[w.path]
		w.srv.take()
		res := s.Run(t)
		evs := w.srv.take()
		what := fmt.Sprintf("%s, answer %q, server shows %s %s, known %q, flip %d", mode, answer, typ, hash, before["knownhosts"], w.flip)
		t.Note("%s", what)
		if c := res.Crashed(); c != "" {
			t.Fail("%s: crash: %s", what, c)
		}
		t.Set("events", evs)
		t.Set("output", tail(res.Out, 3000))
		n := map[string]int{}
		flipped := -1
		for i, e := range evs {
			n[e.What]++
			if e.What == "flip" {
				flipped = i
			}
			if e.What == "auth" && !strings.HasPrefix(e.Arg, "password joe s3cret pw") {
				t.Fail("%s: the server was offered %q", what, e.Arg)
			}
			if e.What == "exec" && !strings.HasSuffix(e.Arg, " "+w.path) {
				t.Fail("%s: the command %q is not about %q", what, e.Arg, w.path)
			}
		}
		after := w.entry()
		now := w.fs.files[w.path]
		unsent := func(from int, why string) {
			for _, e := range evs[from:] {
				switch e.What {
				case "auth", "handshake", "exec", "data", "stored", "sent":
					t.Fail("%s: %s, but the server got %s %q", what, why, e.What, e.Arg)
				}
			}
			if from == 0 && now != stored {
				t.Fail("%s: %s, but the file on the server changed", what, why)
			}
		}
		sameKnown := func(why string) {
			if after["knownhosts"] != before["knownhosts"] {
				t.Fail("%s: %s, but the remembered hosts became %q", what, why, after["knownhosts"])
			}
		}
		prompts := fingerprints(res.Out, hash)
		switch {
		case mode == "no-sync" || mode == "readonly":
			if len(evs) > 0 {
				t.Fail("%s: a session without sync connected: %v", what, evs)
			}
			sameKnown("no sync")
			t.Count("quiet_sessions", 1)
		case n["conn"] == 0:
			t.Fail("%s: the sync did not connect\noutput: %s", what, tail(res.Out, 900))
		case len(pins) == 0:
			if prompts == 0 {
				t.Fail("%s: the fingerprint of an unknown host was not shown\noutput: %s", what, tail(res.Out, 900))
			}
			if !accepts {
				unsent(0, "the host was declined")
				sameKnown("the host was declined")
				t.Count("declined", 1)
				break
			}
			np := pinsFor(after["knownhosts"], host)
			if len(np) == 0 {
				t.Fail("%s: the confirmed host is not remembered\noutput: %s", what, tail(res.Out, 900))
			}
			if len(np) > 1 || prompts > 1 {
				t.Fail("%s: the host was asked for %d times and is remembered %d times", what, prompts, len(np))
			}
			if len(np[0]) < 4 || np[0][2] != typ || np[0][3] != hash {
				t.Fail("%s: remembered as %q", what, np[0])
			}
			for _, l := range strings.Split(before["knownhosts"], "\n") {
				if l != "" && !strings.Contains("\n"+after["knownhosts"]+"\n", "\n"+l+"\n") {
					t.Fail("%s: the remembered line %q is gone", what, l)
				}
			}
			t.Count("accepted", 1)
			if flipped >= 0 {
				unsent(flipped, "the key changed in the middle of the session")
				if len(evs) > flipped+1 && !warned(res.Out) {
					t.Fail("%s: the key changed in the middle of the session without a warning\noutput: %s", what, tail(res.Out, 900))
				}
				t.Count("flipped", 1)
				break
			}
			c20done(w, what, res, now, after)
		case len(pins[0]) < 4 || pins[0][2] != typ || pins[0][3] != hash:
			unsent(0, "the host's key is not the remembered one")
			sameKnown("the host's key is not the remembered one")
			if prompts > 0 {
				t.Fail("%s: a host with another key than the remembered one was offered for confirmation\noutput: %s", what, tail(res.Out, 900))
			}
			if !warned(res.Out) {
				t.Fail("%s: no warning about the changed key\noutput: %s", what, tail(res.Out, 900))
			}
			t.Count("refused", 1)
		default:
			if prompts > 0 {
				t.Fail("%s: a known host was asked for again\noutput: %s", what, tail(res.Out, 900))
			}
			sameKnown("the host is known")
			t.Count("known", 1)
			if flipped >= 0 {
				unsent(flipped, "the key changed in the middle of the session")
				t.Count("flipped", 1)
				break
			}
			c20done(w, what, res, now, after)
		}
		if w.flip > 0 {
			// the next session meets the new key
			_ = after
		}
		t.Eval(what)
	}
}

// c20done: with an accepted host the transfers happen.
func c20done(w *hostWorld, what string, res *Result, now *memFile, after map[string]string) {
	t := w.t
	v, db := openView(t, w.f, "", "pw")
	if now == nil {
		t.Fail("%s: nothing was uploaded\noutput: %s", what, tail(res.Out, 900))
	}
	ff, err := fOpen(now.data, "", "pw")
	if err != nil {
		t.Fail("%s: the file on the server does not open: %v", what, err)
	}
	rdb, err := parseDB(ff.Payload)
	if err != nil {
		t.Fail("%s: the file on the server: %v", what, err)
	}
	if m := contains(db.Log, rdb.Log); m != nil {
		t.Fail("%s: the record %v of the server's file did not arrive", what, *m)
	}
	if now.mode != "0600" {
		t.Fail("%s: the file on the server has mode %s", what, now.mode)
	}
	for u, e := range v {
		if strings.HasPrefix(e["name"], "zz/") {
			rv, _ := mReplay(rdb.Log)
			if rv[u] == nil {
				t.Fail("%s: the entry %s was not uploaded\noutput: %s", what, e["name"], tail(res.Out, 900))
			}
		}
	}
}

// c20wizard: what addsync sets up works against a server, with whatever user, password and path.
func c20wizard(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	fs := &memFS{files: map[string]*memFile{}, seed: r.Int63()}
	user := pick(r, "joe", "Joe", "ROOT", "j.doe", "a b", "user@corp", "x:y", "ü", "a%41", "q?", "#h", "a/b")
	pass := pick(r, "pw", "p@ss", "p:w", "a/b", "100%", "%41", "q?x", "#h", "a b c", "ü€", "\\", "'\"`", "[]", strings.Repeat("long", 30))
	path := pick(r, "f.bp", "dir/f.bp", "/abs/f.bp", "~/f.bp", "a%20b", "q?x", "h#x", "ü.bp", "./f", "//x", "a:b", "a;b", "[x]")
	srv := newSSH(user, pass, hostKey("ed", 0))
	srv.exec = fs.exec
	defer srv.close()
	keyed := r.Intn(2) == 0
	choice := []string{"3", "m", pass, pass}
	if keyed {
		choice = []string{"1"}
		if t.Case%40 == 7 {
			choice = []string{"2"}
		}
		srv.pass = ""
	}
	in := append([]string{"pw", "pw", "addsync scp", user, "127.0.0.1", fmt.Sprint(srv.port()), path}, choice...)
	res := (&Sess{Dir: dir, File: f, Args: []string{"--no-sync"}, Input: strings.Join(in, "\n") + "\n"}).Run(t)
	res.MustOK(t, "addsync scp")
	v, db := openView(t, f, "", "pw")
	var e map[string]string
	for _, x := range v {
		e = x
	}
	if e == nil {
		t.Fail("addsync scp stored nothing\noutput: %s", res.Out)
	}
	if keyed {
		pub, _, _, _, err := ssh.ParseAuthorizedKey([]byte(e["pubkey"]))
		if err != nil {
			t.Fail("the stored public key %q is not one: %v", e["pubkey"], err)
		}
		if !strings.Contains(res.Out, e["pubkey"]) {
			t.Fail("the public key was not shown\noutput: %s", res.Out)
		}
		srv.pub = pub
	}
	what := fmt.Sprintf("user %q, password %q, path %q, key %v", user, pass, path, keyed)
	res = (&Sess{Dir: dir, File: f, Args: []string{"--no-sync"}, Input: "pw\nsync\ny\n"}).Run(t)
	evs := srv.take()
	t.Set("events", evs)
	for _, ev := range evs {
		if ev.What == "auth" && !keyed && ev.Arg != "password "+user+" "+pass {
			t.Fail("%s: the server was offered %q", what, ev.Arg)
		}
		if ev.What == "auth" && keyed && ev.Arg != "key "+user {
			t.Fail("%s: the server was offered %q", what, ev.Arg)
		}
	}
	mf := fs.files[path]
	if mf == nil || len(fs.files) != 1 {
		t.Fail("%s: not uploaded there: %v\noutput: %s", what, evs, tail(res.Out, 900))
	}
	ff, err := fOpen(mf.data, "", "pw")
	if err != nil {
		t.Fail("%s: the uploaded file does not open: %v", what, err)
	}
	rdb, err := parseDB(ff.Payload)
	if err != nil {
		t.Fail("%s: the uploaded file: %v", what, err)
	}
	if m := contains(rdb.Log, db.Log); m != nil {
		t.Fail("%s: the record %v was not uploaded", what, *m)
	}
	// and back, on another device
	os.Remove(f)
	data := mf.data
	os.WriteFile(f, data, 0600)
	res = (&Sess{Dir: dir, File: f, Args: []string{"--no-sync"}, Input: "pw\nsync\nset sync/scp extra 1\nsync\n"}).Run(t)
	res.MustOK(t, what+": second device")
	if fingerprints(res.Out, keyHash(srv.keys[0])) > 0 {
		t.Fail("%s: the confirmed host was not remembered in the uploaded file\noutput: %s", what, tail(res.Out, 900))
	}
	if bytes.Equal(fs.files[path].data, data) {
		t.Fail("%s: the second upload did not happen\noutput: %s", what, tail(res.Out, 900))
	}
	t.Count("wizards", 1)
	t.Eval(what)
}

// c20two: each remote has its own pin.
func c20two(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	n := 2 + r.Intn(2)
	g := newLogGen(r, 1571887976e9, 1000)
	type rem struct {
		srv  *sshSrv
		fs   *memFS
		uuid string
		key  ssh.Signer
		pin  string // "", right or wrong
	}
	perm := r.Perm(4)
	var rems []*rem
	for i := 0; i < n; i++ {
		m := &rem{fs: &memFS{files: map[string]*memFile{}, seed: r.Int63()}, key: hostKey("ed", perm[i])}
		m.srv = newSSH("joe", fmt.Sprintf("secret%d", i), m.key)
		defer m.srv.close()
		m.srv.exec = m.fs.exec
		m.uuid = g.add(fmt.Sprintf("sync/r%d", i))
		g.set(m.uuid, "url", (&url.URL{Scheme: "scp", User: url.UserPassword("joe", fmt.Sprintf("secret%d", i)), Host: m.srv.addr(), Path: "/f.bp"}).String())
		g.set(m.uuid, "sync", "true")
		rems = append(rems, m)
	}
	for i, m := range rems {
		other := rems[(i+1)%n]
		m.pin = pick(r, "", "", "right", "other", "swapped")
		switch m.pin {
		case "right":
			g.set(m.uuid, "knownhosts", m.srv.addr()+" "+m.srv.addr()+" ssh-ed25519 "+keyHash(m.key))
		case "other": // what is known about another host says nothing about this one
			g.set(m.uuid, "knownhosts", other.srv.addr()+" "+other.srv.addr()+" ssh-ed25519 "+keyHash(other.key))
		case "swapped":
			g.set(m.uuid, "knownhosts", m.srv.addr()+" "+m.srv.addr()+" ssh-ed25519 "+keyHash(other.key))
		}
	}
	craft(t, f, "pw", g.log)
	var answers []string
	for range rems {
		answers = append(answers, pick(r, "y", "y", "n"))
	}
	before, _ := openView(t, f, "", "pw")
	res := (&Sess{Dir: dir, File: f, Args: []string{"--no-sync"}, Input: "pw\nsync\n" + strings.Join(answers, "\n") + "\n"}).Run(t)
	if c := res.Crashed(); c != "" {
		t.Fail("crash: %s", c)
	}
	t.Set("output", tail(res.Out, 3000))
	after, _ := openView(t, f, "", "pw")
	type seen struct {
		at int
		m  *rem
	}
	var order []seen
	colon := func(h string) string {
		var c []string
		for i := 0; i+1 < len(h); i += 2 {
			c = append(c, h[i:i+2])
		}
		return strings.Join(c, ":")
	}
	low := strings.ToLower(res.Out)
	for _, m := range rems {
		at := strings.Index(low, colon(keyHash(m.key)))
		if at < 0 {
			at = strings.Index(low, keyHash(m.key))
		}
		asked := at >= 0
		if want := m.pin == "" || m.pin == "other"; asked != want {
			t.Fail("remote with pin %q: asked for confirmation %v\noutput: %s", m.pin, asked, tail(res.Out, 900))
		}
		if asked {
			order = append(order, seen{at, m})
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].at < order[j].at })
	answer := map[*rem]string{}
	for i, o := range order {
		answer[o.m] = answers[i]
	}
	for i, m := range rems {
		evs := m.srv.take()
		ok := m.pin == "right" || answer[m] == "y"
		what := fmt.Sprintf("remote %d of %d with pin %q, answer %q", i, n, m.pin, answer[m])
		authed := false
		for _, e := range evs {
			if e.What == "auth" {
				authed = true
				if e.Arg != fmt.Sprintf("password joe secret%d", i) {
					t.Fail("%s: the server was offered %q", what, e.Arg)
				}
			}
		}
		if authed != ok || (m.fs.files["f.bp"] != nil) != ok {
			t.Fail("%s: authenticated %v, uploaded %v\noutput: %s", what, authed, m.fs.files["f.bp"] != nil, tail(res.Out, 900))
		}
		old, now := before[m.uuid]["knownhosts"], after[m.uuid]["knownhosts"]
		if answer[m] != "y" {
			if old != now {
				t.Fail("%s: the remembered hosts became %q", what, now)
			}
			continue
		}
		p := pinsFor(now, m.srv.addr())
		if len(p) != 1 || len(p[0]) < 4 || p[0][2] != "ssh-ed25519" || p[0][3] != keyHash(m.key) {
			t.Fail("%s: remembered as %q", what, now)
		}
		lines := 1
		if old != "" {
			lines = 2
		}
		if len(strings.Split(strings.Trim(now, "\n"), "\n")) != lines {
			t.Fail("%s: remembered more than that: %q", what, now)
		}
	}
	t.Count("fleets", 1)
	t.Eval(fmt.Sprintf("%d %v", n, answers))
}

// c20drop: the connection breaks while the user is asked; the answer is still that question's.
func c20drop(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	fs := &memFS{files: map[string]*memFile{}, seed: r.Int63()}
	wa := &hostWorld{t: t, dir: dir, f: f, path: "f.bp", fs: fs}
	wb := &hostWorld{t: t, dir: dir, f: f, path: "f.bp", fs: fs}
	wa.srv = newSSH("joe", "pw", hostKey("ed", 0))
	wb.srv = newSSH("joe", "pw", hostKey("ed", 1))
	wa.srv.exec, wb.srv.exec = wa.exec, wb.exec
	defer wa.srv.close()
	defer wb.srv.close()
	life := time.Duration(40+r.Intn(100)) * time.Millisecond
	addr, stop := proxy(t, wa.srv.addr(), func() time.Duration { return life })
	defer stop()
	g := newLogGen(r, 1571887976e9, 1000)
	for i, a := range []string{addr, wb.srv.addr()} {
		u := g.add("sync/" + string(rune('a'+i)))
		g.set(u, "url", (&url.URL{Scheme: "scp", User: url.UserPassword("joe", "pw"), Host: a, Path: "/f.bp"}).String())
		g.set(u, "sync", "true")
	}
	craft(t, f, "pw", g.log)
	answer := pick(r, "y", "Y", "n", "", "x")
	k := 3 + r.Intn(4)
	s := &Sess{Dir: dir, File: f, Args: []string{"--no-sync"}, Input: "pw\nsync sync/a\n" + answer + "\nsync sync/b\nn\n" + strings.Repeat(sentinelCmd+"\n", k)}
	step := 0
	s.Pace = func(rest string) (int, time.Duration, syscall.Signal) {
		step++
		if step == 2 {
			return strings.IndexByte(rest, '\n') + 1, life + time.Duration(20+r.Intn(80))*time.Millisecond, 0
		}
		return strings.IndexByte(rest, '\n') + 1, time.Duration(r.Intn(20)) * time.Millisecond, 0
	}
	res := s.Run(t)
	t.Set("output", tail(res.Out, 2000))
	res.MustOK(t, "session whose connection breaks during the question")
	if fingerprints(res.Out, keyHash(hostKey("ed", 0))) == 0 {
		t.Count("broke_before_the_question", 1)
		return
	}
	v, _ := openView(t, f, "", "pw")
	for _, e := range v {
		if e["name"] == "sync/b" && e["knownhosts"] != "" {
			t.Fail("the declined host was remembered: %q", e["knownhosts"])
		}
	}
	for _, e := range wb.srv.take() {
		if e.What == "exec" || e.What == "auth" {
			t.Fail("the declined host was used: %v", e)
		}
	}
	if n := fingerprints(res.Out, keyHash(hostKey("ed", 1))); n != 1 {
		t.Fail("the user was asked %d times about the second host, want once: the answer to the first question went elsewhere", n)
	}
	if n := strings.Count(res.Out, "unknown command"); n != k {
		t.Fail("%d lines were taken as commands, want %d: answers and commands got mixed up", n, k)
	}
	t.Count("broke_during_the_question", 1)
	t.Eval(fmt.Sprint(t.Case, life))
}

func init() {
	register(&Check{ID: "C20",
		Rule:        "prompts, server-side events and remembered lines compared with a pin model over sessions, answers, near-miss pins and keys that change between and within sessions",
		Assumptions: []string{"file remotes have no host keys", "several remembered lines about one host that contradict each other are not generated"},
		Run: func(c *Ctx) {
			c.Cases("pins", c.N(900, 15000), c20case)
			c.Cases("several", c.N(250, 4000), c20two)
			c.Cases("wizard", c.N(300, 4000), c20wizard)
			c.Cases("drops", c.N(80, 1500), c20drop)
		}})
}
