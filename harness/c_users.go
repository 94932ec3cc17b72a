package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"sort"
	"strings"
)

// creds models who can open a file with what.
type creds struct {
	t     *T
	pass  string            // single-user passphrase
	users map[string]string // user -> passphrase, nil: single user
	me    string
	aside map[string]string // users moved out of user/, by the entry's present name
	seenU map[string]bool   // every user name ever used
	seenP map[string]bool   // every passphrase ever used
	seq   int
	ops   strings.Builder
	// rekeyall prints what only the output knows
	pending []func(segs []string)
}

func newCreds(t *T, pass string) *creds {
	return &creds{t: t, pass: pass, aside: map[string]string{}, seenU: map[string]bool{}, seenP: map[string]bool{pass: true}}
}

func (c *creds) clone() *creds {
	n := *c
	n.ops = strings.Builder{}
	n.pending = nil
	n.users, n.aside, n.seenU, n.seenP = nil, map[string]string{}, map[string]bool{}, map[string]bool{}
	if c.users != nil {
		n.users = map[string]string{}
	}
	for k, v := range c.users {
		n.users[k] = v
	}
	for k, v := range c.aside {
		n.aside[k] = v
	}
	for k := range c.seenU {
		n.seenU[k] = true
	}
	for k := range c.seenP {
		n.seenP[k] = true
	}
	return &n
}

func (c *creds) list() []string {
	var out []string
	for u := range c.users {
		out = append(out, u)
	}
	sort.Strings(out)
	return out
}

// login picks somebody who can open the file and gives the lines to type.
func (c *creds) login(as string) []string {
	if c.users == nil {
		c.me = ""
		return []string{c.pass}
	}
	if as == "" {
		l := c.list()
		as = l[c.t.R.Intn(len(l))]
	}
	c.me = as
	return []string{as, c.users[as]}
}

func (c *creds) newPass() (lines []string, p string) {
	r := c.t.R
	c.seq++
	switch r.Intn(4) {
	case 0:
		p = genLine(r, 20) + fmt.Sprint(c.seq)
	case 1:
		p = strings.Repeat(genWord(r, 6), 20) + fmt.Sprint(c.seq)
	default:
		p = fmt.Sprintf("pass%d", c.seq)
	}
	p = strings.TrimSpace(p)
	c.seenP[p] = true
	if r.Intn(4) == 0 {
		lines = append(lines, "m", p, p+"no")
	}
	if r.Intn(4) == 0 {
		lines = append(lines, pick(r, "?", "", "12"))
	}
	return append(lines, "m", p, p), p
}

func (c *creds) name() string {
	n := pick(c.t.R, "ann", "bob", "carl", "Ann", "ann2", "b", "x/y", "é", "dave", "bo")
	c.seenU[n] = true
	return n
}

// op writes one user-management command into a script and into the model.
func (c *creds) op(s *Script) {
	r := c.t.R
	any := func() string {
		l := c.list()
		if len(l) == 0 || r.Intn(6) == 0 {
			return c.name()
		}
		return l[r.Intn(len(l))]
	}
	k := r.Intn(16)
	fmt.Fprintf(&c.ops, "%d,", k)
	switch {
	case k < 4:
		u := c.name()
		if _, ok := c.users[u]; ok {
			s.Cmd("adduser " + u)
			return
		}
		if c.users == nil {
			s.Cmd("adduser " + u)
			c.users = map[string]string{u: c.pass}
			c.me = u
			return
		}
		if r.Intn(6) == 0 {
			// an empty passphrase is refused
			s.Cmd("adduser "+u, "m", "", "")
			return
		}
		l, p := c.newPass()
		s.Cmd(append([]string{"adduser " + u}, l...)...)
		c.users[u] = p
	case k < 6: // own passphrase
		if r.Intn(8) == 0 {
			s.Cmd("passwd", "m", "", "")
			return
		}
		l, p := c.newPass()
		s.Cmd(append([]string{"passwd"}, l...)...)
		if c.users == nil {
			c.pass = p
		} else {
			c.users[c.me] = p
		}
	case k < 8:
		u := any()
		cmd := pick(r, "passwd ", "rekey ") + u
		if _, ok := c.users[u]; !ok {
			s.Cmd(cmd)
			return
		}
		l, p := c.newPass()
		s.Cmd(append([]string{cmd}, l...)...)
		c.users[u] = p
	case k < 9:
		s.Cmd("rekey")
	case k < 10:
		if c.users == nil {
			s.Cmd("rekeyall")
			return
		}
		if r.Intn(4) == 0 {
			s.Cmd("rekeyall", pick(r, "n", "no"))
			return
		}
		seg := s.Cmd("rekeyall", pick(r, "y", "yes"))
		// users renamed later in this session keep these passphrases; follow them by position
		now := map[string]string{}
		for u := range c.users {
			ph := fmt.Sprintf("\x00rekeyall%d:%s", seg, u)
			now[u] = ph
		}
		c.users = now
		for n := range c.aside {
			// keys of entries that are no users at that moment are not renewed
			delete(c.aside, n)
		}
		c.pending = append(c.pending, func(segs []string) {
			got := map[string]string{}
			for _, l := range strings.Split(segs[seg], "\n") {
				f := strings.Fields(l)
				if len(f) >= 2 && strings.HasSuffix(f[0], ":") {
					u := strings.TrimSuffix(f[0], ":")
					got[u] = l[strings.Index(l, u+": ")+len(u)+2:]
				}
			}
			pre := fmt.Sprintf("\x00rekeyall%d:", seg)
			real := func(p string) string {
				if !strings.HasPrefix(p, pre) {
					return p
				}
				np := got[p[len(pre):]]
				if np == "" {
					c.t.Fail("rekeyall printed no passphrase for %q:\n%s", p[len(pre):], segs[seg])
				}
				c.seenP[np] = true
				return np
			}
			for u, p := range c.users {
				c.users[u] = real(p)
			}
			for u, p := range c.aside {
				c.aside[u] = real(p)
			}
			c.pass = real(c.pass)
		})
	case k < 12:
		u := any()
		_, ok := c.users[u]
		switch {
		case !ok:
			s.Cmd("rm user/" + u)
		case u == c.me && len(c.users) > 1:
			s.Cmd("rm user/" + u) // refused without a question
		case r.Intn(4) == 0:
			s.Cmd("rm user/"+u, pick(r, "", "no", "user/"))
		default:
			s.Cmd("rm user/"+u, "user/"+u)
			if u == c.me {
				c.pass = c.users[u]
				c.users, c.me = nil, ""
				return
			}
			delete(c.users, u)
		}
	case k < 14:
		from, to := any(), c.name()
		s.Cmd("mv user/" + from + " user/" + to)
		p, ok := c.users[from]
		if _, taken := c.users[to]; !ok || taken {
			return
		}
		delete(c.users, from)
		c.users[to] = p
		if c.me == from {
			c.me = to
		}
	case k < 15:
		// out of user/ and back
		u := any()
		p, ok := c.users[u]
		if ok && u != c.me {
			n := fmt.Sprintf("former%d", c.seq)
			c.seq++
			s.Cmd("mv user/" + u + " " + n)
			delete(c.users, u)
			c.aside[n] = p
			return
		}
		for n, p := range c.aside {
			if _, taken := c.users[u]; !taken && c.users != nil {
				s.Cmd("mv " + n + " user/" + u)
				c.users[u] = p
				delete(c.aside, n)
			}
			return
		}
	default:
		s.Cmd("set canary k " + fmt.Sprint("v", c.seq))
	}
}

// settle fills in the passphrases that only the output shows.
func (c *creds) settle(segs []string) {
	for _, f := range c.pending {
		f(segs)
	}
	c.pending = nil
}

// judge tries every user name with every passphrase against a file.
func (c *creds) judge(what, file string) {
	t := c.t
	b := mustRead(t, file)
	f, _, err := fParse(b)
	if err != nil {
		t.Fail("%s: the file's header is broken: %v", what, err)
	}
	if (f.NUsers == 0) != (c.users == nil) {
		t.Fail("%s: the file has %d user slots, the users are %q", what, f.NUsers, c.list())
	}
	if c.users != nil {
		if f.NUsers != len(c.users) {
			t.Fail("%s: the file has %d user slots, the users are %q", what, f.NUsers, c.list())
		}
		for u := range c.users {
			h := sha256.Sum256([]byte(u))
			n := 0
			for _, s := range f.Slots {
				if bytes.Equal(s.NameHash, h[:]) {
					n++
				}
			}
			if n != 1 {
				t.Fail("%s: user %q has %d slots", what, u, n)
			}
		}
	}
	users := []string{""}
	if c.users != nil {
		users = append(users, "")
		for u := range c.seenU {
			users = append(users, u)
		}
	}
	var payload []byte
	n := 0
	if t.Large {
		t.R.Shuffle(len(users), func(i, j int) { users[i], users[j] = users[j], users[i] })
	}
	for _, u := range users {
		for p := range c.seenP {
			if t.Large && p != c.users[u] && p != c.pass && t.R.Intn(len(c.seenP)) > 0 {
				continue
			}
			want := false
			if c.users == nil {
				want = p == c.pass
			} else {
				q, ok := c.users[u]
				want = ok && p == q
			}
			ff, err := fOpen(b, u, p)
			if (err == nil) != want {
				t.Fail("%s: opening as %q with %q: %v; registered: %q %q", what, u, p, err, c.users, c.pass)
			}
			if err == nil {
				if payload != nil && !bytes.Equal(payload, ff.Payload) {
					t.Fail("%s: different users see different content", what)
				}
				payload = ff.Payload
			}
			n++
		}
	}
	if payload == nil {
		t.Fail("%s: nobody can open the file; registered: %q %q", what, c.users, c.pass)
	}
	t.Count("logins_tried", n)
}

func (c *creds) open(file string) (*mDB, mView) {
	u, p := "", c.pass
	if c.users != nil {
		u = c.list()[0]
		p = c.users[u]
	}
	db, _ := openDB(c.t, file, u, p)
	return db, checkStored(c.t, "file", db)
}

func c14case(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	c := newCreds(t, "first pass")
	made := r.Intn(2) == 0
	if t.Large {
		// many users already
		made = false
		var us []fUserCred
		c.users = map[string]string{}
		for i := pickInt(r, 12, 20, 30, 33, 64, 65, 99, 100, 101, 128, 129, 200, 257); i > 0; i-- {
			u, p := fmt.Sprint("n", i), fmt.Sprint("pass of ", i)
			us = append(us, fUserCred{Name: u, Pass: p})
			c.users[u], c.seenU[u], c.seenP[p] = p, true, true
		}
		mu := newMulti(t, us, 1571887970e9)
		g := plainLogGen(r, 1571887976e9, 1e9)
		g.set(g.add("canary"), "k", "v0")
		mu.write(f, append(append([]mTx{}, mu.log...), g.log...))
	} else if !made {
		g := newLogGen(r, 1571887976e9, 1e9)
		g.set(g.add("canary"), "k", "v0")
		craft(t, f, "first pass", g.log)
	}
	sessions := 1 + r.Intn(3)
	for i := 0; i < sessions; i++ {
		var s *Script
		if made && i == 0 {
			s = NewSession("first pass", "first pass")
			s.Cmd("add canary", "", "", "m", "p", "p")
		} else {
			s = NewSession(c.login("")...)
		}
		before := c.clone()
		var b0 []byte
		if !(made && i == 0) {
			b0 = mustRead(t, f)
		}
		for k := 1 + r.Intn(7); k > 0; k-- {
			c.op(s)
		}
		intr := b0 != nil && r.Intn(6) == 0
		if intr {
			s.b.WriteString("\x03\n")
		} else {
			s.Raw("exit")
		}
		t.Note("session %d as %q: %s", i, before.me, quoteInput(s.String()))
		res := (&Sess{Dir: dir, File: f, Input: s.String()}).Run(t)
		if intr {
			if cr := res.Crashed(); cr != "" {
				t.Fail("crash: %s", cr)
			}
			if !bytes.Equal(mustRead(t, f), b0) {
				t.Fail("an interrupted session changed the file")
			}
			before.seenU, before.seenP = c.seenU, c.seenP
			before.seq = c.seq
			c = before
		} else {
			res.MustOK(t, "user management")
			c.settle(res.Segments(t, s))
		}
		c.judge(fmt.Sprintf("after session %d", i), f)
		_, v := c.open(f)
		nm := v.byName()
		if nm["canary"] == "" {
			t.Fail("user management lost an entry: %q", nm)
		}
		// user entries of the log are the users
		for u := range c.users {
			if nm["user/"+u] == "" {
				t.Fail("user %q has no entry", u)
			}
		}
	}
	// the program itself agrees about one login that works and one that does not
	lg := c.login("")
	s := NewSession(lg...)
	s.Raw("exit")
	(&Sess{Dir: dir, File: f, Input: s.String()}).Run(t).MustOK(t, "opening with registered credentials")
	bad := append([]string{}, lg...)
	bad[len(bad)-1] = "wrong" + bad[len(bad)-1]
	b0 := mustRead(t, f)
	res := (&Sess{Dir: dir, File: f, Input: strings.Join(bad, "\n") + "\nset canary k stolen\nexit\n"}).Run(t)
	if res.Crashed() != "" || res.Code == 0 {
		t.Fail("opening with a wrong passphrase ended with status %d\n%s", res.Code, tail(res.Out, 500))
	}
	if !bytes.Equal(mustRead(t, f), b0) {
		t.Fail("a refused login changed the file")
	}
	t.Count("user_commands", strings.Count(c.ops.String(), ","))
	t.Eval(c.ops.String())
	t.Sample(t.notes)
}

// ---- C13 ----

// remoteAnswers is what the program asks for when it opens a remote with the credentials at hand,
// and what somebody who knows the remote's credentials answers.
func remoteAnswers(user, pass string, remote *creds, as string) []string {
	var out []string
	if remote.users == nil {
		if pass != remote.pass {
			out = append(out, remote.pass)
		}
		return out
	}
	h, ok := remote.users[user]
	if !ok {
		if user != "" {
			// an unknown user is refused like a wrong passphrase
			return nil
		}
		user = as
		out = append(out, user)
		h = remote.users[user]
	}
	if pass != h {
		out = append(out, h)
	}
	return out
}

// c13case: two copies, the credentials of one change, then both synchronise through one remote.
func c13case(t *T) {
	r := t.R
	root := t.Scratch()
	remote := root + "/remote"
	base := syncEntry(t, 1571887976e9, "sync/r", remote)
	g := newLogGen(r, 1571887977e9, 1000)
	g.set(g.add("canary"), "k", "v0")
	base = append(base, g.log...)
	files := [2]string{}
	dirs := [2]string{root + "/A", root + "/B"}
	for i, d := range dirs {
		os.MkdirAll(d, 0700)
		files[i] = d + "/f"
	}
	start := newCreds(t, "first pass")
	if r.Intn(2) == 0 {
		us := []fUserCred{{Name: "ann", Pass: "annpw"}, {Name: "bob", Pass: "bobpw"}}
		if r.Intn(3) == 0 {
			us = us[:1]
		}
		start.users = map[string]string{}
		for _, u := range us {
			start.users[u.Name] = u.Pass
			start.seenU[u.Name], start.seenP[u.Pass] = true, true
		}
		mu := newMulti(t, us, g.now+1000)
		base = append(base, mu.log...)
		mu.write(files[0], base)
	} else {
		craft(t, files[0], start.pass, base)
	}
	start.seenU["ann"], start.seenU["bob"] = true, true
	mustWriteFile(files[1], mustRead(t, files[0]))
	mustWriteFile(remote, mustRead(t, files[0]))

	old, cur := start.clone(), start.clone()
	// the changing side is B (1). Its user stays who they are so that the other side's user, the
	// same person, is still known afterwards.
	me := ""
	if start.users != nil {
		me = "ann"
	}
	login := func(c *creds) []string { return c.login(me) }
	kind := r.Intn(6)
	multi := start.users != nil
	single2multi := false
	edited, what := 0, ""
	edit := func(s *Script) {
		edited++
		s.Cmd(fmt.Sprintf("set canary k%d v%d", edited, edited))
	}
	change := func(s *Script) string {
		switch {
		case !multi && kind < 3:
			l, p := cur.newPass()
			s.Cmd(append([]string{"passwd"}, l...)...)
			cur.pass = p
			return "passwd"
		case !multi:
			s.Cmd("adduser ann")
			cur.users, cur.me = map[string]string{"ann": cur.pass}, "ann"
			single2multi = true
			if r.Intn(2) == 0 {
				l, p := cur.newPass()
				s.Cmd(append([]string{"adduser bob"}, l...)...)
				cur.users["bob"] = p
			}
			if r.Intn(3) == 0 {
				l, p := cur.newPass()
				s.Cmd(append([]string{"passwd"}, l...)...)
				cur.users["ann"] = p
			}
			return "adduser"
		case kind == 0:
			l, p := cur.newPass()
			s.Cmd(append([]string{"passwd"}, l...)...)
			cur.users["ann"] = p
			return "passwd"
		case kind == 1 && len(cur.users) > 1:
			l, p := cur.newPass()
			s.Cmd(append([]string{pick(r, "passwd", "rekey") + " bob"}, l...)...)
			cur.users["bob"] = p
			return "passwd bob"
		case kind <= 3:
			seg := s.Cmd("rekeyall", "y")
			cur.pending = append(cur.pending, func(segs []string) {
				for _, l := range strings.Split(segs[seg], "\n") {
					f := strings.Fields(l)
					if len(f) == 2 && strings.HasSuffix(f[0], ":") {
						u := strings.TrimSuffix(f[0], ":")
						if _, ok := cur.users[u]; ok {
							cur.users[u] = f[1]
							cur.seenP[f[1]] = true
						}
					}
				}
			})
			return "rekeyall"
		case kind == 4:
			if len(cur.users) > 1 {
				s.Cmd("rm user/bob", "user/bob")
			}
			s.Cmd("rm user/ann", "user/ann")
			cur.pass = cur.users["ann"]
			cur.users, cur.me = nil, ""
			return "last user leaves"
		}
		l, p := cur.newPass()
		s.Cmd(append([]string{"adduser carl"}, l...)...)
		cur.seenU["carl"] = true
		cur.users["carl"] = p
		return "adduser carl"
	}
	run := func(i int, s *Script, sync bool) []string {
		s.Raw("exit")
		args := []string{"--no-sync"}
		if sync {
			args = nil
		}
		t.Note("device %d: %s", i, quoteInput(s.String()))
		res := (&Sess{Dir: dirs[i], File: files[i], Input: s.String(), Args: args}).Run(t)
		res.MustOK(t, "session")
		return res.Segments(t, s)
	}
	userOf := func(c *creds) (string, string) {
		if c.users == nil {
			return "", c.pass
		}
		return "ann", c.users["ann"]
	}
	// st is what the documents say about one copy: which edits it has, the latest of them, who can
	// open it.
	type st struct {
		has  int
		last int
		c    *creds
		key  int // single-user files: which key
	}
	A, B, R := st{c: old}, st{c: old}, st{c: old}
	clock, bits := 0, 0
	mark := func(x *st) { // one logged change
		clock++
		x.has |= 1 << bits
		bits++
		x.last = clock
	}
	logged := func() bool { return multi || single2multi }
	// sync as the rules have it: equal logs leave both alone; the log decides about users; two
	// single-user files go by the later change
	// the later change decides; when both have the same latest one the user is asked
	keys := 1
	asks := func(x *st) bool {
		return x.has != R.has && x.c.users == nil && R.c.users == nil && x.key != R.key && x.last == R.last
	}
	useRemote := false
	doSync := func(x *st) {
		if x.has == R.has {
			return
		}
		if logged() {
			if R.c == cur {
				x.c = cur
			}
		} else if x.key != R.key && (x.last < R.last || x.last == R.last && useRemote) {
			x.c, x.key = R.c, R.key
		}
		x.has |= R.has
		if R.last > x.last {
			x.last = R.last
		}
		R = *x
	}
	syncDev := func(i int, x *st, last bool) {
		u, p := userOf(x.c)
		lines := append(x.c.login(map[bool]string{true: "ann", false: ""}[x.c.users != nil]), remoteAnswers(u, p, R.c, "ann")...)
		if asks(x) {
			useRemote = r.Intn(2) == 0
			lines = append(lines, map[bool]string{true: "y", false: "n"}[useRemote])
		}
		s := NewSession(lines...)
		// (not where the change has not arrived yet, that would be changes on both sides)
		rekey := !last && r.Intn(3) == 0 && (!logged() || x.c == cur || R.c == cur)
		if rekey {
			// a new salt for the passphrase that holds after the sync
			s.Cmd("rekey")
		}
		run(i, s, true)
		doSync(x)
		if rekey {
			t.Count("rekeys_after_sync", 1)
			keys++
			x.key = keys
			if x.c.users != nil {
				mark(x)
				doSync(x)
			}
		}
		when := fmt.Sprintf(" after device %s synced (%s)", string("AB"[i]), what)
		x.c.judge("device "+string("AB"[i])+when, files[i])
		R.c.judge("remote"+when, remote)
		dx, _ := x.c.open(files[i])
		dr, _ := R.c.open(remote)
		if !logsEqual(dx.Log, dr.Log) {
			t.Fail("device and remote differ%s", when)
		}
	}
	all := func(f func(c *creds)) {
		f(old)
		f(cur)
	}
	// B changes its credentials, with edits around
	s := NewSession(login(cur)...)
	if r.Intn(2) == 0 {
		edit(s)
		mark(&B)
	}
	what = change(s)
	if logged() {
		mark(&B)
	}
	editsAfter := r.Intn(2) == 0
	if editsAfter {
		edit(s)
		mark(&B)
	}
	cur.settle(run(1, s, false))
	pp, uu := merge2(old.seenP, cur.seenP), merge2(old.seenU, cur.seenU)
	all(func(c *creds) { c.seenP, c.seenU = pp, uu })
	B.c, B.key = cur, 1
	B.c.judge("changing device", files[1])
	// A edits in between, or not; both synchronise a few times in some order
	aEdits := r.Intn(2) == 0
	if aEdits {
		s := NewSession(login(old)...)
		edit(s)
		mark(&A)
		run(0, s, false)
	}
	order := ""
	for k, n := 0, 2+r.Intn(3); k < n; k++ {
		if r.Intn(2) == 0 {
			order += "A"
			syncDev(0, &A, false)
		} else {
			order += "B"
			syncDev(1, &B, false)
		}
	}
	for k := 0; k < 2; k++ {
		syncDev(1, &B, true)
		syncDev(0, &A, true)
	}
	if A.has != R.has || B.has != R.has {
		panic(inconclusive("model: not converged"))
	}
	win := A.c
	if logged() && win != cur {
		panic(inconclusive("model: the change got lost"))
	}
	da, va := A.c.open(files[0])
	db, _ := B.c.open(files[1])
	if !logsEqual(da.Log, db.Log) {
		t.Fail("the copies differ after both synced")
	}
	for i := 0; i < edited; i++ {
		if va[va.byName()["canary"]][fmt.Sprintf("k%d", i+1)] != fmt.Sprintf("v%d", i+1) {
			t.Fail("edit %d is missing after sync", i+1)
		}
	}
	// and it stays that way
	u, p := userOf(win)
	lg := append(win.login(map[bool]string{true: "ann", false: ""}[win.users != nil]), remoteAnswers(u, p, R.c, "ann")...)
	s = NewSession(lg...)
	edit(s)
	mark(&A)
	if R.c != A.c {
		// the remote is asked about again when the session's changes are synchronised
		s.Raw("exit")
		s.Raw(remoteAnswers(u, p, R.c, "ann")...)
	}
	run(0, s, true)
	doSync(&A)
	A.c.judge("device A later", files[0])
	R.c.judge("remote later", remote)
	t.Count(strings.ReplaceAll(what, " ", "_"), 1)
	t.Eval(fmt.Sprint(what, order, aEdits, editsAfter, len(start.users), len(cur.users)))
	t.Sample(t.notes)
}

// c13dup: both copies of a single-user file get their first user on their own, under the same name.
func c13dup(t *T) {
	r := t.R
	root := t.Scratch()
	remote := root + "/remote"
	base := syncEntry(t, 1571887976e9, "sync/r", remote)
	g := newLogGen(r, 1571887977e9, 1000)
	g.set(g.add("canary"), "k", "v0")
	base = append(base, g.log...)
	var files, dirs [2]string
	var pass [2]string
	for i := range files {
		dirs[i] = fmt.Sprintf("%s/%d", root, i)
		os.MkdirAll(dirs[i], 0700)
		files[i] = dirs[i] + "/f"
	}
	craft(t, files[0], "first pass", base)
	mustWriteFile(files[1], mustRead(t, files[0]))
	mustWriteFile(remote, mustRead(t, files[0]))
	for i := range files {
		pass[i] = "first pass"
		s := NewSession("first pass")
		s.Cmd("adduser ann")
		if r.Intn(2) == 0 {
			pass[i] = fmt.Sprintf("ann pass %d", i)
			s.Cmd("passwd", "m", pass[i], pass[i])
		}
		s.Cmd(fmt.Sprintf("set canary k%d v", i))
		s.Raw("exit")
		(&Sess{Dir: dirs[i], File: files[i], Input: s.String(), Args: []string{"--no-sync"}}).Run(t).MustOK(t, "adding a first user")
	}
	remotePass := "first pass"
	cur := pass // what each file opens with
	for k := 0; k < 5; k++ {
		i := r.Intn(2)
		if k >= 3 {
			i = k - 3
		}
		var lines []string
		remoteMulti := remotePass != "first pass" || k > 0
		lines = append(lines, "ann", cur[i])
		if cur[i] != remotePass {
			lines = append(lines, remotePass)
		}
		_ = remoteMulti
		t.Note("device %d: %q", i, lines)
		(&Sess{Dir: dirs[i], File: files[i], Input: strings.Join(append(lines, "exit"), "\n") + "\n"}).Run(t).MustOK(t, "sync")
		// whichever side's credentials win, ann gets in with one of them and everything is there
		open := func(what, f string) string {
			var got []string
			for _, p := range []string{"first pass", pass[0], pass[1]} {
				if len(got) > 0 && got[0] == p {
					continue
				}
				if _, err := fOpen(mustRead(t, f), "ann", p); err == nil {
					got = append(got, p)
				}
			}
			if len(got) != 1 {
				t.Fail("%s after both copies added user ann: opens with %q", what, got)
			}
			return got[0]
		}
		cur[i] = open("device", files[i])
		remotePass = open("remote", remote)
	}
	db, v := openDB2(t, files[1], "ann", cur[1])
	_ = db
	c := v[v.byName()["canary"]]
	if c["k0"] != "v" || c["k1"] != "v" {
		t.Fail("edits are lost after both copies added user ann: %q", c)
	}
	t.Eval(fmt.Sprint(r.Int63()))
	t.Sample(t.notes)
}

// c13rekeyed: one copy is rekeyed in full while the other gets new users. The rekey cannot have
// reached those, so the merged file does not open for them: the sync that puts the two together
// has to say so, of them and of nobody else, and giving them a new passphrase has to repair it.
func c13rekeyed(t *T) {
	r := t.R
	root := t.Scratch()
	remote := root + "/remote"
	base := syncEntry(t, 1571887976e9, "sync/r", remote)
	g := newLogGen(r, 1571887977e9, 1000)
	g.set(g.add("canary"), "k", "v0")
	base = append(base, g.log...)
	var files, dirs [2]string
	for i, d := range []string{root + "/A", root + "/B"} {
		os.MkdirAll(d, 0700)
		dirs[i], files[i] = d, d+"/f"
	}
	var us []fUserCred
	for _, n := range []string{"ann", "bob", "x/y", "é", "Ann"}[:1+r.Intn(5)] {
		us = append(us, fUserCred{Name: n, Pass: n + " pw"})
	}
	mu := newMulti(t, us, g.now+1000)
	base = append(base, mu.log...)
	mu.write(files[0], base)
	mustWriteFile(files[1], mustRead(t, files[0]))
	mustWriteFile(remote, mustRead(t, files[0]))

	run := func(i int, s *Script, sync bool) (string, []string) {
		s.Raw("exit")
		args := []string{"--no-sync"}
		if sync {
			args = nil
		}
		t.Note("device %d: %s", i, quoteInput(s.String()))
		res := (&Sess{Dir: dirs[i], File: files[i], Input: s.String(), Args: args}).Run(t)
		res.MustOK(t, "session")
		return res.Out, res.Segments(t, s)
	}
	rekeyed := map[string]string{}
	rekey := func() {
		s := NewSession("ann", "ann pw")
		seg := s.Cmd("rekeyall", "y")
		_, segs := run(1, s, false)
		for _, l := range strings.Split(segs[seg], "\n") {
			if k := strings.Index(l, ":"); k > 0 && len(strings.Fields(l[k+1:])) == 1 {
				for _, u := range us {
					if strings.TrimSpace(l[:k]) == u.Name {
						rekeyed[u.Name] = strings.TrimSpace(l[k+1:])
					}
				}
			}
		}
		if len(rekeyed) != len(us) {
			t.Fail("rekeyall printed passphrases for %d of %d users: %q", len(rekeyed), len(us), segs[seg])
		}
	}
	added := map[string]string{}
	add := func() {
		s := NewSession("ann", "ann pw")
		names := []string{"carl", "bo", "ann2", "dave"}[:1+r.Intn(4)]
		if len(rekeyed) > 0 && len(us) > 1 && r.Intn(2) == 0 {
			// somebody leaves and comes back as a new user of the same name
			u := us[len(us)-1].Name
			us = us[:len(us)-1]
			s.Cmd("rm user/"+u, "user/"+u)
			names = append(names, u)
			t.Count("returned_users", 1)
		}
		for _, n := range names {
			added[n] = n + " new pw"
			s.Cmd("adduser "+n, "m", added[n], added[n])
		}
		if r.Intn(2) == 0 {
			s.Cmd("set canary k1 v1")
		}
		run(0, s, false)
	}
	if r.Intn(2) == 0 {
		rekey()
		add()
	} else {
		add()
		rekey()
	}
	// what ann opens each copy with
	pass := [2]string{"ann pw", rekeyed["ann"]}
	rpass := "ann pw"
	order := [3]int{0, 1, 0}
	if r.Intn(2) == 0 {
		order = [3]int{1, 0, 1}
	}
	for k, i := range order {
		lines := []string{"ann", pass[i]}
		if pass[i] != rpass {
			lines = append(lines, rpass)
		}
		out, _ := run(i, NewSession(lines...), true)
		if k > 0 {
			pass[i] = rekeyed["ann"]
		}
		rpass = pass[i]
		var named []string
		for _, l := range strings.Split(out, "\n") {
			if strings.Contains(l, "not present for a") {
				named = append(named, l)
			}
		}
		says := func(u string) bool {
			for _, l := range named {
				if strings.Contains(l, `"user/`+u+`"`) {
					return true
				}
			}
			return false
		}
		for _, u := range us {
			if says(u.Name) {
				t.Fail("a sync says that %q missed the rekey, who did not: %q", u.Name, named)
			}
		}
		for _, f := range []string{files[i], remote} {
			b := mustRead(t, f)
			for _, u := range us {
				p := u.Pass
				if rpass != "ann pw" {
					p = rekeyed[u.Name]
				}
				if _, err := fOpen(b, u.Name, p); err != nil {
					t.Fail("after sync %d %s does not open for %q: %v", k+1, f, u.Name, err)
				}
			}
			for n, p := range added {
				if _, err := fOpen(b, n, p); err != nil && k == 1 && !says(n) {
					t.Fail("sync left %q, added meanwhile, locked out after a full rekey and did not say so; it said %q", n, named)
				} else if err == nil && says(n) {
					t.Fail("sync says that %q is locked out, who is not", n)
				}
				t.Count("added_users_judged", 1)
			}
		}
	}
	// a new passphrase lets them in again
	s := NewSession("ann", rekeyed["ann"])
	for n := range added {
		added[n] += "2"
		s.Cmd("rekey "+n, "m", added[n], added[n])
	}
	run(order[2], s, true)
	for _, f := range []string{files[order[2]], remote} {
		for n, p := range added {
			if _, err := fOpen(mustRead(t, f), n, p); err != nil {
				t.Fail("%q got a new passphrase after the rekey and %s does not open with it: %v", n, f, err)
			}
		}
		_, v := openDB2(t, f, "ann", rekeyed["ann"])
		if v[v.byName()["canary"]]["k"] != "v0" {
			t.Fail("an entry is lost: %q", v[v.byName()["canary"]])
		}
	}
	t.Eval(fmt.Sprint(len(us), len(added), order, r.Int63()))
	t.Sample(t.notes)
}

func openDB2(t *T, f, u, p string) (*mDB, mView) {
	db, _ := openDB(t, f, u, p)
	return db, checkStored(t, f, db)
}

func merge2(ms ...map[string]bool) map[string]bool {
	o := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			o[k] = true
		}
	}
	return o
}

func init() {
	register(&Check{
		ID:          "C14",
		Rule:        "Random sequences of adduser, passwd, rekey, rekeyall, rm and mv on users over one to three sessions by different users; after each session every user name ever seen is tried with every passphrase ever used against the stored file by an independent implementation of the format, and the number and owners of the user slots are compared. Non-trivial: every case; distinct by command sequence.",
		Assumptions: []string{"scrypt is replaced by a fast keyed hash in these sessions (C02 and C04 use the real one)"},
		Run:         func(c *Ctx) { c.Cases("sessions", c.N(2400, 30000), c14case) },
	})
	register(&Check{
		ID:          "C13",
		Rule:        "Two copies of a single- or multi-user file and one remote; one side's credentials change (passphrase, rekey, full rekey, users added, last user leaving, single to multi), the other side edits or not, then both synchronise in either order, answering the questions about the remote. Every known credential is tried against every file. Non-trivial: every case; distinct by kind of change, order and edits.",
		Assumptions: []string{"credentials change on one side only between syncs", "one remote"},
		Run: func(c *Ctx) {
			c.Cases("pairs", c.N(800, 14000), c13case)
			c.Cases("twins", c.N(80, 1600), c13dup)
			c.Cases("rekeyed", c.N(120, 2400), c13rekeyed)
		},
	})
}
