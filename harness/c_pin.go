package main

import (
	"bytes"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strings"
)

// ---- C27: pinentry ----

// genPin makes a passphrase. valid: it has to be UTF-8.
func genPin(t *T, valid bool) string {
	r := t.R
	var s string
	switch r.Intn(10) {
	case 0:
		s = strings.Repeat(pick(r, "x", "%", "é", "%25", " ", "\n", "ab"), 1+r.Intn(6000))
	case 1:
		s = pick(r, "%", "%%", "%25", "%2", "%0A", "%0a", "%zz", "100%", "a%", "%41", "D x", "OK", "ERR 83886179 Operation cancelled <Pinentry>", "\r", "\n", "\r\n", " ", "  ", "\t", "D ", "# x", "\nOK\n", "BYE", "none", "%00", "\x1b[A", "\x7f", "\u2028")
	case 2:
		s = pick(r, " ", "\t", "\n", "\r", "%", "\x01") + genText(r, 20) + pick(r, " ", "\t", "\n", "\r", "%", "%2", "\x04")
	case 3:
		b := t.bytes(1 + r.Intn(40))
		if valid {
			b = []byte(strings.ToValidUTF8(string(b), "?"))
		}
		s = string(b)
	case 4:
		for i := r.Intn(12); i >= 0; i-- {
			s += pick(r, "%", "2", "5", "0", "A", "D", "a", "d", "\n", "\r", " ", "é")
		}
	default:
		s = genText(r, 40)
	}
	s = strings.ReplaceAll(s, "\x00", "0")
	if s == "" {
		s = "%"
	}
	return s
}

// pinData is one of the many correct ways to send a passphrase.
func pinData(t *T, p string) []byte {
	r := t.R
	var out bytes.Buffer
	line := 0
	max := []int{1, 5, 40, 300, 990}[r.Intn(5)]
	if len(p) > 500 {
		max = 990
	}
	esc := []int{0, 0, 2, 20}[r.Intn(4)] // percentage of characters escaped without need
	low := r.Intn(3) == 0
	for i := 0; i < len(p); i++ {
		if line == 0 {
			out.WriteString("D ")
		}
		c := p[i]
		if c == '%' || c == '\r' || c == '\n' || r.Intn(100) < esc {
			f := "%%%02X"
			if low {
				f = "%%%02x"
			}
			fmt.Fprintf(&out, f, c)
			line += 3
		} else {
			out.WriteByte(c)
			line++
		}
		if line >= max || r.Intn(60) == 0 {
			out.WriteString("\n")
			line = 0
		}
	}
	if line > 0 {
		out.WriteString("\n")
	}
	out.WriteString("OK\n")
	return out.Bytes()
}

func goodPin(t *T, p string) PinAnswer {
	a := PinAnswer{Pin: []byte(p)}
	if t.R.Intn(3) > 0 {
		a.Replies = map[string][]byte{"GETPIN": pinData(t, p)}
	}
	switch t.R.Intn(12) {
	case 0:
		a.Linger = true
	case 1:
		a.Flood = 8 << t.R.Intn(16)
	}
	return a
}

// badPin does not give a passphrase; p is what a careless reader might take for it.
func badPin(t *T, p string) (a PinAnswer, what string) {
	r := t.R
	data := pinData(t, p)
	noOK := data[:len(data)-3]
	words := []string{"SETTITLE", "SETDESC", "OPTION", "GETPIN"}
	rep := func(w string, b string) {
		a.Replies = map[string][]byte{w: []byte(b)}
		if w != "GETPIN" {
			a.Replies["GETPIN"] = data
		}
	}
	errs := []string{"ERR 83886194 No pinentry <Pinentry>\n", "ERR 83886142 Timeout <Pinentry>\n", "ERR\n", "ERR 1\n", "BYE\n", "NOTOK\n", "ok\n", "\n", "OKAY\n", "INQUIRE X\n", "\x00\x01\xff\n", "Traceback (most recent call last):\n"}
	e := errs[r.Intn(len(errs))]
	switch r.Intn(14) {
	case 0:
		a.Quit, what = "start", "ends at once"
	case 1:
		a.Quit = words[r.Intn(4)]
		what = "ends at " + a.Quit
	case 2:
		rep("", pick(r, e, "Segmentation fault\n", " OK Pleased to meet you\n"))
		what = "odd greeting"
	case 3:
		w := words[r.Intn(3)]
		rep(w, e)
		what = "refuses " + w
	case 4:
		rep("GETPIN", e)
		what = "refuses GETPIN"
	case 5:
		rep("GETPIN", string(noOK)+pick(r, errs...))
		what = "data, then an error"
	case 6:
		rep("GETPIN", string(noOK)+"ERR 83886179 Operation cancelled <Pinentry>\n")
		what = "data, then cancelled"
	case 7:
		rep("GETPIN", string(noOK))
		a.EndPin, what = true, "data, then the end"
	case 8:
		rep("GETPIN", string(data[:r.Intn(len(data)-1)]))
		a.EndPin, what = true, "cut reply"
	case 9:
		rep("GETPIN", "D "+pick(r, "%", "a%", "%4", "a%4", "%zz", "%4g", "x%%25", "% 1", "%-1", "%+1", "%é", p+"%q1")+"\nOK\n")
		if strings.ContainsAny(p, "\r\n") || len(p) > 900 {
			rep("GETPIN", "D "+pick(r, "%", "%0", "b%x0")+"\nOK\n")
		}
		what = "malformed escape"
	case 10:
		rep("GETPIN", "D "+strings.Repeat("x", 70000))
		a.EndPin, what = true, "endless line"
	case 11:
		rep("GETPIN", string(t.bytes(1+r.Intn(300)))+"\n")
		what = "junk"
	case 12:
		rep("GETPIN", pick(r, "D"+p, "d "+p, "DATA "+p, p, "D\t"+p, " D "+p)+"\nOK\n")
		what = "not a data line"
		if strings.ContainsAny(p, "\r\n") {
			rep("GETPIN", "password\nOK\n")
		}
	case 13:
		a.Exit, a.Quit, what = 1+r.Intn(200), words[r.Intn(4)], "fails"
		if r.Intn(3) == 0 {
			a.Kill = true
		}
	}
	return a, what
}

// eitherPin may be taken as p or as an error.
func eitherPin(t *T, p string) (a PinAnswer, what string) {
	r := t.R
	data := pinData(t, p)
	a.Replies = map[string][]byte{"GETPIN": data}
	switch r.Intn(8) {
	case 0:
		a.Replies["GETPIN"] = append([]byte(pick(r, "S PASSWORD_FROM_CACHE\n", "S PIN_REPEATED\n", "# comment\n", "#\n")), data...)
		what = "status line"
	case 1:
		a.Exit, what = 1+r.Intn(200), "fails at the end"
	case 2:
		a.Kill, what = true, "killed at the end"
	case 3:
		a.Replies["GETPIN"] = append(data[:len(data)-3:len(data)-3], "OK fine\n"...)
		what = "OK with text"
	case 4:
		a.Replies["SETDESC"] = []byte("OK with text\n")
		what = "OK with text to SETDESC"
	case 5:
		a.Replies[""] = []byte(pick(r, "OK Pleased to meet you, process 123\n", "OK\n", "# hello\nOK Pleased to meet you\n"))
		what = "other greeting"
	case 6:
		a.EndPin, what = true, "ends after GETPIN"
	case 7:
		a.Replies["BYE"] = []byte(pick(r, "", "ERR 1 no\n", "\x00", "OK"))
		what = "odd farewell"
	}
	return a, what
}

var pinScenes = []string{"create", "open", "open multi-user", "passwd", "adduser", "set", "sync"}

// c27scene runs one scene with the answers; k is the index of the pin to be replaced (-1: none) by a.
// It reports whether the passphrase was taken.
func c27scene(t *T, scene string, odd func(i int, p string) (PinAnswer, bool)) (took, replaced, cleared bool, p string) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/" + pick(r, "f", "f", "100%", "a%0Ab%", "new\nline", "tab\tx", "ünï", " sp ", "GETPIN", "x\nGETPIN", "%41")
	old := genPin(t, false)
	p = genPin(t, scene == "set")
	for p == old || strings.TrimRight(p, "0") == strings.TrimRight(old, "0") {
		p = genPin(t, scene == "set") + "y"
	}
	g := newLogGen(r, 1571887976e9, 5e12)
	u := g.add("e")
	g.set(u, "pass", "before")
	var pins []PinAnswer
	add := func(q string, mayReplace bool) {
		if mayReplace && odd != nil {
			if a, ok := odd(len(pins), q); ok {
				pins = append(pins, a)
				replaced = true
				return
			}
		}
		pins = append(pins, goodPin(t, q))
	}
	var s *Script
	rem, remName := dir+"/rem", ""
	user := ""
	switch scene {
	case "create":
		s = NewSession()
		add(p, true)
		add(p, true)
		s.Cmd("ls")
	case "open":
		craft(t, f, p, g.log)
		s = NewSession()
		add(p, true)
		s.Cmd("set e k v")
	case "open multi-user", "adduser":
		pw := p
		if scene == "adduser" {
			pw = old
		}
		mu := newMulti(t, []fUserCred{{Name: "ann", Pass: pw}}, 1571887970e9)
		mustWriteFile(f, fWriteMulti(mu.users, mu.master, mu.ivm, (&mDB{Log: append(append([]mTx{}, mu.log...), g.log...)}).encode()))
		s = NewSession("ann")
		add(pw, scene != "adduser")
		user = "ann"
		if scene == "adduser" {
			add(p, true)
			add(p, true)
			s.Cmd("adduser bob", "m")
		} else {
			s.Cmd("set e k v")
		}
	case "passwd":
		craft(t, f, old, g.log)
		s = NewSession()
		add(old, false)
		add(p, true)
		add(p, true)
		s.Cmd("passwd", "m")
	case "set":
		craft(t, f, old, g.log)
		s = NewSession()
		add(old, false)
		add(p, true)
		add(p, true)
		s.Cmd("set e pass", "m")
	case "sync":
		remName = pick(r, "sync/r", "sync/r", "sync/100%", "sync/a%0Ab%", "sync/%41", "sync/ünï", "sync/new\nline", "sync/a b", "sync/x\nGETPIN\n")
		y := g.add(remName)
		g.set(y, "url", "file://"+rem)
		auto := strings.ContainsAny(remName, " \n") // cannot be typed
		g.set(y, "sync", fmt.Sprint(auto))
		craft(t, f, old, g.log)
		g.add("onlyremote")
		craft(t, rem, p, g.log)
		s = NewSession()
		add(old, false)
		add(p, true)
		if auto {
			s.Cmd("ls")
		} else {
			s.Cmd("sync " + remName)
		}
	}
	var before, beforeRem []byte
	before, _ = os.ReadFile(f)
	beforeRem, _ = os.ReadFile(rem)
	se := &Sess{Dir: dir, File: f, Input: s.String(), Pins: pins}
	if r.Intn(6) == 0 {
		se.Env = append(se.Env, "PINENTRY=") // found on the path
	}
	if r.Intn(6) == 0 {
		se.Env = append(se.Env, "DISPLAY=:0")
	}
	if r.Intn(10) == 0 {
		se.Env = append(se.Env, "TERM=")
	}
	t.Set("scene", scene)
	t.Set("passphrase", p)
	t.Set("old", old)
	t.Set("file", f)
	t.Set("pins", pins)
	res := se.Run(t)
	t.Set("output", tail(res.Out, 1500))
	t.Count("dialogues", len(res.Events))
	if c := res.Crashed(); c != "" {
		t.Fail("%s: crash: %s", scene, c)
	}
	c27asked(t, scene, f, remName, se, res, odd != nil)
	after, err := os.ReadFile(f)
	opens := func(user, pass string) bool {
		_, err := fOpen(after, user, pass)
		return err == nil
	}
	fails := func(what string) {
		t.Fail("%s: %s\noutput: %s\nstderr: %s", scene, what, tail(res.Out, 600), tail(res.Err, 200))
	}
	switch scene {
	case "create":
		if err == nil && !opens("", p) {
			fails("the new file does not open with the passphrase that was entered")
		}
		took = err == nil
	case "open", "open multi-user":
		if !opens(user, p) {
			fails("the file no longer opens with its passphrase")
		}
		took = !bytes.Equal(after, before)
		if !took && res.Code == 0 {
			fails("the session neither opened the file nor failed")
		}
	case "passwd":
		took = opens("", p)
		if took == opens("", old) {
			fails("the file opens with both or none of the passphrases")
		}
	case "adduser":
		if !opens("ann", old) {
			fails("the file no longer opens for its first user")
		}
		took = opens("bob", p)
		if v, _ := openView(t, f, "ann", old); !took {
			for _, e := range v {
				if e["name"] == "user/bob" {
					fails("bob was added, but not with the passphrase that was entered")
				}
			}
		}
	case "set":
		v, _ := openView(t, f, "", old)
		cleared = v[u]["pass"] == ""
		switch got := v[u]["pass"]; got {
		case p:
			took = true
		case "before", "":
		default:
			fails(fmt.Sprintf("the password became %q, entered was %q", tail(got, 200), tail(p, 200)))
		}
	case "sync":
		pw := old
		if opens("", p) {
			pw = p
		}
		v, _ := openView(t, f, "", pw)
		for _, e := range v {
			took = took || e["name"] == "onlyremote"
		}
		if b, _ := os.ReadFile(rem); !took && !bytes.Equal(b, beforeRem) {
			fails("the remote was changed although it could not be opened")
		} else if _, err := fOpen(b, "", p); err != nil {
			if _, err := fOpen(b, "", old); err != nil {
				fails("the remote opens with none of the passphrases")
			}
		}
	}
	if took && res.Code != 0 && odd == nil {
		fails(fmt.Sprintf("exit status %d", res.Code))
	}
	return took, replaced, cleared, p
}

// c27asked checks what the dialogues said and were told.
func c27asked(t *T, scene, f, remName string, se *Sess, res *Result, odd bool) {
	text := func(s string) string { // the protocol's escapes
		u, err := url.PathUnescape(s)
		if err != nil {
			t.Fail("%s: badly escaped description %q", scene, s)
		}
		return u
	}
	term, display := "dumb", ""
	for _, e := range se.Env {
		switch {
		case strings.HasPrefix(e, "TERM="):
			term = e[5:]
		case strings.HasPrefix(e, "DISPLAY="):
			display = e[8:]
		}
	}
	n := 0
	for _, e := range res.Events {
		if e.Prog != "pinentry" {
			continue
		}
		if n < len(se.Pins) && (se.Pins[n].Replies != nil || se.Pins[n].Quit != "") && e.Note == "" {
			n++
			continue // noted before it was asked
		}
		want := ""
		switch {
		case scene == "open" || scene == "open multi-user":
			want = filepath.Base(f)
		case scene == "sync" && n == 0:
			want = filepath.Base(f)
		case scene == "sync" && !odd:
			want = remName
		}
		d := text(e.Note)
		if !strings.Contains(d, want) || strings.TrimSpace(d) == "" {
			t.Fail("%s: dialogue %d asks %q, which does not name %q", scene, n, d, want)
		}
		t.Count("dialogue_texts", 1)
		n++
		if odd {
			continue
		}
		for _, o := range [][2]string{{"display ", display}, {"ttytype ", term}} {
			got := ""
			for _, a := range e.Args {
				if strings.HasPrefix(a, o[0]) {
					got = a[len(o[0]):]
				}
			}
			if got != o[1] {
				t.Fail("%s: the dialogue was given %s%q, want %q", scene, o[0], got, o[1])
			}
		}
	}
}

func c27typed(t *T) {
	scene := pinScenes[t.Case%len(pinScenes)]
	took, _, _, p := c27scene(t, scene, nil)
	if !took {
		t.Fail("%s: the passphrase %q was not taken\n%v", scene, tail(p, 300), t.data["output"])
	}
	t.Count("typed_"+strings.ReplaceAll(strings.ReplaceAll(scene, " ", "_"), "-", "_"), 1)
	t.Eval(scene + p)
}

func c27odd(t *T) {
	r := t.R
	scene := pinScenes[t.Case%len(pinScenes)]
	which := r.Intn(2)
	kind := r.Intn(8)
	what := ""
	n := 0
	var bad PinAnswer
	took, replaced, cleared, p := c27scene(t, scene, func(i int, p string) (a PinAnswer, ok bool) {
		n++
		if n-1 != which && !(n == 1 && scene != "create" && scene != "passwd" && scene != "adduser" && scene != "set") && kind != 1 && kind != 4 {
			return a, false
		}
		switch kind {
		case 0, 1: // cancelled, the second one in both dialogues
			what = "cancelled"
			return PinAnswer{Cancel: true}, true
		case 2, 3:
			a, what = eitherPin(t, p)
			what = "either: " + what
			return a, true
		}
		if kind != 4 || n == 1 {
			bad, what = badPin(t, p)
		}
		return bad, true
	})
	t.Set("what", what)
	if replaced && took && !strings.HasPrefix(what, "either") {
		t.Fail("%s: a passphrase was taken although the pinentry program gave none (%s)", scene, what)
	}
	if !replaced && !took {
		t.Fail("%s: %q was not taken", scene, p)
	}
	if replaced && cleared && what != "cancelled" {
		t.Fail("%s: the password was removed by a failing pinentry program (%s)", scene, what)
	}
	t.Count("odd_dialogues", 1)
	t.Eval(scene + what + p)
}

// c27missing: programs that cannot be run.
func c27missing(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 5e12)
	g.add("e")
	craft(t, f, "pw", g.log)
	before := mustRead(t, f)
	prog := dir + "/pin"
	fallback := false
	switch r.Intn(6) {
	case 0:
	case 1:
		os.Mkdir(prog, 0700)
	case 2:
		mustWriteFile(prog, []byte("#!/no/such/interpreter\n"))
		os.Chmod(prog, 0700)
	case 3:
		mustWriteFile(prog, t.bytes(200))
		os.Chmod(prog, 0700)
	case 4:
		prog = "no-such-program"
	case 5:
		prog, fallback = pick(r, "none", "NONE", "None"), true
	}
	s := NewSession("pw")
	s.Cmd("set e k v")
	res := (&Sess{Dir: dir, File: f, Input: s.String(), Env: []string{"PINENTRY=" + prog}}).Run(t)
	if c := res.Crashed(); c != "" {
		t.Fail("crash: %s", c)
	}
	same := bytes.Equal(before, mustRead(t, f))
	if fallback && (same || res.Code != 0) {
		t.Fail("PINENTRY=%s: the typed passphrase was not taken: %s", prog, tail(res.Out, 300))
	}
	if !fallback && res.Code == 0 && same {
		t.Fail("PINENTRY=%s: neither opened nor an error: %s", prog, tail(res.Out, 300))
	}
	t.Count("missing_programs", 1)
	t.Eval(prog[strings.LastIndex(prog, "/")+1:] + fmt.Sprint(t.Case))
}

func init() {
	register(&Check{ID: "C27",
		Rule:        "what a stand-in pinentry program sent against the passphrase that opens the file afterwards, in every dialogue of the program; what the dialogue was told to ask; odd programs never give a passphrase",
		Assumptions: []string{"passphrases have no NUL bytes", "a pinentry program that stays silent, or never ends after the passphrase, is waiting for its user"},
		Run: func(c *Ctx) {
			c.Cases("typed", c.N(1800, 20000), c27typed)
			c.Cases("odd", c.N(2200, 25000), c27odd)
			c.Cases("missing", c.N(150, 1000), c27missing)
		}})
}
