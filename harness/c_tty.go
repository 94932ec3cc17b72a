package main

import (
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// A program at a terminal: everything it is told comes after the prompt it waits for, as from a user.

type Term struct {
	t      *T
	m, s   *os.File
	cmd    *exec.Cmd
	logf   string
	mu     sync.Mutex
	raw    []byte
	done   chan struct{} // the process has ended
	mark   int           // transcript length when the last input was given
	needNL bool          // that input ended a line
	before syscall.Termios
}

func termios(f *os.File) (tio syscall.Termios) {
	syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&tio)))
	return tio
}

var csi = regexp.MustCompile("\x1b\\[[0-9;?]*[A-Za-z]|\x1b[=>]|[\r\a\x00]| \x08")

// startTerm starts a session at a terminal that has been set up by setup and is cols wide.
func startTerm(t *T, se *Sess, cols int, setup func(*syscall.Termios)) *Term {
	m, s, err := openPTY()
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	x := &Term{t: t, m: m, s: s, done: make(chan struct{})}
	tio := termios(s)
	tio.Iflag |= syscall.ICRNL | syscall.IXON
	tio.Lflag |= syscall.ICANON | syscall.ECHO | syscall.ISIG | syscall.IEXTEN
	if setup != nil {
		setup(&tio)
	}
	syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), syscall.TCSETS, uintptr(unsafe.Pointer(&tio)))
	ws := [4]uint16{40, uint16(cols), 0, 0}
	syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
	x.before = termios(s)
	se.TTY = true
	x.cmd, x.logf = se.command(t)
	x.cmd.Stdin, x.cmd.Stdout, x.cmd.Stderr = s, s, s
	x.cmd.SysProcAttr = ttyAttr
	if err := x.cmd.Start(); err != nil {
		panic(inconclusive(err.Error()))
	}
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := m.Read(buf)
			x.mu.Lock()
			x.raw = append(x.raw, buf[:n]...)
			x.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	go func() { x.cmd.Wait(); close(x.done) }()
	t.Count("terminal_sessions", 1)
	return x
}

// All is the transcript so far without cursor movements.
func (x *Term) All() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return csi.ReplaceAllString(string(x.raw), "")
}

func (x *Term) since(mark int) string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return csi.ReplaceAllString(string(x.raw[mark:]), "")
}

func (x *Term) len() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.raw)
}

func (x *Term) ended() bool {
	select {
	case <-x.done:
		return true
	default:
		return false
	}
}

// Wait waits for the program to ask with one of the prompts; the result is the one seen, "" if the program has ended.
func (x *Term) Wait(prompts ...string) string {
	deadline := time.Now().Add(120 * time.Second)
	for {
		over := x.ended()
		out := x.since(x.mark)
		if x.needNL {
			if i := strings.IndexByte(out, '\n'); i >= 0 {
				out = out[i+1:]
			} else {
				out = ""
			}
		}
		if termios(x.s).Lflag&syscall.ECHO == 0 { // it listens
			for _, p := range prompts {
				if strings.HasSuffix(out, p) {
					return p
				}
			}
		}
		if over {
			return ""
		}
		if time.Now().After(deadline) {
			x.kill()
			panic(inconclusive(fmt.Sprintf("no prompt %q after 120 s: %q", prompts, tail(x.All(), 600))))
		}
		time.Sleep(500 * time.Microsecond)
	}
}

// Type gives input as it is.
func (x *Term) Type(s string) {
	x.mark = x.len()
	x.needNL = strings.HasSuffix(s, "\r") || strings.HasSuffix(s, "\n")
	x.m.WriteString(s)
}

// Settle waits until the terminal shows nothing new for a while.
func (x *Term) Settle(cond func(out string) bool) bool {
	return x.SettleFor(4*time.Second, cond)
}

func (x *Term) SettleFor(d time.Duration, cond func(out string) bool) bool {
	for deadline := time.Now().Add(d); time.Now().Before(deadline); {
		if cond(x.since(x.mark)) {
			return true
		}
		if x.ended() {
			return cond(x.since(x.mark))
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func (x *Term) kill() {
	if x.cmd.Process != nil {
		x.cmd.Process.Kill()
	}
	<-x.done
	x.close()
}

func (x *Term) close() {
	time.Sleep(time.Millisecond)
	x.m.Close()
	x.s.Close()
}

// End waits for the end of the program; the result is its exit status.
func (x *Term) End() int {
	select {
	case <-x.done:
	case <-time.After(120 * time.Second):
		out := x.All()
		x.kill()
		panic(inconclusive("the terminal session did not end: " + tail(out, 600)))
	}
	// what it wrote last
	for n := -1; n != x.len(); time.Sleep(2 * time.Millisecond) {
		n = x.len()
	}
	return x.cmd.ProcessState.ExitCode()
}

func isTTY(f *os.File) bool {
	var tio syscall.Termios
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&tio)))
	return e == 0
}

// ---- C33 ----

const rareRunes = "ÞßæðŁħŧŋđĸØŒœŦ" // nothing else in these sessions has them

type c33case struct {
	*Term
	log     []string
	secrets []string // may never be seen
	prompt  string
}

func c33secret(t *T) string {
	rs := []rune(rareRunes)
	var b strings.Builder
	plain := t.R.Intn(2) == 0
	for i := 3 + t.R.Intn(10); i > 0; i-- {
		b.WriteRune(rs[t.R.Intn(len(rs))])
		if plain && t.R.Intn(2) == 0 {
			b.WriteString(pick(t.R, "a", "b", "7", " ", "%", "Z", "\"", "x y"))
		}
	}
	b.WriteRune(rs[t.R.Intn(len(rs))])
	if plain && t.R.Intn(3) == 0 {
		return pick(t.R, " ", "") + b.String() + pick(t.R, " ", "  ")
	}
	return b.String()
}

// seen reports a rune of a secret in the transcript.
func (x *c33case) seen(what string) {
	out := x.All()
	if i := strings.IndexAny(out, rareRunes); i >= 0 {
		lo := i - 300
		if lo < 0 {
			lo = 0
		}
		hi := i + 80
		if hi > len(out) {
			hi = len(out)
		}
		x.Term.kill()
		x.t.Fail("%s: hidden input can be read on the terminal: ...%q...\nsteps: %v", what, out[lo:hi], x.log)
	}
}

// hide types a secret at the hidden prompt the program is at, in one of many ways, without the end of the line.
func (x *c33case) hide(s string) {
	r := x.t.R
	rs := []rune(s)
	switch r.Intn(5) {
	case 0: // at once
		x.Type(s)
	case 1: // in pieces
		for len(rs) > 0 {
			n := 1 + r.Intn(len(rs))
			x.Type(string(rs[:n]))
			rs = rs[n:]
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		}
	case 2: // mistyped
		i := r.Intn(len(rs) + 1)
		x.Type(string(rs[:i]) + "Þq" + pick(r, "\x7f\x7f", "\x08\x08", "\x08\x7f") + string(rs[i:]))
	case 3: // its beginning last
		x.Type(string(rs[1:]) + "\x01" + string(rs[0]) + "\x05")
	default: // with keys that do nothing at such a prompt
		i := r.Intn(len(rs) + 1)
		x.Type(string(rs[:i]) + "\x1b[C\x1b[A\x1b[B" + string(rs[i:]))
	}
}

// must waits for a prompt and fails if the program ends instead.
func (x *c33case) must(prompts ...string) string {
	p := x.Wait(prompts...)
	if p == "" {
		x.t.Fail("the session ended (%d) instead of asking %q\nsteps: %v\n%s", x.End(), prompts, x.log, tail(x.All(), 1500))
	}
	return p
}

func (x *c33case) do(s string) {
	x.log = append(x.log, s)
	x.Type(s + x.enter())
}

func (x *c33case) enter() string { return pick(x.t.R, "\r", "\r", "\n") }

// wizard enters a password by hand; shown: the program prints it in the end.
func (x *c33case) wizard(s string, shown bool) {
	x.must("?> ")
	if x.t.R.Intn(4) == 0 {
		x.do("m")
		x.must("password: ")
		x.hide(s + "Þ")
		x.Type(x.enter())
		x.must("password: ")
		x.hide(s)
		x.Type(x.enter())
		x.must("?> ")
	}
	x.do("m")
	x.must("password: ")
	x.hide(s)
	x.Type(x.enter())
	x.must("password: ")
	x.seen("after the first entry")
	if !shown {
		x.hide(s)
		x.Type(x.enter())
		return
	}
	x.Type(s)
	time.Sleep(3 * time.Millisecond)
	x.seen("during the second entry")
	x.Type(x.enter())
}

// recall looks for hidden input in what the keys of the line editor bring back.
func (x *c33case) recall() {
	r := x.t.R
	keys := ""
	for i := 1 + r.Intn(6); i > 0; i-- {
		keys += pick(r, "\x1b[A", "\x1b[A", "\x10", "\x1b[B")
	}
	x.Type(keys + "\x05\x15")
	if r.Intn(2) == 0 {
		x.Type("\x12" + pick(r, "a", "b", "7", " ", "l", "s") + pick(r, "", "\x12", "\x12\x12") + "\x07")
		time.Sleep(2 * time.Millisecond)
		x.Type("\x05\x15")
	}
	x.log = append(x.log, "recall")
	x.do("zzsentinel")
	x.must("> ")
	x.t.Count("recalls", 1)
}

func c33run(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 1000)
	e := g.add("web/site")
	g.set(e, "notes", "some text")
	pass := c33secret(t)
	kind := pick(r, "single", "single", "multi", "multi", "new")
	users := map[string]string{"": pass}
	// a remote that other people changed the passphrase of
	var remotePass string
	var remote string
	flags := []string{"--no-sync"}
	if kind != "new" && r.Intn(3) == 0 {
		remote = dir + "/r"
		remotePass = c33secret(t)
		u := g.add("zz/remote")
		g.set(u, "url", "file://"+remote)
		if r.Intn(2) == 0 {
			g.set(u, "sync", "true")
			flags = nil
		}
		fork := append([]mTx{}, g.log...)
		fork = append(fork, mTx{1571889976e9, "setk", e, "notes", "other text"})
		craft(t, remote, remotePass, fork)
	}
	switch kind {
	case "single":
		craft(t, f, pass, g.log)
	case "multi":
		users = map[string]string{"ann": pass, "bob": c33secret(t)}
		m := newMulti(t, []fUserCred{{Name: "ann", Pass: pass}, {Name: "bob", Pass: users["bob"]}}, 1571887970e9)
		m.write(f, append(append([]mTx{}, m.log...), g.log...))
	}
	old, _ := os.ReadFile(f)
	setup := func(tio *syscall.Termios) {
		for _, b := range []uint32{syscall.ISIG, syscall.ICANON, syscall.IEXTEN} {
			if r.Intn(8) == 0 {
				tio.Lflag &^= b
			}
		}
		if r.Intn(4) == 0 {
			tio.Iflag &^= syscall.IXON
		}
		if r.Intn(8) == 0 {
			tio.Iflag ^= syscall.IXANY | syscall.INLCR
		}
		if r.Intn(8) == 0 {
			tio.Lflag &^= syscall.ECHO
		}
		tio.Cc[syscall.VERASE] = byte(pick(r, "\x7f", "\x08")[0])
		if r.Intn(8) == 0 {
			tio.Cc[syscall.VMIN] = byte(r.Intn(5))
			tio.Cc[syscall.VTIME] = byte(r.Intn(5))
		}
	}
	se := &Sess{Dir: dir, File: f, Args: flags, Color: r.Intn(3) == 0, Env: []string{"TERM=" + pick(r, "dumb", "xterm", "xterm-256color")}}
	edits := 0
	for i := 0; i < 8; i++ {
		se.Edits = append(se.Edits, EditAction{Write: []byte("edited\n")})
	}
	x := &c33case{Term: startTerm(t, se, []int{400, 400, 80, 40, 132}[r.Intn(5)], setup)}
	defer func() {
		select {
		case <-x.done:
		default:
			x.Term.kill()
		}
		x.close()
	}()
	if len(x.rawCopy()) > 1<<20 {
		return
	}
	// how it is to end
	end := pick(r, "exit", "exit", "exit", "ctrl-d", "ctrl-c", "hidden ctrl-c", "hidden ctrl-d", "wrong", "open ctrl-c", "open ctrl-d")
	x.log = append(x.log, kind, "end: "+end)
	saved, opened := true, true
	if kind == "multi" {
		x.must("user: ")
		x.do("ann")
	}
	x.must("passphrase: ")
	switch end {
	case "wrong":
		opened, saved = false, false
		x.hide(pass + "ß")
		x.Type(x.enter())
		if kind == "new" {
			x.must("passphrase: ")
			x.hide(pass)
			x.Type(x.enter())
			t.Count("new_passphrase_mismatches", 1)
		}
	case "open ctrl-c":
		opened, saved = false, false
		x.hide(pass)
		x.Type("\x03")
	case "open ctrl-d":
		opened, saved = false, false
		if kind == "new" && r.Intn(2) == 0 {
			x.hide(pass)
			x.Type(x.enter())
			x.must("passphrase: ")
		}
		x.Type("\x04")
	default:
		x.hide(pass)
		x.Type(x.enter())
		if kind == "new" {
			x.must("passphrase: ")
			x.hide(pass)
			x.Type(x.enter())
		}
	}
	stored := map[string]string{} // passwords by entry
	synced := false
	// the remote's prompts
	sync := func() {
		p := x.must("passphrase: ", "user: ", ")> ")
		if p == "user: " { // its own user is not known there: a single-user remote of a multi-user file asks for none
			x.do("ann")
			p = x.must("passphrase: ", ")> ")
		}
		if p != "passphrase: " {
			return
		}
		for n := r.Intn(4) - 1; n > 0; n-- {
			x.hide(c33secret(t)) // not the one
			x.Type(x.enter())
			x.must("passphrase: ")
			t.Count("wrong_remote_passphrases", 1)
		}
		x.hide(remotePass)
		x.Type(x.enter())
		for i := 0; i < 3; i++ {
			p = x.must("passphrase: ", "(y/n): ", "user: ", ")> ")
			switch p {
			case "(y/n): ":
				x.do("n") // keep the passphrase of this file
			case "passphrase: ":
				x.Type(x.enter())
			case "user: ":
				x.do("ann")
			default:
				synced = true
				return
			}
		}
	}
	auto := opened && remote != "" && flags == nil
	if auto {
		sync()
	}
	var shownLater []string
	if opened {
		x.must(")> ")
		n := r.Intn(6)
		for i := 0; i < n; i++ {
			switch k := r.Intn(9); {
			case k == 0:
				x.do("ls")
				x.must("> ")
			case k == 1:
				name := fmt.Sprintf("new/e%d", i)
				x.do("add " + name)
				x.must("email: ")
				x.do("me@x")
				x.must("user: ")
				x.do("me")
				s := c33secret(t)
				x.wizard(s, false)
				x.must(")> ")
				stored[name] = s
			case k == 2:
				s := c33secret(t)
				x.do("passwd")
				x.wizard(s, false)
				x.must(")> ")
				if kind == "multi" {
					users["ann"] = s
				} else {
					users[""] = s
				}
			case k == 3 && kind == "multi":
				s := c33secret(t)
				x.do("rekey bob")
				x.wizard(s, false)
				x.must(")> ")
				users["bob"] = s
			case k == 4 && kind != "new":
				x.do("edit web/site notes")
				x.must(")> ")
				edits++
			case k == 5 && remote != "" && !synced && !auto:
				x.do("sync zz/remote")
				sync()
			case k == 6 && i == n-1:
				s := c33secret(t)
				if kind == "new" {
					x.do("ls")
					x.must(")> ")
					break
				}
				x.do("set web/site pass")
				x.wizard(s, true)
				x.must(")> ")
				stored["web/site"] = s
				shownLater = append(shownLater, s)
			default:
				x.recall()
			}
			if len(shownLater) == 0 {
				x.seen(fmt.Sprintf("step %d", i))
			}
		}
		if len(shownLater) == 0 {
			x.recall()
		}
		switch end {
		case "exit":
			x.do("exit")
		case "ctrl-d":
			x.Type("\x04")
		case "ctrl-c":
			saved = false
			x.Type(pick(r, "", "ls we") + "\x03")
		case "hidden ctrl-c", "hidden ctrl-d":
			saved = false
			x.do("passwd")
			x.must("?> ")
			x.do("m")
			x.must("password: ")
			if end == "hidden ctrl-c" {
				x.Type(c33secret(t) + "\x03")
			} else {
				x.Type("\x04")
			}
		}
	}
	auto2 := ""
	if opened && saved && auto {
		// leaving synchronises again
		auto2 = x.Wait("passphrase: ", "user: ")
		for i := 0; auto2 != "" && i < 6; i++ {
			if auto2 == "user: " {
				x.do("ann")
			} else {
				x.Type(x.enter())
			}
			auto2 = x.Wait("passphrase: ", "user: ", "(y/n): ")
			if auto2 == "(y/n): " {
				x.do("n")
				auto2 = x.Wait("passphrase: ", "user: ")
			}
		}
	}
	code := x.End()
	if len(shownLater) == 0 {
		x.seen("in the whole session")
	}
	if now := termios(x.s); now != x.before {
		t.Fail("the terminal was left with other settings after a session that ended by %s (status %d):\nbefore %+v\nafter  %+v\nsteps: %v", end, code, x.before, now, x.log)
	}
	for _, ev := range readEvents(x.logf) {
		if ev.Prog == "vedit" && ev.TTY != "" {
			edits--
			t.Count("editor_terminals", 1)
			if ev.TTY != fmt.Sprint(x.before) {
				t.Fail("the editor was given the terminal with other settings than the session was:\nbefore %v\neditor %v\nsteps: %v", x.before, ev.TTY, x.log)
			}
		}
	}
	if saved != (code == 0) && !(end == "wrong" && code != 0) {
		t.Fail("a session that ended by %s has exit status %d\nsteps: %v\n%s", end, code, x.log, tail(x.All(), 1200))
	}
	if !saved {
		b, _ := os.ReadFile(f)
		if string(b) != string(old) {
			t.Fail("a session that ended by %s changed the file\nsteps: %v", end, x.log)
		}
	} else {
		// a single-user file can take over the passphrase of the file it is synchronised with
		if p := users[""]; p != "" && (synced || auto) {
			b, _ := os.ReadFile(f)
			if _, err := fOpen(b, "", p); err != nil {
				users[""] = remotePass
			}
		}
		for u, p := range users {
			v, _ := openView(t, f, u, p)
			bn := v.byName()
			for n, s := range stored {
				if got := v[bn[n]]["pass"]; got != s {
					t.Fail("password of %q typed by hand at a terminal: stored %q, want %q\nsteps: %v", n, got, s, x.log)
				}
			}
		}
	}
	for _, l := range x.log {
		if l == "ls" && strings.Contains(x.All(), "> ls") {
			t.Count("echoed_commands", 1)
		}
	}
	t.Count("end_"+strings.ReplaceAll(end, " ", "_"), 1)
	t.Count("hidden_secrets", len(stored)+1)
	t.Count("terminal_bytes", x.len())
	t.Eval(fmt.Sprint(x.log, pass))
	if t.Case < 2 {
		t.Sample(map[string]interface{}{"steps": x.log, "transcript_tail": tail(x.All(), 300)})
	}
}

func (x *Term) rawCopy() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return string(x.raw)
}

func init() {
	register(&Check{ID: "C33",
		Rule:        "Sessions at a pseudo terminal that answer each prompt as it comes: passphrases and passwords entered at every hidden prompt in many ways (at once, in pieces, mistyped, with cursor keys), with recall and search keys in between, an external editor, syncs that ask for a passphrase, and ten ways to end. No character of a secret may ever be written to the terminal, the settings of the terminal must be the old ones for the editor and after the end, and the file must hold exactly what was typed. Non-trivial: every session; distinct by steps and passphrase.",
		Assumptions: []string{"input comes after its prompt: the terminal itself echoes what is typed ahead", "set and adduser print the password they have set: only what is shown before that is judged there", "killed and suspended sessions are not judged"},
		Run: func(c *Ctx) {
			c.Cases("hidden", c.N(1500, 12000), c33run)
		}})
}

// ---- C34 ----

type c34case struct {
	*Term
	names map[string]string // name → marker
	cur   string            // current entry
	hist  []string
	steps []string
	n     int
}

func (x *c34case) must(prompts ...string) string {
	p := x.Wait(prompts...)
	if p == "" {
		x.t.Fail("the session ended (%d) instead of asking %q\nsteps: %q\n%s", x.End(), prompts, x.steps, tail(x.All(), 1500))
	}
	return p
}

func (x *c34case) prompt() string {
	if x.cur != "" {
		return "f):" + x.cur + "> "
	}
	return "f)> "
}

// keys gives input in one or several pieces.
func (x *c34case) keys(s string) {
	r := x.t.R
	mark := x.len()
	for len(s) > 0 {
		n := len(s)
		if r.Intn(3) == 0 {
			n = 1 + r.Intn(n)
		}
		for n < len(s) && s[n]&0xc0 == 0x80 {
			n++
		}
		x.Type(s[:n])
		s = s[n:]
		if s != "" {
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
		}
	}
	x.mark = mark
}

// line gives keys that must amount to a line, which is run; the result is what it shows.
func (x *c34case) line(keys, want string) string {
	x.steps = append(x.steps, keys)
	x.keys(keys)
	before := x.prompt()
	c := strings.Fields(want)
	switch {
	case len(c) == 0:
	case c[0] == "cd" && len(c) == 1:
		x.cur = ""
	case c[0] == "cd":
		x.cur = c[1]
	case c[0] == "zzsentinel":
		if r := x.must(x.prompt()); r == "" {
			return ""
		}
		return x.since(x.mark)
	}
	x.needNL = true
	start, out := x.mark, ""
	look := func() bool { // is it the line?
		shown := ""
		if i := strings.LastIndex(out, before+want); i >= 0 {
			shown = out[i+len(before):]
			if j := strings.IndexByte(shown, '\n'); j >= 0 {
				shown = shown[:j]
			}
		}
		return strings.TrimRight(shown, " ") == strings.TrimRight(want, " ")
	}
	got := x.must(x.prompt(), "to proceed: ", "email: ")
	if strings.Contains(keys, "\t") && got == x.prompt() {
		// While a list is shown, a redraw ends with the prompt for a moment. Only an answer to a further line tells.
		asks := len(c) > 0 && (c[0] == "rm" || c[0] == "add")
		for i := 0; asks && i < 40 && got == x.prompt(); i++ {
			time.Sleep(50 * time.Millisecond)
			got = x.must(x.prompt(), "to proceed: ", "email: ")
		}
		if !asks {
			x.Type("zzsentinel\r")
			ok := x.SettleFor(120*time.Second, func(string) bool {
				out = x.since(start)
				i := strings.LastIndex(out, "zzsentinel")
				if i < 0 || !strings.HasSuffix(out, x.prompt()) || termios(x.s).Lflag&syscall.ECHO != 0 {
					return false
				}
				return strings.Contains(out[i:], "unknown command")
			})
			if !ok {
				if x.ended() {
					x.t.Fail("the session ended (%d)\nsteps: %q\n%s", x.End(), x.steps, tail(x.All(), 1500))
				}
				x.kill()
				panic(inconclusive(fmt.Sprintf("no answer to a further line: %q", tail(x.All(), 600))))
			}
			out = out[:strings.LastIndex(out, "zzsentinel")]
		}
	}
	if out == "" {
		out = x.since(start)
	}
	x.t.Count("lines_edited", 1)
	if !look() {
		x.Term.kill()
		x.t.Fail("the keys %q amount to another line than %q: ...%q\nnames %v, history %q\nsteps: %q", keys, want, tail(out, 1200), keysOf(x.names), x.hist, x.steps)
	}
	i := strings.LastIndex(out, before+want)
	if j := strings.IndexByte(out[i:], '\n'); j >= 0 && !strings.Contains(keys, "\t") {
		return out[i+j:]
	}
	return out
}

func keysOf(m map[string]string) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (x *c34case) saved(line string) {
	if n := len(x.hist); n == 0 || x.hist[n-1] != line {
		x.hist = append(x.hist, line)
	}
}

// complete is what one TAB makes of an unfinished word, by definition.
func complete(word string, all []string) (res string, several []string) {
	var m []string
	for _, n := range all {
		if strings.HasPrefix(n, word) {
			m = append(m, n+" ")
		}
	}
	if len(m) == 0 {
		return word, nil
	}
	l := []rune(m[0])
	for _, n := range m[1:] {
		rn := []rune(n)
		i := 0
		for i < len(l) && i < len(rn) && l[i] == rn[i] {
			i++
		}
		l = l[:i]
	}
	if len(m) == 1 {
		m = nil
	}
	return string(l), m
}

var c34commands = strings.Fields("passwd help exit add rm mv ls cd labels show set get cp edit open rmk label rmlabel pass user email totp sync addsync adduser rekey")

var c34fields = []string{"email", "user", "pass", "totp", "notes"}

// word types a word with the help of TAB.
func (x *c34case) word(target string, all []string) (keys string, listed []string, typed string) {
	r := x.t.R
	rs := []rune(target)
	typed = string(rs[:r.Intn(len(rs)+1)])
	keys = typed
	for i := 1 + r.Intn(3); i > 0; i-- {
		res, several := complete(typed, all)
		keys += "\t"
		if several != nil && res == typed {
			listed = several // shown as a list; another TAB would choose from it
			break
		}
		typed = res
		if strings.HasSuffix(res, " ") {
			return keys, listed, typed
		}
		if r.Intn(2) == 0 && len(typed) < len(target) {
			n := []rune(target[len(typed):])
			k := 1 + r.Intn(len(n))
			typed += string(n[:k])
			keys += string(n[:k])
		}
	}
	return keys + target[len(typed):] + " ", listed, typed
}

func c34run(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := plainLogGen(r, 1571887976e9, 1000)
	x := &c34case{names: map[string]string{}}
	parts := []string{"web", "we", "mail", "bank", "work", "wörk", "wörter", "a", "ab", "abc", "git", "日本", "日", "User", "user2", "x.y", "get", "notes"}
	newName := func() string {
		for {
			n := pick(r, parts...)
			for r.Intn(2) == 0 {
				n += pick(r, "/", "", "-", ".") + pick(r, parts...)
			}
			if _, ok := x.names[n]; !ok && !strings.HasPrefix(n, "user/") {
				return n
			}
		}
	}
	marker := func() string { x.n++; return fmt.Sprintf("mk%dq", 1000+x.n) }
	for i := r.Intn(t.scale(12, 600)) + 1; i > 0; i-- {
		n, m := newName(), marker()
		e := g.add(n)
		g.set(e, "notes", m)
		x.names[n] = m
	}
	pass := "secret"
	craft(t, f, pass, g.log)
	se := &Sess{Dir: dir, File: f, Args: []string{"--no-sync"}, Env: []string{"TERM=" + pick(r, "dumb", "xterm")}}
	x.Term = startTerm(t, se, 400, nil)
	defer func() {
		select {
		case <-x.done:
		default:
			x.Term.kill()
		}
		x.close()
	}()
	x.must("passphrase: ")
	x.Type(pass + "\r")
	x.must(x.prompt())
	shows := func(out, name, line string) {
		for n, m := range x.names {
			if (n == name) != strings.Contains(out, m) {
				t.Fail("%q was run but the notes of %q were%s shown\n%q\nsteps: %q", line, n, map[bool]string{true: " not"}[n == name], tail(out, 800), x.steps)
			}
		}
	}
	get := func() {
		all := keysOf(x.names)
		target := pick(r, all...)
		cmd := pick(r, "get", "get", "show")
		ck := cmd + " "
		if r.Intn(3) == 0 {
			ck = cmd[:2] + "\t"
		}
		if cmd == "get" && r.Intn(2) == 0 && ck == "ge\t" {
			ck = "g\t"
		}
		keys, listed, typed := x.word(target, all)
		line := cmd + " " + target
		if cmd == "get" {
			field := pick(r, "notes", "notes", "email", "user", "pass", "totp")
			fk, _, _ := x.word(field, c34fields)
			keys += fk
			line += " " + field
			if field != "notes" {
				x.line(ck+keys+"\r", line)
				x.saved(line)
				return
			}
		}
		out := x.line(ck+keys+"\r", line)
		t.Count("completed_names", 1)
		if len(listed) > 0 {
			t.Count("lists_shown", 1)
		}
		shows(out, target, line)
		for _, l := range listed {
			// what has been typed can be left out
			if !strings.Contains(out, strings.TrimSpace(l)[len(typed):]) {
				t.Fail("TAB did not offer %q among %q\n%q\nsteps: %q", l, listed, tail(out, 1500), x.steps)
			}
		}
		for _, n := range all {
			in := false
			for _, l := range listed {
				in = in || strings.Contains(l, n)
			}
			in = in || strings.Contains(line, n) || len(listed) == 0 || cmd == "get"
			if !in && strings.Contains(out, n+" ") {
				t.Fail("TAB offered %q, which does not go on from what was typed\n%q\nsteps: %q", n, tail(out, 1500), x.steps)
			}
		}
		x.saved(line)
	}
	runHist := func(keys, line string) {
		cur := x.cur
		out := x.line(keys+"\r", line)
		c := strings.Fields(line)
		if c[0] == "get" && cur == "" && c[2] == "notes" {
			if _, ok := x.names[c[1]]; ok {
				shows(out, c[1], line)
			}
		}
		x.saved(line)
		t.Count("recalled_lines", 1)
	}
	for i := 4 + r.Intn(16); i > 0; i-- {
		if x.cur != "" && r.Intn(3) > 0 {
			x.line("cd\r", "cd")
			x.saved("cd")
		}
		switch k := r.Intn(14); {
		case k < 4:
			if x.cur == "" {
				get()
			}
		case k == 4: // go to an entry
			target := pick(r, keysOf(x.names)...)
			keys, _, _ := x.word(target, keysOf(x.names))
			x.line("cd "+keys+"\r", "cd "+target)
			x.saved("cd " + target)
		case k == 5: // a new name
			if x.cur == "" {
				n := newName()
				x.line("add "+n+"\r", "add "+n)
				x.Type("me@x\r")
				x.must("user: ")
				x.Type("me\r")
				x.must("?> ")
				x.Type("y\r")
				x.must(x.prompt())
				x.saved("add " + n)
				m := marker()
				x.line("set "+n+" notes "+m+"\r", "set "+n+" notes "+m)
				x.saved("set " + n + " notes " + m)
				x.names[n] = m
			}
		case k == 6: // another name
			if x.cur == "" {
				old, n := pick(r, keysOf(x.names)...), newName()
				keys, _, _ := x.word(old, keysOf(x.names))
				x.line("mv "+keys+n+"\r", "mv "+old+" "+n)
				x.saved("mv " + old + " " + n)
				x.names[n] = x.names[old]
				delete(x.names, old)
			}
		case k == 7: // no more
			if x.cur == "" && len(x.names) > 1 {
				old := pick(r, keysOf(x.names)...)
				keys, _, _ := x.word(old, keysOf(x.names))
				x.line("rm "+keys+"\r", "rm "+old)
				x.Type(old + "\r")
				x.must(x.prompt())
				x.saved("rm " + old)
				delete(x.names, old)
			}
		case k == 9: // any command that takes a name, made an unknown one before it is run
			if x.cur != "" {
				break
			}
			cmd := pick(r, "rm", "mv", "cd", "show", "set", "get", "cp", "edit", "open", "rmk", "label", "rmlabel", "pass", "user", "email", "totp", "sync")
			target := pick(r, keysOf(x.names)...)
			keys, _, _ := x.word(target, keysOf(x.names))
			line := "zz " + cmd + " " + target
			if strings.Contains(" set get cp edit rmk ", " "+cmd+" ") && r.Intn(2) == 0 {
				field := pick(r, c34fields...)
				fk, _, _ := x.word(field, c34fields)
				keys += fk
				line += " " + field
			}
			x.line(cmd+" "+keys+"\x01zz \r", line)
			t.Count("completed_commands", 1)
		case k == 10: // the command itself, made an unknown one before it is run
			cmd := pick(r, c34commands...)
			keys, listed, typed := x.word(cmd, c34commands)
			if keys[0] == '\t' { // an empty line looks like the next prompt while the list is shown
				break
			}
			line := "zz " + cmd
			if r.Intn(2) == 0 && len(listed) == 0 { // on to a name
				keys, line = keys+"nothing", line+" nothing"
			}
			out := x.line(keys+"\x01zz \r", line)
			for _, l := range listed {
				if !strings.Contains(out, strings.TrimSpace(l)[len(typed):]) {
					t.Fail("TAB did not offer the command %q among %q\n%q\nsteps: %q", l, listed, tail(out, 1500), x.steps)
				}
			}
			t.Count("completed_command_names", 1)
		case k == 8: // unknown commands are not remembered
			x.Type("zzsentinel\r")
			x.must(x.prompt())
			x.steps = append(x.steps, "zzsentinel\r")
		default: // back to an earlier line
			var ok []int
			for i, h := range x.hist {
				if strings.HasPrefix(h, "get ") || strings.HasPrefix(h, "cd") {
					ok = append(ok, i)
				}
			}
			if len(ok) == 0 {
				break
			}
			i := ok[r.Intn(len(ok))]
			if r.Intn(2) == 0 {
				i = ok[len(ok)-1]
			}
			line := x.hist[i]
			if c := strings.Fields(line); len(c) > 1 && x.names[c[1]] == "" || c[0] == "get" && x.cur != "" {
				break
			}
			up := len(x.hist) - i
			keys := ""
			if more := r.Intn(3); up+more <= len(x.hist) && r.Intn(2) == 0 {
				keys = strings.Repeat(pick(r, "\x1b[A", "\x10"), up+more) + strings.Repeat(pick(r, "\x1b[B", "\x0e"), more)
			} else {
				keys = strings.Repeat(pick(r, "\x1b[A", "\x10"), up)
			}
			runHist(keys, line)
		}
	}
	x.Type("exit\r")
	if code := x.End(); code != 0 {
		t.Fail("status %d\nsteps: %q\n%s", code, x.steps, tail(x.All(), 800))
	}
	v, _ := openView(t, f, "", pass)
	bn := v.byName()
	if len(bn) != len(x.names) {
		t.Fail("the file has other entries than the lines made: %v, want %v\nsteps: %q", len(bn), keysOf(x.names), x.steps)
	}
	for n, m := range x.names {
		if v[bn[n]]["notes"] != m {
			t.Fail("notes of %q are %q, want %q\nsteps: %q", n, v[bn[n]]["notes"], m, x.steps)
		}
	}
	t.Eval(fmt.Sprintf("%q", x.steps))
	if t.Case < 2 {
		t.Sample(map[string]interface{}{"keys": x.steps, "names": keysOf(x.names)})
	}
}

func init() {
	register(&Check{ID: "C34",
		Rule:        "Sessions at a pseudo terminal that enter commands with TAB after every length of every kind of word, and by going back and forth in the history, while entries are added, renamed and removed. The line that is run must be the one that completion by definition (all present names that begin so; their longest common beginning) and the list of successful commands say, lists must offer every candidate and nothing else, the output must be the target's and the file must hold what the lines did. Non-trivial: every session; distinct by keys.",
		Assumptions: []string{"names without blanks; the terminal is wide enough for every line", "choosing from the list with further keys, searching and editing inside the line belong to the line editor library"},
		Run: func(c *Ctx) {
			c.Cases("editing", c.N(400, 6000), c34run)
		}})
}
