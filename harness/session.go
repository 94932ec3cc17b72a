package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Running the real program. All input is offered up front on a pipe and ends in end-of-file (or a
// ctrl-c byte), so a session is deterministic. An unknown command is put between commands; its
// reply splits the output.

const sentinelCmd = "zzsentinel"
const sentinelOut = "unknown command, try \"help\"\n"

// Event is what a stand-in program observed.
type Event struct {
	Prog    string   `json:"prog"`
	Args    []string `json:"args,omitempty"`
	Stdin   []byte   `json:"stdin,omitempty"`
	Content []byte   `json:"content,omitempty"`
	Mode    uint32   `json:"mode,omitempty"`
	Path    string   `json:"path,omitempty"`
	Note    string   `json:"note,omitempty"`
	TTY     string   `json:"tty,omitempty"` // settings of the terminal it was given
}

// PinAnswer is one dialogue with the pinentry stand-in.
type PinAnswer struct {
	Pin     []byte            `json:"pin,omitempty"`
	Cancel  bool              `json:"cancel,omitempty"`
	Replies map[string][]byte `json:"replies,omitempty"` // replies by command word, in place of the usual ones; "" is the greeting
	Quit    string            `json:"quit,omitempty"`    // command after which it ends, before replying
	Linger  bool              `json:"linger,omitempty"`  // does not end at BYE but when its input ends
	Flood   int               `json:"flood,omitempty"`   // bytes written after BYE
	EndPin  bool              `json:"endpin,omitempty"`  // ends after its reply to GETPIN
	Exit    int               `json:"exit,omitempty"`
	Kill    bool              `json:"kill,omitempty"`
}

// EditAction is one run of the editor stand-in.
type EditAction struct {
	Write   []byte `json:"write,omitempty"`
	NoWrite bool   `json:"nowrite,omitempty"`
	Replace bool   `json:"replace,omitempty"` // write a new file and rename it over, as many editors do
	Remove  bool   `json:"remove,omitempty"`
	Exit    int    `json:"exit,omitempty"`
	Kill    bool   `json:"kill,omitempty"`
	Signal  int    `json:"signal,omitempty"` // sent to the program after the file is written
}

type Sess struct {
	Dir     string
	File    string
	Args    []string // extra flags
	Sub     []string // sub command and its arguments
	Env     []string
	Input   string
	Pins    []PinAnswer
	Edits   []EditAction
	Lpass   []byte
	LpassRC int
	Clear   bool // let the session clear the clipboard
	NoPin   bool
	Pace    func(rest string) (n int, pause time.Duration, sig syscall.Signal) // pieces of the input
	TTY     bool                                                               // standard input is a terminal; the input has to end the session
	Bin     string                                                             // other binary
	Wrap    []string
	Cwd     string // working directory, Dir if empty
	Umask   string
	FSize   int // RLIMIT_FSIZE in 512 byte blocks, 0: none
	RealKDF bool
	NoXsel  bool
	NoColor bool
	logf    string
	Color   bool
}

type Result struct {
	Out, Err string
	Code     int
	Killed   bool
	Events   []Event
	Wall     time.Duration
}

// Segs splits the output at the sentinels: [preamble, output of command 1, ...].
func (r *Result) Segs() []string { return strings.Split(r.Out, sentinelOut) }

var binOnce sync.Once

func binDir() string {
	d := filepath.Join(scratchRoot, "bin")
	binOnce.Do(func() {
		os.MkdirAll(d, 0755)
		self, err := os.Executable()
		if err != nil {
			panic(inconclusive(err.Error()))
		}
		for n := range standIns {
			os.Symlink(self, filepath.Join(d, n))
		}
		nd := filepath.Join(scratchRoot, "bin-noclip")
		os.MkdirAll(nd, 0755)
		for n := range standIns {
			if n != "xsel" && n != "xclip" {
				os.Symlink(self, filepath.Join(nd, n))
			}
		}
	})
	return d
}

func bpassBin() string { return filepath.Join(os.Getenv("VB"), "bpass") }

var sessSeq struct {
	sync.Mutex
	n int
}

// Start prepares the command line.
func (s *Sess) command(t *T) (*exec.Cmd, string) {
	bd := binDir()
	if s.NoXsel {
		bd = filepath.Join(scratchRoot, "bin-noclip")
	}
	for _, d := range []string{"home", "tmp"} {
		os.MkdirAll(filepath.Join(s.Dir, d), 0700)
	}
	sessSeq.Lock()
	sessSeq.n++
	n := sessSeq.n
	sessSeq.Unlock()
	base := filepath.Join(s.Dir, fmt.Sprintf("run%d", n))
	logf := base + ".events"
	s.logf = logf
	pin := "PINENTRY=none"
	if s.Pins != nil {
		pin = "PINENTRY=" + filepath.Join(bd, "pinentry")
		b, _ := json.Marshal(s.Pins)
		os.WriteFile(base+".pins", b, 0600)
	}
	eb, _ := json.Marshal(s.Edits)
	os.WriteFile(base+".edits", eb, 0600)
	if s.Lpass != nil || s.LpassRC != 0 {
		os.WriteFile(base+".lpass", s.Lpass, 0600)
	}
	env := []string{
		"HOME=" + filepath.Join(s.Dir, "home"), "TMPDIR=" + filepath.Join(s.Dir, "tmp"),
		"PATH=" + bd, "TERM=dumb", "TZ=UTC", "LANG=C.UTF-8", pin,
		"EDITOR=" + filepath.Join(bd, "vedit"),
		"VERIF_LOG=" + logf, "VERIF_BASE=" + base, "VERIF_LPASS_RC=" + strconv.Itoa(s.LpassRC),
		"GOTRACEBACK=all",
	}
	if t.races != nil {
		env = append(env, "GORACE=atexit_sleep_ms=0 exitcode=0 log_path="+base+".race", "GOMAXPROCS="+pick(t.R, "1", "2", "3", "8", "8"))
	}
	if !s.RealKDF {
		env = append(env, "VERIF_KDF=fast")
	}
	for _, e := range s.Env {
		if strings.HasPrefix(e, "-") { // not set at all
			for i, h := range env {
				if strings.HasPrefix(h, e[1:]+"=") {
					env = append(env[:i], env[i+1:]...)
					break
				}
			}
			continue
		}
		env = append(env, e)
	}
	bin := s.Bin
	if bin == "" {
		bin = bpassBin()
	}
	args := append([]string{}, s.Wrap...)
	args = append(args, bin)
	if !s.Color {
		args = append(args, "--no-color")
	}
	if !s.Clear {
		args = append(args, "--no-clear-clip")
	}
	if s.File != "" {
		args = append(args, "-f", s.File)
	}
	args = append(args, s.Args...)
	args = append(args, s.Sub...)
	sh := "ulimit -c 0; ulimit -t 60; "
	if s.TTY { // the shell of a real terminal outlives the program
		sh += "trap '' HUP; "
	}
	if s.Umask != "" {
		sh += "umask " + s.Umask + "; "
	}
	if s.FSize > 0 {
		sh += fmt.Sprintf("ulimit -f %d; ", s.FSize)
	}
	sh += `exec "$@"`
	cmd := exec.Command("/bin/sh", append([]string{"-c", sh, "sh"}, args...)...)
	cmd.Env = env
	cmd.Dir = s.Dir
	if s.Cwd != "" {
		cmd.Dir = s.Cwd
	}
	return cmd, logf
}

// Run runs the session to its end. A hang is a violation, decided by CPU time or by a process that
// sleeps without any progress although all its input is there.
func (s *Sess) Run(t *T) *Result {
	cmd, logf := s.command(t)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	var pr, pw *os.File
	var err error
	if s.TTY {
		pw, pr, err = openPTY()
		cmd.SysProcAttr = ttyAttr
	} else {
		pr, pw, err = os.Pipe()
	}
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	cmd.Stdin = pr
	cmd.WaitDelay = 20 * time.Second
	start := time.Now()
	if err := cmd.Start(); err != nil {
		panic(inconclusive("cannot start: " + err.Error()))
	}
	pr.Close()
	if s.TTY {
		go io.Copy(io.Discard, pw)
		defer pw.Close()
	}
	go func() {
		s.type_(t, pw, cmd.Process.Pid)
		if !s.TTY {
			pw.Close()
		}
	}()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	res := &Result{}
	var deadlock string
wait:
	for {
		select {
		case err = <-done:
			break wait
		case <-time.After(90 * time.Second):
			if d := stuck(cmd.Process.Pid); d != "" {
				deadlock = d
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(500 * time.Millisecond)
				cmd.Process.Kill()
				err = <-done
				break wait
			}
			if time.Since(start) > 400*time.Second {
				cmd.Process.Kill()
				<-done
				panic(inconclusive("session over 400 s of wall time"))
			}
		}
	}
	res.Wall = time.Since(start)
	res.Out, res.Err = out.String(), errb.String()
	if cmd.ProcessState != nil {
		res.Code = cmd.ProcessState.ExitCode()
		ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			res.Killed = true
			if deadlock == "" && ws.Signal() == syscall.SIGKILL {
				cpu := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
				if cpu > 50*time.Second {
					t.Fail("the program never finishes: it used %v of CPU on input %s", cpu, quoteInput(s.Input))
				}
				panic(inconclusive("session killed from outside"))
			}
		}
	}
	if deadlock != "" {
		t.Fail("the program is stuck (%s) with all its input available: %s\n%s", deadlock, quoteInput(s.Input), firstLines(res.Err, 30))
	}
	res.Events = readEvents(logf)
	if t.races != nil {
		t.races.collect(t, logf)
	}
	t.Count("sessions", 1)
	t.Count("input_lines", strings.Count(s.Input, "\n"))
	return res
}

// type_ gives the program its input, in pieces if so asked.
func (s *Sess) type_(t *T, w *os.File, pid int) {
	if s.Pace == nil {
		io.WriteString(w, s.Input)
		return
	}
	in := s.Input
	for len(in) > 0 {
		n, d, sig := s.Pace(in)
		if n > len(in) {
			n = len(in)
		}
		if _, err := io.WriteString(w, in[:n]); err != nil {
			return
		}
		in = in[n:]
		if d > 0 {
			time.Sleep(d)
		}
		if sig != 0 {
			syscall.Kill(pid, sig)
		}
	}
}

func quoteInput(s string) string {
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return strconv.Quote(s)
}

// stuck reports whether no thread of the process runs or makes progress during 30 s.
func stuck(pid int) string {
	cpu := func() (float64, bool) {
		ds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
		total, idle := 0.0, len(ds) > 0
		for _, d := range ds {
			b, err := os.ReadFile(d)
			if err != nil {
				continue
			}
			s := string(b)
			total += statCPU(s)
			if i := strings.LastIndexByte(s, ')'); i > 0 && len(s) > i+2 && s[i+2] != 'S' {
				idle = false
			}
		}
		return total, idle
	}
	c0, _ := cpu()
	for i := 0; i < 30; i++ {
		time.Sleep(time.Second)
		if _, idle := cpu(); !idle {
			return ""
		}
	}
	c1, _ := cpu()
	if c1-c0 > 0.05 {
		return ""
	}
	return "all threads asleep for 30 s"
}

func readEvents(f string) []Event {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var evs []Event
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		var e Event
		if json.Unmarshal(l, &e) == nil {
			evs = append(evs, e)
		}
	}
	return evs
}

// events are those of the last run so far; some stand-ins are not waited for.
func (s *Sess) events() []Event { return readEvents(s.logf) }

// Crashed describes a crash of the program ("" if none).
func (r *Result) Crashed() string {
	if r.Killed || r.Code == 2 || strings.Contains(r.Err, "goroutine ") && (strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "fatal error:")) {
		return fmt.Sprintf("exit %d: %s", r.Code, firstLines(r.Err, 25))
	}
	return ""
}

// MustOK fails the case unless the session ended without a crash and with the wanted status.
func (r *Result) MustOK(t *T, what string) {
	if c := r.Crashed(); c != "" {
		t.Fail("%s: the program crashed: %s\noutput: %s", what, c, tail(r.Out, 600))
	}
	if r.Code != 0 {
		t.Fail("%s: unexpected exit status %d\noutput: %s\nstderr: %s", what, r.Code, tail(r.Out, 1200), tail(r.Err, 400))
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// ---- scripts ----

// Script builds the input of a session, with a sentinel after every command.
type Script struct {
	b    strings.Builder
	segs int
}

// Raw adds lines without a sentinel.
func (s *Script) Raw(lines ...string) *Script {
	for _, l := range lines {
		s.b.WriteString(l)
		s.b.WriteByte('\n')
	}
	return s
}

// Cmd adds a command with its answers and a sentinel; the result is the index of its segment.
func (s *Script) Cmd(lines ...string) int {
	s.Raw(lines...)
	s.Raw(sentinelCmd)
	s.segs++
	return s.segs
}

func (s *Script) String() string { return s.b.String() }

// NewSession starts a script with the answers that open the file and a first sentinel.
func NewSession(login ...string) *Script {
	s := &Script{}
	s.Raw(login...)
	s.Raw(sentinelCmd)
	return s
}

// Segments checks the sentinel count and returns the outputs by segment index.
func (r *Result) Segments(t *T, s *Script) []string {
	segs := r.Segs()
	if len(segs) != s.segs+2 {
		t.Fail("the session answered %d of %d sentinel lines: it stopped early or swallowed input.\nexit %d\noutput: %s\nstderr: %s",
			len(segs)-1, s.segs+1, r.Code, tail(r.Out, 1500), tail(r.Err, 500))
	}
	return segs
}

// ---- files ----

func mustRead(t *T, f string) []byte {
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fail("cannot read %s: %v", filepath.Base(f), err)
	}
	return b
}

func mustWriteFile(f string, b []byte) {
	if err := os.WriteFile(f, b, 0600); err != nil {
		panic(inconclusive(err.Error()))
	}
}

// openDB decodes a stored file with the independent codec.
func openDB(t *T, f, user, pass string) (*mDB, *fFile) {
	ff, err := fOpen(mustRead(t, f), user, pass)
	if err != nil {
		t.Fail("%s does not open with user %q passphrase %q: %v", filepath.Base(f), user, pass, err)
	}
	db, err := parseDB(ff.Payload)
	if err != nil {
		t.Fail("payload of %s is not the documented JSON: %v", filepath.Base(f), err)
	}
	return db, ff
}

func openView(t *T, f, user, pass string) (mView, *mDB) {
	db, _ := openDB(t, f, user, pass)
	v, err := mReplay(db.Log)
	if err != nil {
		t.Fail("log of %s does not replay: %v", filepath.Base(f), err)
	}
	return v, db
}

// craft writes a single-user file with a given log.
func craft(t *T, f, pass string, log []mTx) {
	mustWriteFile(f, fWriteSingle(pass, t.bytes(fSalt), t.bytes(fIV), (&mDB{Log: log}).encode()))
}

// ---- stand-ins ----

var standIns = map[string]func(){
	"pinentry": standPinentry,
	"xsel":     standClip,
	"xclip":    standClip,
	"vedit":    standEditor,
	"lpass":    standLpass,
	"xdg-open": standOpen,
}

// progs are stand-ins that are not in every session's folder of programs.
var progs = map[string]func(){}

func logEvent(e Event) {
	e.Prog = filepath.Base(os.Args[0])
	e.Args = append(os.Args[1:], e.Args...)
	b, _ := json.Marshal(e)
	f, err := os.OpenFile(os.Getenv("VERIF_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600)
	if err != nil {
		return
	}
	f.Write(append(b, '\n'))
	f.Close()
}

func priorEvents() int {
	n := 0
	for _, e := range readEvents(os.Getenv("VERIF_LOG")) {
		if e.Prog == filepath.Base(os.Args[0]) {
			n++
		}
	}
	return n
}

func standClip() {
	for _, a := range os.Args[1:] {
		if a == "-o" || a == "-out" || a == "--output" {
			logEvent(Event{Note: "read"})
			return
		}
	}
	b, _ := io.ReadAll(os.Stdin)
	logEvent(Event{Stdin: b})
	if os.Getenv("VERIF_CLIP_FAIL") != "" {
		os.Exit(1)
	}
}

func standOpen() { logEvent(Event{}) }

func standLpass() {
	logEvent(Event{})
	b, _ := os.ReadFile(os.Getenv("VERIF_BASE") + ".lpass")
	os.Stdout.Write(b)
	rc, _ := strconv.Atoi(os.Getenv("VERIF_LPASS_RC"))
	os.Exit(rc)
}

func standEditor() {
	n := priorEvents()
	var acts []EditAction
	b, _ := os.ReadFile(os.Getenv("VERIF_BASE") + ".edits")
	json.Unmarshal(b, &acts)
	parent := os.Getppid()
	f := os.Args[len(os.Args)-1]
	content, err := os.ReadFile(f)
	ev := Event{Content: content, Path: f}
	if err != nil {
		ev.Note = err.Error()
	}
	if fi, err := os.Stat(f); err == nil {
		ev.Mode = uint32(fi.Mode().Perm())
	}
	if isTTY(os.Stdin) {
		ev.TTY = fmt.Sprint(termios(os.Stdin))
	}
	keep := func(i int) {
		os.Link(f, fmt.Sprintf("%s.keep%d.%d", os.Getenv("VERIF_BASE"), n, i))
	}
	keep(0)
	var a EditAction
	if n < len(acts) {
		a = acts[n]
	} else {
		a.NoWrite = true
	}
	switch {
	case a.Remove:
		os.Remove(f)
	case a.NoWrite:
	case a.Replace:
		os.WriteFile(f+".new", a.Write, 0600)
		os.Rename(f+".new", f)
		keep(1)
	default:
		os.WriteFile(f, a.Write, 0600)
	}
	logEvent(ev)
	if exe, _ := os.Readlink(fmt.Sprintf("/proc/%d/exe", parent)); a.Signal != 0 && filepath.Base(exe) == "bpass" && os.Getppid() == parent {
		syscall.Kill(parent, syscall.Signal(a.Signal))
		time.Sleep(time.Duration(a.Signal) * time.Millisecond)
	}
	if a.Kill {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
	}
	os.Exit(a.Exit)
}

func standPinentry() {
	n := priorEvents()
	var ans []PinAnswer
	b, _ := os.ReadFile(os.Getenv("VERIF_BASE") + ".pins")
	json.Unmarshal(b, &ans)
	a := PinAnswer{Cancel: true}
	if n < len(ans) {
		a = ans[n]
	}
	end := func() {
		if a.Kill {
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		}
		os.Exit(a.Exit)
	}
	ev := Event{}
	logged := false
	log := func() {
		if !logged {
			logged = true
			logEvent(ev)
		}
	}
	reply := func(word, usual string) {
		if b, ok := a.Replies[word]; ok {
			os.Stdout.Write(b)
			return
		}
		os.Stdout.WriteString(usual)
	}
	in := newLineReader(os.Stdin)
	if a.Quit == "start" {
		log()
		end()
	}
	if a.Replies != nil || a.Quit != "" {
		log()
	}
	reply("", "OK Pleased to meet you\n")
	for {
		l, ok := in()
		if !ok {
			break
		}
		word := strings.SplitN(l, " ", 2)[0]
		if a.Quit == word {
			log()
			end()
		}
		switch word {
		case "", "#":
		case "SETDESC":
			ev.Note = strings.TrimPrefix(l, "SETDESC ")
			reply(word, "OK\n")
		case "GETPIN":
			log()
			if a.Cancel {
				reply(word, "ERR 83886179 Operation cancelled <Pinentry>\n")
				continue
			}
			reply(word, assuanData(a.Pin)+"OK\n")
			if a.EndPin {
				end()
			}
		case "BYE":
			reply(word, "OK closing connection\n")
			if a.Flood > 0 {
				os.Stdout.Write(bytes.Repeat([]byte("# flood\n"), a.Flood/8))
			}
			if !a.Linger {
				end()
			}
		case "OPTION":
			ev.Args = append(ev.Args, strings.TrimPrefix(l, "OPTION "))
			reply(word, "OK\n")
		case "SETTITLE", "SETPROMPT", "SETERROR", "SETOK", "SETCANCEL", "SETNOTOK", "SETKEYINFO", "SETTIMEOUT", "NOP", "RESET", "GETINFO", "SETQUALITYBAR", "SETREPEAT":
			reply(word, "OK\n")
		default:
			reply(word, "ERR 83886355 Unknown IPC command <Pinentry>\n")
		}
	}
	log()
	end()
}

// assuanData encodes data as the protocol's D lines, at most 1000 bytes long each.
func assuanData(p []byte) string {
	var out, line strings.Builder
	flush := func() {
		if line.Len() > 0 {
			out.WriteString("D " + line.String() + "\n")
			line.Reset()
		}
	}
	for _, c := range p {
		switch c {
		case '%', '\r', '\n':
			fmt.Fprintf(&line, "%%%02X", c)
		default:
			line.WriteByte(c)
		}
		if line.Len() > 990 {
			flush()
		}
	}
	flush()
	return out.String()
}

func newLineReader(r io.Reader) func() (string, bool) {
	var buf []byte
	return func() (string, bool) {
		for {
			if i := bytes.IndexByte(buf, '\n'); i >= 0 {
				l := string(buf[:i])
				buf = buf[i+1:]
				return l, true
			}
			tmp := make([]byte, 4096)
			n, err := r.Read(tmp)
			buf = append(buf, tmp[:n]...)
			if err != nil && n == 0 {
				return "", false
			}
		}
	}
}
