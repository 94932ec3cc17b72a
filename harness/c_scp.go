package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aarondl/bpass/scpsync"
	"golang.org/x/crypto/ssh"
)

// ---- C21 ----

func runScp(args []string, ch ssh.Channel) (int, error) {
	cmd := exec.Command("/usr/bin/scp", args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return 1, err
	}
	cmd.Stdout, cmd.Stderr = ch, ch.Stderr()
	if err := cmd.Start(); err != nil {
		return 1, err
	}
	go func() {
		io.Copy(in, ch)
		in.Close()
	}()
	err = cmd.Wait()
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), nil
	}
	if err != nil {
		return 1, err
	}
	return 0, nil
}

func clientConfig(user, pass string) *ssh.ClientConfig {
	return &ssh.ClientConfig{User: user, Auth: []ssh.AuthMethod{ssh.Password(pass)},
		HostKeyCallback: ssh.InsecureIgnoreHostKey(), HostKeyAlgorithms: []string{ssh.KeyAlgoED25519, ssh.KeyAlgoRSA}}
}

// timed runs a transfer; one that has not come back long after the server hung up is stuck.
func timed(t *T, what string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	for i := 0; ; i++ {
		select {
		case p := <-done:
			if p != nil {
				t.Fail("%s: the transfer crashed: %v", what, p)
			}
			return
		case <-time.After(60 * time.Second):
			if i == 1 {
				t.Fail("%s: the transfer does not return although the server hung up two minutes ago", what)
			}
		}
	}
}

func genContent(t *T) []byte {
	r := t.R
	n := []int{0, 1, 2, 255, 256, 257, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 70000}[r.Intn(14)]
	switch r.Intn(6) {
	case 0:
		n = r.Intn(200000)
	case 1, 2:
		n = r.Intn(2000)
	}
	if t.Large {
		n = pickInt(r, 1<<20, 4<<20, 8<<20, 16<<20, 32<<20) - 40000 + r.Intn(1<<20)
	} else if r.Intn(60) == 0 {
		n = 2<<20 + r.Intn(2<<20) // more than the window
	}
	b := t.bytes(n)
	switch r.Intn(6) {
	case 0: // looks like the protocol
		copy(b, "C0644 5 x\n\x00\x01\x02")
	case 1:
		for i := range b {
			b[i] = 0
		}
	case 2:
		for i := range b {
			b[i] = "\x00\x01\x02\n"[i%4]
		}
	}
	return b
}

func genPath(t *T) string {
	return pick(t.R, "f", "backup.bp", "dir/f", "/abs/dir/file.bp", "~/f", "./a/../b", "ünïcode/файл", "dot.dot", "a/b/c/d/e", "C0644", "-x", "x=1,2:3@4", "0")
}

func keysOfFiles(m map[string]*memFile) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// c21honest: a faithful server.
func c21honest(t *T) {
	r := t.R
	fs := &memFS{files: map[string]*memFile{}, seed: r.Int63(), once: r.Intn(4) == 0}
	srv := newSSH("joe", "pw", hostKey(pick(r, "ed", "ed", "rsa"), 0))
	srv.exec = fs.exec
	defer srv.close()
	cfg := clientConfig("joe", "pw")
	have := map[string]*memFile{}
	for i := 1 + r.Intn(6); i > 0; i-- {
		p := genPath(t)
		if r.Intn(2) == 0 {
			data := genContent(t)
			mode := []int{0600, 0644, 0400, 0755, 0777, 0700}[r.Intn(6)]
			var err error
			timed(t, "upload", func() { err = scpsync.Send(srv.addr(), cfg, p, mode, append([]byte{}, data...)) })
			if err != nil {
				t.Fail("uploading %d bytes to %q failed: %v (server: %v)", len(data), p, err, srv.take())
			}
			want := &memFile{data, fmt.Sprintf("%04o", mode)}
			if old := have[p]; old != nil {
				want.mode = old.mode
			}
			have[p] = want
			fs.Lock()
			got := fs.files[p]
			n := len(fs.files)
			fs.Unlock()
			if got == nil || n != len(have) {
				t.Fail("uploading to %q: the server holds other files: %v", p, srv.take())
			}
			if !bytes.Equal(got.data, data) {
				t.Fail("uploading to %q: the server received %d bytes that differ from the %d given", p, len(got.data), len(data))
			}
			if got.mode != want.mode {
				t.Fail("uploading to %q with mode %04o: the server was told %s", p, mode, got.mode)
			}
			t.Count("uploads", 1)
			t.Eval(fmt.Sprintf("up %s %d %o", p, len(data), mode))
			continue
		}
		if t.Large && len(have) > 0 {
			p = pick(r, keysOfFiles(have)...)
		}
		var b []byte
		var err error
		timed(t, "download", func() { b, err = scpsync.Recv(srv.addr(), cfg, p) })
		f := have[p]
		switch {
		case f == nil && !scpsync.IsNotFoundErr(err):
			t.Fail("downloading the missing %q is not recognised: %v", p, err)
		case f == nil && b != nil:
			t.Fail("downloading the missing %q gave %d bytes", p, len(b))
		case f != nil && err != nil:
			t.Fail("downloading %q failed: %v (server %v)", p, err, srv.take())
		case f != nil && !bytes.Equal(b, f.data):
			t.Fail("downloading %q gave %d bytes that differ from the %d stored", p, len(b), len(f.data))
		case f != nil && scpsync.IsNotFoundErr(err):
			t.Fail("success is taken for a missing file")
		}
		t.Count("downloads", 1)
		t.Eval(fmt.Sprintf("down %s %v", p, f != nil))
	}
	for _, e := range srv.take() {
		if strings.HasPrefix(e.What, "bad") {
			t.Fail("the client broke the protocol: %s %q", e.What, e.Arg)
		}
	}
}

// c21real uses the installed scp on the server side.
func c21real(t *T) {
	if _, err := os.Stat("/usr/bin/scp"); err != nil {
		return
	}
	r := t.R
	dir := t.Scratch()
	srv := newSSH("joe", "pw", hostKey("ed", 1))
	srv.exec = realScp(dir)
	defer srv.close()
	cfg := clientConfig("joe", "pw")
	p := dir + "/" + pick(r, "f", "x.bp", "файл")
	_, err := scpsync.Recv(srv.addr(), cfg, p)
	if !scpsync.IsNotFoundErr(err) {
		t.Fail("a file missing for the real scp is not recognised: %v", err)
	}
	err = scpsync.Send(srv.addr(), cfg, dir+"/no/such/f", 0600, []byte("x"))
	if err == nil {
		t.Fail("uploading into a missing folder with the real scp succeeded")
	}
	for i := 0; i < 3; i++ {
		data := genContent(t)
		mode := []int{0600, 0644, 0640}[r.Intn(3)]
		fresh := i == 0
		if err := scpsync.Send(srv.addr(), cfg, p, mode, data); err != nil {
			t.Fail("uploading %d bytes to the real scp failed: %v", len(data), err)
		}
		got := mustRead(t, p)
		if !bytes.Equal(got, data) {
			t.Fail("the real scp stored %d bytes that differ from the %d given", len(got), len(data))
		}
		if st, _ := os.Stat(p); fresh && st.Mode().Perm() != os.FileMode(mode) {
			t.Fail("the real scp made a file of mode %o instead of %o", st.Mode().Perm(), mode)
		}
		b, err := scpsync.Recv(srv.addr(), cfg, p)
		if err != nil || !bytes.Equal(b, data) {
			t.Fail("downloading from the real scp: %d of %d bytes, %v", len(b), len(data), err)
		}
		t.Count("real_transfers", 2)
		t.Eval(fmt.Sprintf("real %d %o", len(data), mode))
	}
}

// ---- hostile servers ----

// genHeader makes a file header and says whether it is good, bad or neither (1, -1, 0).
func genHeader(t *T, n int) (string, int) {
	r := t.R
	good := fmt.Sprintf("C0%o %d name\n", []int{0600, 0644, 0777}[r.Intn(3)], n)
	switch r.Intn(40) {
	case 0:
		return strings.TrimSuffix(good, "\n"), -1 // the data runs on
	case 1:
		return "D0755 0 dir\n", -1
	case 2:
		return "T1 0 1 0\n", -1
	case 3:
		return pick(r, "E\n", "\n", "hello\n", "x", "", "c0644 3 x\n", "\x00C0644 3 x\n", "\x03\n"), -1
	case 4:
		return "\x01" + pick(r, "scp: f: Permission denied\n", "\n", "x\n", "", "no newline", strings.Repeat("z", 5000)+"\n"), -1
	case 5:
		return "\x02" + pick(r, "scp: fatal\n", "\n", "x\n", "", strings.Repeat("z", 300)), -1
	case 6:
		return fmt.Sprintf("C0644 %d\n", n), -1
	case 7:
		return "C0644\n", -1
	case 8:
		return "C\n", -1
	case 9:
		return fmt.Sprintf("C0944 %d name\n", n), -1
	case 10:
		return fmt.Sprintf("C0644 -%d name\n", n+1), -1
	case 11:
		return pick(r, "C0644 0x10 n\n", "C0644 1e3 n\n", "C0644 3.0 n\n", "C0644 99999999999999999999999 n\n", "C0644 -9223372036854775808 n\n", "C0644 five n\n", "C0644 -1 n\n", "C0644 -2 n\n"), -1
	case 12:
		return pick(r, "C0644 2147483648 n\n", "C0644 4294967296 n\n", "C0644 9223372036854775807 n\n", "C0644 4294967301 n\n"), -1 // never that much data
	case 13:
		return fmt.Sprintf("C0644  %d  name\n", n), 0
	case 14:
		return fmt.Sprintf("C0644 %d two words\n", n), 0
	case 15:
		return fmt.Sprintf("C0644 +%d name\r\n", n), 0
	case 16:
		return fmt.Sprintf("C644 %d name\n", n), 0
	}
	return good, 1
}

// c21down: downloads from a server that misbehaves. A success is believed only if the server did
// everything right.
func c21down(t *T) {
	r := t.R
	data := genContent(t)
	if len(data) > 20000 && !t.Large {
		data = data[:r.Intn(20000)]
	}
	header, ok := genHeader(t, len(data))
	body := append(append([]byte{}, data...), 0)
	what := fmt.Sprintf("header %q", tail(header, 60))
	spoil := func(s string) { ok = -1; what += ", " + s }
	ex := exit{}
	switch r.Intn(t.scale(9, 18)) {
	case 0:
		body = body[:r.Intn(len(body))]
		spoil(fmt.Sprintf("data stops after %d of %d bytes", len(body), len(data)+1))
	case 1:
		body[len(body)-1] = byte(1 + r.Intn(255))
		spoil("data ends in an error byte")
	case 2:
		body = append(append([]byte{}, data...), []byte("\x01scp: read error\n")...)
		spoil("data ends in an error message")
	case 3:
		extra := t.bytes(1 + r.Intn(100))
		if len(data) == 0 || extra[0] == 0 {
			extra[0] = 7
		}
		body = append(append(append([]byte{}, data...), extra...), 0)
		spoil("more data than announced")
	}
	switch r.Intn(t.scale(8, 16)) {
	case 0:
		ex.code = 1 + r.Intn(255)
		spoil(fmt.Sprintf("exit status %d", ex.code))
	case 1:
		ex.none = true
		spoil("no exit status")
	case 2:
		ex.signal = pick(r, "KILL", "TERM", "PIPE")
		spoil("killed")
	case 3:
		ex.drop = true
		spoil("connection lost")
	}
	early := r.Intn(3) == 0 // without waiting for the client, which may then fail to answer
	if early && ok > 0 {
		ok = 0
	}
	stderr := r.Intn(4) == 0
	srv := newSSH("joe", "pw", hostKey("ed", 0))
	defer srv.close()
	seed := r.Int63()
	fs := &memFS{seed: seed}
	srv.exec = func(s *sshSrv, cmd string, ch ssh.Channel, conn net.Conn) exit {
		r := fs.rnd()
		br := bufio.NewReader(ch)
		if stderr {
			ch.Stderr().Write([]byte("warning: \x00\x01 something\n"))
		}
		ack := func() {
			if !early {
				if b, err := br.ReadByte(); err == nil && b != 0 {
					s.log("bad-ack", fmt.Sprint(b))
				}
			}
		}
		ack()
		if early && r.Intn(2) == 0 {
			chunks(ch, r, append([]byte(header), body...))
		} else {
			chunks(ch, r, []byte(header))
			if header != "" && header[len(header)-1] == '\n' && ok >= 0 {
				ack()
			}
			chunks(ch, r, body)
		}
		if ok > 0 {
			ack()
		}
		if ex.drop && r.Intn(2) == 0 {
			time.Sleep(time.Millisecond)
		}
		return ex
	}
	var b []byte
	var err error
	t.Note("%s", what)
	timed(t, what, func() { b, err = scpsync.Recv(srv.addr(), clientConfig("joe", "pw"), "f") })
	switch {
	case err == nil && ok < 0:
		t.Fail("download (%s) is taken for a success with %d bytes", what, len(b))
	case err == nil && !bytes.Equal(b, data):
		t.Fail("download (%s) gave %d bytes that differ from the %d sent", what, len(b), len(data))
	case err != nil && ok > 0:
		t.Fail("download (%s) from a faithful server failed: %v", what, err)
	case err != nil && scpsync.IsNotFoundErr(err):
		t.Fail("download (%s): %v is taken for a missing file", what, err)
	}
	if err == nil {
		t.Count("hostile_accepted", 1)
	}
	t.Count("hostile_downloads", 1)
	t.Eval(what)
}

// c21missing: every way a server may say that there is no such file, and some that are not that.
func c21missing(t *T) {
	r := t.R
	msg := pick(r, "scp: f: No such file or directory", "scp: f: no such file or directory", "f: No such file or directory", "No such file or directory")
	missing := true
	if r.Intn(3) == 0 {
		msg, missing = pick(r, "scp: f: Permission denied", "scp: f: not a regular file", "", "scp: error",
			"scp: f: No such device or address", "scp: f: No such device", "scp: No such user", "scp: No such process", "scp: f: no such host",
			"scp: f: Not a directory", "scp: f: Is a directory", "scp: f: Input/output error", "scp: f: Stale file handle",
			"scp: f: Too many levels of symbolic links", "scp: f: File name too long", "scp: f: Too many open files", "file not found: scp"), false
	}
	drop := r.Intn(2) == 0
	code := 1
	srv := newSSH("joe", "pw", hostKey("ed", 0))
	defer srv.close()
	fs := &memFS{seed: r.Int63()}
	srv.exec = func(s *sshSrv, cmd string, ch ssh.Channel, conn net.Conn) exit {
		r := fs.rnd()
		br := bufio.NewReader(ch)
		br.ReadByte()
		chunks(ch, r, []byte("\x01"+msg+"\n"))
		if drop {
			// the server hangs up at once
			ch.CloseWrite()
			ch.SendRequest("exit-status", false, ssh.Marshal(struct{ S uint32 }{uint32(code)}))
			ch.Close()
			time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
			return exit{bye: true}
		}
		return exit{code: code}
	}
	for i := 0; i < 4; i++ {
		b, err := scpsync.Recv(srv.addr(), clientConfig("joe", "pw"), "f")
		if err == nil {
			t.Fail("the reply %q is taken for a success with %d bytes", msg, len(b))
		}
		if scpsync.IsNotFoundErr(err) != missing {
			t.Fail("the reply %q (server hangs up: %v): missing file = %v, error %v", msg, drop, !missing, err)
		}
		t.Count("missing_replies", 1)
	}
	t.Eval(fmt.Sprintf("%s %v", msg, drop))
}

// c21up: uploads to a server that misbehaves.
func c21up(t *T) {
	r := t.R
	data := genContent(t)
	if r.Intn(3) > 0 && len(data) > 3000 && !t.Large {
		data = data[:3000]
	}
	ok := 1
	what := fmt.Sprintf("%d bytes", len(data))
	spoil := func(s string) { ok = -1; what += ", " + s }
	reply := [3][]byte{{0}, {0}, {0}} // at the start, after the header, at the end
	if r.Intn(3) == 0 {
		reply[0], reply[1] = nil, nil
	}
	bad := func() []byte {
		return []byte(pick(r, "\x01scp: f: No space left on device\n", "\x02scp: fatal\n", "\x01\n", "\x02", "\x01x", "\x01"+strings.Repeat("y", 700)+"\n", "\x03", "X", "hello\n", "\xff\x00"))
	}
	stop := -1 // bytes read before stopping
	switch r.Intn(10) {
	case 0:
		i := r.Intn(3)
		reply[i] = bad()
		spoil(fmt.Sprintf("reply %d is %q", i, tail(string(reply[i]), 40)))
	case 1:
		reply = [3][]byte{}
		spoil("no replies")
	case 2:
		reply[2] = append([]byte{0}, bad()...)
		spoil(fmt.Sprintf("the last reply is %q", tail(string(reply[2]), 40)))
	case 3:
		if len(data) > 0 {
			stop = r.Intn(len(data))
			spoil(fmt.Sprintf("the server reads only %d bytes", stop))
		}
	}
	ex := exit{}
	switch r.Intn(8) {
	case 0:
		ex.code = 1 + r.Intn(255)
		spoil(fmt.Sprintf("exit status %d", ex.code))
	case 1:
		ex.none = true
		spoil("no exit status")
	case 2:
		ex.signal = pick(r, "KILL", "TERM")
		spoil("killed")
	case 3:
		ex.drop = true
		spoil("connection lost")
	}
	if stop >= 0 && ex == (exit{}) {
		ex.code = 1
		if r.Intn(2) == 0 {
			reply[2] = nil
			ex.none = true
		}
	}
	srv := newSSH("joe", "pw", hostKey("ed", 0))
	defer srv.close()
	fs := &memFS{seed: r.Int63()}
	complete := false
	srv.exec = func(s *sshSrv, cmd string, ch ssh.Channel, conn net.Conn) exit {
		r := fs.rnd()
		br := bufio.NewReader(ch)
		chunks(ch, r, reply[0])
		h, err := br.ReadString('\n')
		if err != nil {
			return exit{code: 1}
		}
		chunks(ch, r, reply[1])
		n := -1
		if p := strings.SplitN(h, " ", 3); len(p) == 3 {
			n, _ = strconv.Atoi(p[1])
		}
		if n != len(data) {
			s.log("bad-header", h)
			return exit{code: 1}
		}
		if stop >= 0 {
			io.ReadFull(br, make([]byte, stop))
			chunks(ch, r, reply[2])
			return ex
		}
		got := make([]byte, n)
		if _, err := io.ReadFull(br, got); err != nil {
			return exit{code: 1}
		}
		if b, err := br.ReadByte(); err != nil || b != 0 {
			s.log("bad-end", fmt.Sprint(b, err))
			return exit{code: 1}
		}
		complete = bytes.Equal(got, data)
		chunks(ch, r, reply[2])
		if ok > 0 || len(reply[2]) > 0 && r.Intn(2) == 0 {
			io.Copy(io.Discard, br)
		}
		return ex
	}
	var err error
	t.Note("%s", what)
	timed(t, "upload of "+what, func() { err = scpsync.Send(srv.addr(), clientConfig("joe", "pw"), "f", 0600, data) })
	srv.close()
	switch {
	case err == nil && ok < 0:
		t.Fail("upload (%s) is taken for a success", what)
	case err == nil && !complete:
		t.Fail("upload (%s) is taken for a success but the server did not get the bytes: %v", what, srv.take())
	case err != nil && ok > 0:
		t.Fail("upload (%s) to a faithful server failed: %v (%v)", what, err, srv.take())
	}
	t.Count("hostile_uploads", 1)
	t.Eval(what)
}

func init() {
	register(&Check{ID: "C21",
		Rule:        "bytes, paths and modes on both sides of scripted SSH servers; a transfer may succeed only if the server did everything right, and must if it did",
		Assumptions: []string{"paths are words of the remote shell, as with scp itself", "servers that stay silent for ever are not modelled: transfers have no time limit", "announced lengths of 2 GiB and more may be refused"},
		Run: func(c *Ctx) {
			c.Cases("honest", c.N(1200, 20000), c21honest)
			c.Cases("real", c.N(16, 200), c21real)
			c.Cases("download", c.N(9000, 120000), c21down)
			c.Cases("missing", c.N(1000, 20000), c21missing)
			c.Cases("upload", c.N(9000, 120000), c21up)
		}})
}
