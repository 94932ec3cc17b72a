package main

import (
	"bufio"
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/ssh"
)

// An SSH server that speaks the scp protocol, honestly or not, and records what reaches it.

var hostKeys struct {
	sync.Once
	ed  [4]ssh.Signer
	rsa [3]ssh.Signer
}

func hostKey(kind string, i int) ssh.Signer {
	hostKeys.Do(func() {
		for i := range hostKeys.ed {
			_, k, err := ed25519.GenerateKey(rand.Reader)
			if err != nil {
				panic(err)
			}
			hostKeys.ed[i], _ = ssh.NewSignerFromKey(k)
		}
		for i := range hostKeys.rsa {
			k, err := rsa.GenerateKey(rand.Reader, 2048)
			if err != nil {
				panic(err)
			}
			hostKeys.rsa[i], _ = ssh.NewSignerFromKey(k)
		}
	})
	if kind == "rsa" {
		return hostKeys.rsa[i]
	}
	return hostKeys.ed[i]
}

func keyHash(k ssh.Signer) string {
	h := sha256.Sum256(k.PublicKey().Marshal())
	return hex.EncodeToString(h[:])
}

type sshEvent struct {
	What string `json:"what"` // conn, handshake, auth, exec, data
	Arg  string `json:"arg,omitempty"`
}

type sshSrv struct {
	l    net.Listener
	keys []ssh.Signer
	user string
	pass string
	pub  ssh.PublicKey

	mu     sync.Mutex
	events []sshEvent
	conns  map[net.Conn]bool
	busy   int // commands running
	wg     sync.WaitGroup

	exec func(s *sshSrv, cmd string, ch ssh.Channel, conn net.Conn) exit
}

// exit says how a command ends.
type exit struct {
	code   int
	none   bool // no status
	signal string
	drop   bool // the connection breaks
	noeof  bool
	bye    bool // the connection ends at once, but in an orderly way: nothing sent is lost
}

func newSSH(user, pass string, keys ...ssh.Signer) *sshSrv {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	s := &sshSrv{l: l, keys: keys, user: user, pass: pass, conns: map[net.Conn]bool{}}
	go s.serve()
	return s
}

func (s *sshSrv) port() int    { return s.l.Addr().(*net.TCPAddr).Port }
func (s *sshSrv) addr() string { return fmt.Sprintf("127.0.0.1:%d", s.port()) }

func (s *sshSrv) close() {
	s.l.Close()
	s.mu.Lock()
	for c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

func (s *sshSrv) log(what, arg string) {
	s.mu.Lock()
	s.events = append(s.events, sshEvent{what, arg})
	s.mu.Unlock()
}

// settle waits until cond holds, the client can be ahead of what the server notes down.
func (s *sshSrv) settle(cond func() bool) {
	for i := 0; i < 2000; i++ {
		s.mu.Lock()
		ok := cond()
		s.mu.Unlock()
		if ok {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

// take returns the events since the last call.
func (s *sshSrv) take() []sshEvent {
	s.settle(func() bool { return len(s.conns) == 0 })
	s.mu.Lock()
	defer s.mu.Unlock()
	e := s.events
	s.events = nil
	return e
}

func (s *sshSrv) setKeys(keys ...ssh.Signer) {
	s.mu.Lock()
	s.keys = keys
	s.mu.Unlock()
}

func (s *sshSrv) serve() {
	for {
		c, err := s.l.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		s.conns[c] = true
		s.mu.Unlock()
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			defer func() {
				c.Close()
				s.mu.Lock()
				delete(s.conns, c)
				s.mu.Unlock()
			}()
			s.one(c)
		}()
	}
}

func (s *sshSrv) one(c net.Conn) {
	s.settle(func() bool { return s.busy == 0 })
	s.log("conn", "")
	cfg := &ssh.ServerConfig{
		PasswordCallback: func(m ssh.ConnMetadata, p []byte) (*ssh.Permissions, error) {
			s.log("auth", "password "+m.User()+" "+string(p))
			if m.User() == s.user && s.pass != "" && string(p) == s.pass {
				return nil, nil
			}
			return nil, errors.New("no")
		},
		PublicKeyCallback: func(m ssh.ConnMetadata, k ssh.PublicKey) (*ssh.Permissions, error) {
			s.log("auth", "key "+m.User())
			if m.User() == s.user && s.pub != nil && bytes.Equal(k.Marshal(), s.pub.Marshal()) {
				return nil, nil
			}
			return nil, errors.New("no")
		},
	}
	s.mu.Lock()
	for _, k := range s.keys {
		cfg.AddHostKey(k)
	}
	s.mu.Unlock()
	conn, chans, reqs, err := ssh.NewServerConn(c, cfg)
	if err != nil {
		return
	}
	defer conn.Close()
	s.log("handshake", conn.User())
	go ssh.DiscardRequests(reqs)
	for nc := range chans {
		if nc.ChannelType() != "session" {
			nc.Reject(ssh.UnknownChannelType, "no")
			continue
		}
		ch, creqs, err := nc.Accept()
		if err != nil {
			return
		}
		for r := range creqs {
			if r.Type != "exec" || len(r.Payload) < 4 {
				r.Reply(false, nil)
				continue
			}
			cmd := string(r.Payload[4:])
			s.log("exec", cmd)
			r.Reply(true, nil)
			go ssh.DiscardRequests(creqs)
			s.mu.Lock()
			s.busy++
			s.mu.Unlock()
			e := s.exec(s, cmd, ch, c)
			s.mu.Lock()
			s.busy--
			s.mu.Unlock()
			if e.drop {
				c.Close()
				return
			}
			if e.bye {
				if tc, ok := c.(*net.TCPConn); ok {
					tc.CloseWrite()
				}
				gone := make(chan bool)
				go func() { conn.Wait(); close(gone) }()
				select {
				case <-gone:
				case <-time.After(5 * time.Second):
				}
				return
			}
			if !e.noeof {
				ch.CloseWrite()
			}
			switch {
			case e.signal != "":
				ch.SendRequest("exit-signal", false, ssh.Marshal(struct {
					Sig  string
					Core bool
					Msg  string
					Lang string
				}{e.signal, false, "", ""}))
			case !e.none:
				ch.SendRequest("exit-status", false, ssh.Marshal(struct{ S uint32 }{uint32(e.code)}))
			}
			ch.Close()
			break
		}
	}
}

// ---- an honest scp with files in memory ----

type memFile struct {
	data []byte
	mode string
}

type memFS struct {
	sync.Mutex
	files map[string]*memFile
	seed  int64
	once  bool // one reply at the end of an upload, as the comment in scpsync says
	deny  bool
}

func (m *memFS) rnd() *mrand.Rand {
	m.Lock()
	defer m.Unlock()
	m.seed++
	return mrand.New(mrand.NewSource(m.seed))
}

func chunks(w io.Writer, r *mrand.Rand, b []byte) error {
	max := []int{1, 7, 100, 4000, 40000, 1 << 20}[r.Intn(6)]
	if len(b) > 5000 && max < 100 {
		max = 4000
	}
	for len(b) > 0 {
		n := 1 + r.Intn(max)
		if n > len(b) {
			n = len(b)
		}
		if _, err := w.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if r.Intn(20) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
	return nil
}

func (m *memFS) exec(s *sshSrv, cmd string, ch ssh.Channel, conn net.Conn) exit {
	r := m.rnd()
	br := bufio.NewReader(ch)
	ack := func() bool {
		b, err := br.ReadByte()
		return err == nil && b == 0
	}
	switch {
	case strings.HasPrefix(cmd, "scp -qf "):
		path := strings.TrimPrefix(cmd, "scp -qf ")
		m.Lock()
		f := m.files[path]
		m.Unlock()
		if !ack() {
			return exit{code: 1}
		}
		if f == nil {
			fmt.Fprintf(ch, "\x01scp: %s: No such file or directory\n", path)
			return exit{code: 1}
		}
		if chunks(ch, r, []byte(fmt.Sprintf("C%s %d %s\n", f.mode, len(f.data), filepath.Base(path)))) != nil || !ack() {
			return exit{code: 1}
		}
		if chunks(ch, r, append(append([]byte{}, f.data...), 0)) != nil || !ack() {
			return exit{code: 1}
		}
		s.log("sent", path)
		return exit{}
	case strings.HasPrefix(cmd, "scp -qt "):
		path := strings.TrimPrefix(cmd, "scp -qt ")
		if !m.once {
			ch.Write([]byte{0})
		}
		h, err := br.ReadString('\n')
		if err != nil {
			return exit{code: 1}
		}
		s.log("data", h)
		if m.deny {
			fmt.Fprintf(ch, "\x01scp: %s: Permission denied\n", path)
			return exit{code: 1}
		}
		if !m.once {
			ch.Write([]byte{0})
		}
		p := strings.SplitN(strings.TrimSuffix(h, "\n"), " ", 3)
		n, err := -1, error(nil)
		if len(p) == 3 {
			n, err = strconv.Atoi(p[1])
		}
		if len(p) != 3 || len(p[0]) != 5 || p[0][0] != 'C' || err != nil || n < 0 || p[2] != filepath.Base(path) {
			s.log("bad-header", h)
			fmt.Fprintf(ch, "\x02scp: protocol error\n")
			return exit{code: 1}
		}
		data := make([]byte, n)
		if _, err := io.ReadFull(br, data); err != nil || !ack() {
			s.log("bad-data", fmt.Sprint(err))
			return exit{code: 1}
		}
		mode := p[0][1:]
		m.Lock()
		if old := m.files[path]; old != nil {
			mode = old.mode
		}
		m.files[path] = &memFile{data, mode}
		m.Unlock()
		s.log("stored", path)
		ch.Write([]byte{0})
		// sshd goes on until the client closes its side
		io.Copy(io.Discard, br)
		return exit{}
	}
	s.log("bad-command", cmd)
	return exit{code: 127}
}

// realScp runs the installed scp in a folder.
func realScp(dir string) func(s *sshSrv, cmd string, ch ssh.Channel, conn net.Conn) exit {
	return func(s *sshSrv, cmd string, ch ssh.Channel, conn net.Conn) exit {
		f := strings.Fields(cmd)
		if len(f) != 3 || f[0] != "scp" || !strings.HasPrefix(filepath.Clean(f[2]), dir+"/") {
			s.log("bad-command", cmd)
			return exit{code: 127}
		}
		code, err := runScp(f[1:], ch)
		if err != nil {
			s.log("scp", err.Error())
		}
		return exit{code: code}
	}
}

func mkdirs(p string) { os.MkdirAll(p, 0700) }
