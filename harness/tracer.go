package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"unsafe"
)

// vtrace runs a program under ptrace, watches the system calls that change files below one
// directory, looks at some files after every one of them, and can make a chosen one fail.

// Fault is applied at the N-th watched call, counted from 0 (N < 0: none).
type Fault struct {
	N      int    `json:"n"`
	Mode   string `json:"mode"` // kill-before, kill-after, error, short (part of a write, then an error), torn (part of a write, then death)
	Errno  int    `json:"errno,omitempty"`
	Part   int    `json:"part,omitempty"`   // bytes written by short and torn
	Sticky bool   `json:"sticky,omitempty"` // all later calls that need space fail as well
}

type traceConf struct {
	Watch   string   `json:"watch"`
	Targets []string `json:"targets"`
	Fault   Fault    `json:"fault"`
	Chunk   int      `json:"chunk,omitempty"` // writes are cut to at most this many bytes
	Log     string   `json:"log"`
	Store   string   `json:"store"` // folder for the contents seen
}

type traceRec struct {
	N     int      `json:"n"`
	Call  string   `json:"call"`
	Path  string   `json:"path"`
	Path2 string   `json:"path2,omitempty"`
	Size  int      `json:"size,omitempty"`
	Ret   int64    `json:"ret"`
	Fault string   `json:"fault,omitempty"`
	Seen  []string `json:"seen,omitempty"` // one per target: hash, "absent" or "?"
	End   string   `json:"end,omitempty"`
}

const (
	ptGetSyscallInfo = 0x420e
	oWriteMask       = syscall.O_WRONLY | syscall.O_RDWR | syscall.O_CREAT | syscall.O_TRUNC
)

type sysInfo struct {
	Op   uint8
	_    [3]uint8
	Arch uint32
	IP   uint64
	SP   uint64
	Data [8]uint64 // entry: nr, args; exit: rval, is_error
}

func getSysInfo(tid int) (*sysInfo, bool) {
	var si sysInfo
	_, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, ptGetSyscallInfo, uintptr(tid), unsafe.Sizeof(si), uintptr(unsafe.Pointer(&si)), 0, 0)
	return &si, e == 0
}

func peekString(tid int, addr uint64) string {
	var out []byte
	buf := make([]byte, 64)
	for len(out) < 4096 {
		n, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(out)), buf)
		if err != nil || n == 0 {
			n = 0
			// near the end of a mapping
			if m, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(out)), buf[:8]); err == nil {
				n = m
			}
			if n == 0 {
				break
			}
		}
		for i := 0; i < n; i++ {
			if buf[i] == 0 {
				return string(append(out, buf[:i]...))
			}
		}
		out = append(out, buf[:n]...)
	}
	return string(out)
}

type watchedCall struct {
	name   string
	fd     int // argument with the file descriptor, -1: none
	path   int // argument with a path, -1: none
	dirfd  int
	path2  int
	dirfd2 int
	flags  int // argument with open flags
	size   int // argument with the size
	space  bool
}

var watchedCalls = map[uint64]watchedCall{
	1:   {"write", 0, -1, -1, -1, -1, -1, 2, true},
	18:  {"pwrite64", 0, -1, -1, -1, -1, -1, 2, true},
	20:  {"writev", 0, -1, -1, -1, -1, -1, -1, true},
	296: {"pwritev", 0, -1, -1, -1, -1, -1, -1, true},
	326: {"copy_file_range", 2, -1, -1, -1, -1, -1, -1, true},
	40:  {"sendfile", 0, -1, -1, -1, -1, -1, -1, true},
	275: {"splice", 2, -1, -1, -1, -1, -1, -1, true},
	2:   {"open", -1, 0, -1, -1, -1, 1, -1, true},
	85:  {"creat", -1, 0, -1, -1, -1, -1, -1, true},
	257: {"openat", -1, 1, 0, -1, -1, 2, -1, true},
	437: {"openat2", -1, 1, 0, -1, -1, -1, -1, true},
	3:   {"close", 0, -1, -1, -1, -1, -1, -1, false},
	74:  {"fsync", 0, -1, -1, -1, -1, -1, -1, false},
	75:  {"fdatasync", 0, -1, -1, -1, -1, -1, -1, false},
	77:  {"ftruncate", 0, -1, -1, -1, -1, -1, -1, false},
	76:  {"truncate", -1, 0, -1, -1, -1, -1, -1, false},
	285: {"fallocate", 0, -1, -1, -1, -1, -1, -1, true},
	91:  {"fchmod", 0, -1, -1, -1, -1, -1, -1, false},
	90:  {"chmod", -1, 0, -1, -1, -1, -1, -1, false},
	268: {"fchmodat", -1, 1, 0, -1, -1, -1, -1, false},
	82:  {"rename", -1, 0, -1, 1, -1, -1, -1, true},
	264: {"renameat", -1, 1, 0, 3, 2, -1, -1, true},
	316: {"renameat2", -1, 1, 0, 3, 2, -1, -1, true},
	86:  {"link", -1, 0, -1, 1, -1, -1, -1, true},
	265: {"linkat", -1, 1, 0, 3, 2, -1, -1, true},
	88:  {"symlink", -1, 1, -1, -1, -1, -1, -1, true},
	266: {"symlinkat", -1, 2, 1, -1, -1, -1, -1, true},
	87:  {"unlink", -1, 0, -1, -1, -1, -1, -1, false},
	263: {"unlinkat", -1, 1, 0, -1, -1, -1, -1, false},
	83:  {"mkdir", -1, 0, -1, -1, -1, -1, -1, true},
	258: {"mkdirat", -1, 1, 0, -1, -1, -1, -1, true},
}

func standTrace() {
	runtime.LockOSThread()
	var conf traceConf
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &conf)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "vtrace:", err)
		os.Exit(98)
	}
	lf, err := os.OpenFile(conf.Log, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0600)
	if err != nil {
		os.Exit(98)
	}
	put := func(r traceRec) {
		b, _ := json.Marshal(r)
		lf.Write(append(b, '\n'))
	}
	look := func() []string {
		var out []string
		for _, p := range conf.Targets {
			b, err := os.ReadFile(p)
			switch {
			case os.IsNotExist(err):
				out = append(out, "absent")
			case err != nil:
				out = append(out, "?")
			default:
				h := sha256.Sum256(b)
				s := hex.EncodeToString(h[:8])
				f := filepath.Join(conf.Store, s)
				if _, err := os.Stat(f); err != nil {
					os.WriteFile(f, b, 0600)
				}
				out = append(out, s)
			}
		}
		return out
	}
	pid, err := syscall.ForkExec(os.Args[2], os.Args[2:], &syscall.ProcAttr{
		Env: os.Environ(), Files: []uintptr{0, 1, 2}, Sys: &syscall.SysProcAttr{Ptrace: true}})
	if err != nil {
		put(traceRec{End: "cannot trace: " + err.Error()})
		os.Exit(98)
	}
	put(traceRec{N: -1, Call: "start", Seen: look()})
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, 0, nil); err != nil || !ws.Stopped() {
		put(traceRec{End: "cannot trace"})
		os.Exit(98)
	}
	const opts = 1 | syscall.PTRACE_O_TRACECLONE | 0x100000 // TRACESYSGOOD, EXITKILL
	if err := syscall.PtraceSetOptions(pid, opts); err != nil {
		put(traceRec{End: "cannot trace: " + err.Error()})
		syscall.Kill(pid, syscall.SIGKILL)
		os.Exit(98)
	}
	syscall.PtraceSyscall(pid, 0)

	inside := func(p string) bool {
		return p == conf.Watch || strings.HasPrefix(p, conf.Watch+"/")
	}
	type pending struct {
		rec    traceRec
		setRet *int64
		kill   bool
	}
	entry := map[int]*pending{}
	n := 0
	sticky := false
	code, end := 0, ""
	kill := func() {
		syscall.Kill(pid, syscall.SIGKILL)
	}
	for {
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			break
		}
		if ws.Exited() || ws.Signaled() {
			delete(entry, tid)
			if tid == pid {
				if ws.Exited() {
					code, end = ws.ExitStatus(), fmt.Sprintf("exit %d", ws.ExitStatus())
				} else {
					code, end = 128+int(ws.Signal()), "signal "+ws.Signal().String()
				}
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		if sig != syscall.SIGTRAP|0x80 {
			s := int(sig)
			if sig == syscall.SIGTRAP || sig == syscall.SIGSTOP {
				s = 0
			}
			syscall.PtraceSyscall(tid, s)
			continue
		}
		si, ok := getSysInfo(tid)
		if !ok {
			syscall.PtraceSyscall(tid, 0)
			continue
		}
		if si.Op == 2 {
			if p := entry[tid]; p != nil {
				delete(entry, tid)
				if p.setRet != nil {
					var regs syscall.PtraceRegs
					if syscall.PtraceGetRegs(tid, &regs) == nil {
						regs.Rax = uint64(*p.setRet)
						syscall.PtraceSetRegs(tid, &regs)
					}
					p.rec.Ret = *p.setRet
				} else {
					p.rec.Ret = int64(si.Data[0])
				}
				p.rec.Seen = look()
				put(p.rec)
				if p.kill {
					kill()
					continue
				}
			}
			syscall.PtraceSyscall(tid, 0)
			continue
		}
		if si.Op != 1 {
			syscall.PtraceSyscall(tid, 0)
			continue
		}
		wc, ok := watchedCalls[si.Data[0]]
		if !ok {
			syscall.PtraceSyscall(tid, 0)
			continue
		}
		args := si.Data[1:7]
		rec := traceRec{Call: wc.name}
		abs := func(pi, di int) string {
			p := peekString(tid, args[pi])
			if strings.HasPrefix(p, "/") {
				return filepath.Clean(p)
			}
			base, _ := os.Readlink(fmt.Sprintf("/proc/%d/cwd", tid))
			if di >= 0 && int32(args[di]) >= 0 {
				base, _ = os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", tid, int32(args[di])))
			}
			return filepath.Join(base, p)
		}
		if wc.fd >= 0 {
			rec.Path, _ = os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", tid, int32(args[wc.fd])))
			rec.Path = strings.TrimSuffix(rec.Path, " (deleted)")
			if wc.name == "close" && rec.Path != "" {
				// closing what was only read does not matter
				fl := fdFlags(tid, int(int32(args[wc.fd])))
				if fl&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
					rec.Path = ""
				}
			}
		} else {
			rec.Path = abs(wc.path, wc.dirfd)
			if wc.path2 >= 0 {
				rec.Path2 = abs(wc.path2, wc.dirfd2)
			}
		}
		match := inside(rec.Path) || inside(rec.Path2)
		if match && wc.flags >= 0 && args[wc.flags]&oWriteMask == 0 {
			match = false
		}
		if !match {
			syscall.PtraceSyscall(tid, 0)
			continue
		}
		rec.N = n
		n++
		if wc.size >= 0 {
			rec.Size = int(args[wc.size])
		}
		p := &pending{rec: rec}
		setArg := func(i int, v uint64) {
			var regs syscall.PtraceRegs
			if syscall.PtraceGetRegs(tid, &regs) != nil {
				return
			}
			switch i {
			case 2:
				regs.Rdx = v
			}
			syscall.PtraceSetRegs(tid, &regs)
		}
		fail := func(errno int) {
			var regs syscall.PtraceRegs
			if syscall.PtraceGetRegs(tid, &regs) != nil {
				return
			}
			regs.Orig_rax = ^uint64(0) // no such call
			syscall.PtraceSetRegs(tid, &regs)
			r := -int64(errno)
			p.setRet = &r
		}
		if conf.Chunk > 0 && wc.size == 2 && rec.Size > conf.Chunk {
			setArg(2, uint64(conf.Chunk))
		}
		f := conf.Fault
		if f.Part >= rec.Size { // sizes vary a little from run to run
			f.Part = 0
			if rec.Size > 1 {
				f.Part = rec.Size - 1
			}
		}
		if sticky && wc.space {
			fail(f.Errno)
			p.rec.Fault = "sticky"
		} else if f.Mode != "" && rec.N == f.N {
			p.rec.Fault = f.Mode
			switch f.Mode {
			case "kill-before":
				p.rec.Seen = look()
				put(p.rec)
				kill()
				continue
			case "kill-after":
				p.kill = true
			case "torn":
				if wc.size == 2 {
					setArg(2, uint64(f.Part))
				}
				p.kill = true
			case "short":
				if wc.size == 2 {
					setArg(2, uint64(f.Part))
					sticky = true
				}
			case "error":
				fail(f.Errno)
				sticky = f.Sticky
			}
		}
		entry[tid] = p
		syscall.PtraceSyscall(tid, 0)
	}
	put(traceRec{N: n, Call: "end", End: end, Seen: look()})
	os.Exit(code)
}

func fdFlags(tid, fd int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/fdinfo/%d", tid, fd))
	if err != nil {
		return 0
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "flags:") {
			var v int
			fmt.Sscanf(strings.TrimSpace(strings.TrimPrefix(l, "flags:")), "%o", &v)
			return v
		}
	}
	return 0
}
