package main

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"
)

// openPTY makes a pseudo terminal; the slave starts in raw mode, so what is typed ahead arrives as it is.
func openPTY() (master, slave *os.File, err error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ioctl := func(f *os.File, req, arg uintptr) error {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, arg); e != 0 {
			return e
		}
		return nil
	}
	var n uint32
	var unlock int32
	if err := ioctl(m, 0x40045431, uintptr(unsafe.Pointer(&unlock))); err != nil {
		m.Close()
		return nil, nil, err
	}
	if err := ioctl(m, 0x80045430, uintptr(unsafe.Pointer(&n))); err != nil {
		m.Close()
		return nil, nil, err
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	var tio syscall.Termios
	if err := ioctl(s, syscall.TCGETS, uintptr(unsafe.Pointer(&tio))); err == nil {
		tio.Iflag &^= syscall.ICRNL | syscall.IXON | syscall.INLCR | syscall.IGNCR
		tio.Lflag &^= syscall.ICANON | syscall.ECHO | syscall.ISIG | syscall.IEXTEN
		tio.Cc[syscall.VMIN], tio.Cc[syscall.VTIME] = 1, 0
		ioctl(s, syscall.TCSETS, uintptr(unsafe.Pointer(&tio)))
	}
	return m, s, nil
}

var ttyAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
