package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"unsafe"
)

// what the stand-in for the pager writes before what it is given
const pagerMark = "\x01pager\x01"

func ioctl(f *os.File, req, arg uintptr) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, arg); e != 0 {
		panic(fmt.Sprintf("ioctl %x: %v", req, e))
	}
}

// onTerminal runs the command with a terminal of w columns and h lines as its standard output.
func onTerminal(c *exec.Cmd, out io.Writer, w, h int, pager bool, root string) error {
	fd, e := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if e != nil {
		panic(e)
	}
	m := os.NewFile(uintptr(fd), "ptmx")
	defer m.Close()
	var n uint32
	var zero int32
	ioctl(m, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero)))
	ioctl(m, syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
	// the other end, from the first if it can be had there (TIOCGPTPEER), otherwise by name
	peer, _, no := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x5441, uintptr(syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC))
	sd := int(peer)
	if no != 0 {
		if sd, e = syscall.Open(fmt.Sprintf("/dev/pts/%d", n), syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0); e != nil {
			panic(e)
		}
	}
	t := os.NewFile(uintptr(sd), "pts")
	var tio syscall.Termios
	ioctl(t, syscall.TCGETS, uintptr(unsafe.Pointer(&tio)))
	tio.Oflag &^= syscall.OPOST
	ioctl(t, syscall.TCSETS, uintptr(unsafe.Pointer(&tio)))
	size := [4]uint16{uint16(h), uint16(w)}
	ioctl(t, syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&size)))

	bin := filepath.Join(root, "bin")
	if err := os.MkdirAll(bin, 0755); err != nil {
		panic(err)
	}
	os.Remove(filepath.Join(bin, "less"))
	if pager {
		// colours need -r or -R
		put(filepath.Join(bin, "less"), "#!/bin/sh\ncase \"$*\" in -r|-R|-FR|-RF) printf '\\001pager\\001';; *) printf '\\001pager %s\\001' \"$*\";; esac\nexec /bin/cat\n")
		if err := os.Chmod(filepath.Join(bin, "less"), 0755); err != nil {
			panic(err)
		}
	}
	for i, v := range c.Env {
		if strings.HasPrefix(v, "PATH=") {
			c.Env[i] = "PATH=" + bin
		}
	}
	c.Stdout = t
	done := make(chan bool)
	go func() {
		io.Copy(out, m) // ends with an error when the terminal's other end is closed
		close(done)
	}()
	err := c.Start()
	t.Close()
	if err == nil {
		err = c.Wait()
	}
	<-done
	return err
}
