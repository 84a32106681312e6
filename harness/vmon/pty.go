package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"regexp"
	"strings"
	"syscall"
	"unsafe"
)

// openTerminal returns the two sides of a new pseudo-terminal.
func openTerminal() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var unlock, n int32
	for _, c := range []struct {
		req uintptr
		arg *int32
	}{{syscall.TIOCSPTLCK, &unlock}, {syscall.TIOCGPTN, &n}} {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), c.req, uintptr(unsafe.Pointer(c.arg))); e != 0 {
			master.Close()
			return nil, nil, e
		}
	}
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

var colourCode = regexp.MustCompile("\x1b\\[[0-9;]*m")

// onTerminal runs capslock with a terminal as standard output.  It returns what
// was written, without colours, and the number of colour codes.  ok is false if
// there are no terminals here.
func (r *Run) onTerminal(dir string, args ...string) (res Result, codes int, ok bool) {
	master, slave, err := openTerminal()
	if err != nil {
		return Result{}, 0, false
	}
	var out bytes.Buffer
	done := make(chan bool)
	go func() {
		io.Copy(&out, master) // ends with an error when the other side is closed
		close(done)
	}()
	res = r.capslockOpt(CmdOpt{Dir: dir, Stdout: slave, Env: []string{"TERM=xterm"}}, args...)
	slave.Close()
	<-done
	master.Close()
	text := strings.ReplaceAll(out.String(), "\r\n", "\n")
	codes = len(colourCode.FindAllString(text, -1))
	res.Out = colourCode.ReplaceAllString(text, "")
	return res, codes, true
}
