package vshim

import (
	"bufio"
	"bytes"
	"fmt"
	"net"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// A daemon built with scheduling points asks a controller (the harness) for leave before every statement
// and in place of every sleep. Each goroutine has a connection of its own.

var ctrl = os.Getenv("VERIF_CTRL")

type link struct {
	c net.Conn
	r *bufio.Reader
}

var links sync.Map // goroutine id -> *link

func goid() int {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = bytes.TrimPrefix(s, []byte("goroutine "))
	i := bytes.IndexByte(s, ' ')
	n, _ := strconv.Atoi(string(s[:i]))
	return n
}

func ask(msg string) {
	id := goid()
	x, ok := links.Load(id)
	if !ok {
		c, err := net.Dial("unix", ctrl)
		if err != nil {
			fmt.Fprintln(os.Stderr, "vshim: no controller:", err)
			os.Exit(97)
		}
		x = &link{c, bufio.NewReader(c)}
		links.Store(id, x)
	}
	l := x.(*link)
	if _, err := fmt.Fprintf(l.c, "%d %s\n", id, msg); err != nil {
		os.Exit(98)
	}
	if _, err := l.r.ReadString('\n'); err != nil {
		os.Exit(98)
	}
}

func where() string {
	_, file, line, _ := runtime.Caller(2)
	for i := len(file) - 1; i >= 0; i-- {
		if file[i] == '/' {
			file = file[i+1:]
			break
		}
	}
	return fmt.Sprintf("%s:%d", file, line)
}

// Step is put before every statement.
func Step() {
	if ctrl != "" {
		ask("step " + where())
		return
	}
	schedStep()
}

// StepRecv is put before a statement that receives from a channel.
func StepRecv() {
	if ctrl != "" {
		ask("recv " + where())
		return
	}
	schedStep()
}

// Sleep stands for time.Sleep.
func Sleep(d time.Duration) {
	if ctrl == "" {
		time.Sleep(d)
		return
	}
	ask("sleep " + fmt.Sprint(int64(d/time.Millisecond)) + " " + where())
}
