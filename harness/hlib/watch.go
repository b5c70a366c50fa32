//go:build go1.21

package hlib

import (
	"fmt"
	"os"
	"sync/atomic"
	"syscall"
	"time"
)

const curSize = 4096

var curMem []byte
var curCount int64

// Begin notes the input being worked on in file $CUR, where it survives a crash of the
// process. With the first call a watchdog is started, which stops the process (exit code 5)
// if the real code does not come to an end with an input.
func Begin(key string) {
	if curMem == nil {
		f, err := os.OpenFile(os.Getenv("CUR"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
		if err != nil {
			Die("cannot create $CUR: %v", err)
		}
		f.Truncate(curSize)
		if curMem, err = syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err != nil {
			Die("mmap: %v", err)
		}
		f.Close()
		go watch(time.Duration(Int("HANG", 40)) * time.Second)
	}
	atomic.AddInt64(&curCount, 1)
	n := copy(curMem[:curSize-1], key)
	curMem[n] = 0
	for i := n; i < curSize && i < n+256; i++ {
		curMem[i] = 0
	}
}

// Done notes that there is no input being worked on.
func Done() { Begin("") }

func watch(limit time.Duration) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(limit / 40)
		n := atomic.LoadInt64(&curCount)
		if n != last || curMem[0] == 0 {
			last, since = n, time.Now()
		} else if time.Since(since) > limit {
			fmt.Fprintln(os.Stderr, "no end within the time limit")
			os.Exit(5)
		}
	}
}

// Safely calls f and returns the text of a panic, or "".
func Safely(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}
