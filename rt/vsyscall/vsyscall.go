// Package vsyscall stands in for syscall: socket options succeed, and the file system
// statistics are chosen by the check.
package vsyscall

import (
	"sync"
	realsyscall "syscall"
)

const SO_REUSEPORT = 0xf

// StatfsHook, when set, replaces Statfs.
var StatfsHook func(path string, st *Statfs_t) error

func Statfs(path string, st *Statfs_t) error {
	if StatfsHook != nil {
		return StatfsHook(path, st)
	}
	return realsyscall.Statfs(path, st)
}

// SockoptHook, when set, replaces SetsockoptInt.
var SockoptHook func(fd, level, opt, value int) error

func SetsockoptInt(fd, level, opt int, value int) error {
	if SockoptHook != nil {
		return SockoptHook(fd, level, opt, value)
	}
	return nil
}

func denied(name string) error { return realsyscall.EPERM }

func Unlink(path string) error                        { return denied(path) }
func Rmdir(path string) error                         { return denied(path) }
func Rename(from, to string) error                    { return denied(from) }
func Mount(a, b, c string, d uintptr, e string) error { return denied(b) }
func Unmount(a string, f int) error                   { return denied(a) }
func Kill(pid int, sig Signal) error                  { return realsyscall.EPERM }
func Reboot(cmd int) error                            { return realsyscall.EPERM }
func Truncate(path string, n int64) error             { return denied(path) }
func Exit(code int)                                   { ExitHook(code) }

// ExitHook ends the program under check.
var ExitHook = func(code int) { panic("process ended: syscall.Exit") }

// ForkLock is not shared with the real one.
var ForkLock sync.RWMutex
