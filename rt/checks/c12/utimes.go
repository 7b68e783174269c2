package main

import (
	"syscall"
	"unsafe"
)

// utimensat sets the times of an entry without following links.
func utimensat(p string, ts []syscall.Timespec) error {
	b, err := syscall.BytePtrFromString(p)
	if err != nil {
		return err
	}
	const atFdcwd, noFollow = -100, 0x100
	at := atFdcwd
	if _, _, e := syscall.Syscall6(syscall.SYS_UTIMENSAT, uintptr(at), uintptr(unsafe.Pointer(b)), uintptr(unsafe.Pointer(&ts[0])), noFollow, 0, 0); e != 0 {
		return e
	}
	return nil
}
