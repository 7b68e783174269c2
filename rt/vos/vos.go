// Package vos stands in for os: every path given to it is recorded, operations that change
// the file system are confined to Root, and Exit is reported to the check.
package vos

import (
	"errors"
	"fmt"
	realos "os"
	"path/filepath"
	"strings"
	realtime "time"

	"verif/vlog"
)

var (
	// Args of the program under check.
	Args = []string{"saratoga"}
	// Root confines changes; empty: none are allowed.
	Root string
	// Record collects the operations when not nil.
	Record *[]Op
	// Host is the name of the machine.
	Host = "verifhost"
	// Pid of the program.
	Pid = 4242
	// Cwd, when set, is what Getwd says; Chdir only records.
	Cwd string
)

// Op is one call with its path.
type Op struct {
	Name  string
	Path  string
	Write bool
}

// Inside reports whether path (made absolute, links in its directory followed) is in root.
func Inside(root, path string) bool {
	if root == "" {
		return false
	}
	abs := resolve(path)
	r := resolve(root)
	return abs == r || strings.HasPrefix(abs, r+"/")
}

func resolve(path string) string {
	abs, err := filepath.Abs(path)
	if err != nil {
		return path
	}
	dir, base := filepath.Split(abs)
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		return filepath.Join(d, base)
	}
	return abs
}

var errGuard = errors.New("outside the scratch directory of the check")

func note(name, path string, write bool) error {
	if Record != nil {
		*Record = append(*Record, Op{name, path, write})
	}
	if write && !Inside(Root, path) {
		return &realos.PathError{Op: name, Path: path, Err: errGuard}
	}
	return nil
}

func Exit(code int) { vlog.Die(fmt.Sprintf("os.Exit(%d)", code)) }

func Hostname() (string, error) { return Host, nil }
func Getpid() int               { return Pid }

func Chdir(dir string) error {
	note("chdir", dir, false)
	fi, err := realos.Stat(dir)
	if err != nil {
		return &realos.PathError{Op: "chdir", Path: dir, Err: errors.Unwrap(err)}
	}
	if !fi.IsDir() {
		return &realos.PathError{Op: "chdir", Path: dir, Err: errors.New("not a directory")}
	}
	if !Inside(Root, dir) {
		return nil
	}
	return realos.Chdir(dir)
}

func Open(name string) (*File, error) { return OpenFile(name, realos.O_RDONLY, 0) }

func Create(name string) (*File, error) {
	return OpenFile(name, realos.O_RDWR|realos.O_CREATE|realos.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	w := flag&(realos.O_WRONLY|realos.O_RDWR|realos.O_CREATE|realos.O_TRUNC|realos.O_APPEND) != 0
	if err := note("open", name, w); err != nil {
		return nil, err
	}
	// a named pipe or device must not block the check
	if fi, err := realos.Stat(name); err == nil && fi.Mode()&(realos.ModeNamedPipe|realos.ModeSocket) != 0 {
		flag |= 0x800 // O_NONBLOCK
	}
	return realos.OpenFile(name, flag, perm)
}

func ReadFile(name string) ([]byte, error) {
	note("readfile", name, false)
	return realos.ReadFile(name)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	if err := note("writefile", name, true); err != nil {
		return err
	}
	return realos.WriteFile(name, data, perm)
}

func Remove(name string) error {
	if err := note("remove", name, true); err != nil {
		return err
	}
	return realos.Remove(name)
}

func RemoveAll(name string) error {
	if err := note("removeall", name, true); err != nil {
		return err
	}
	return realos.RemoveAll(name)
}

func Rename(a, b string) error {
	if err := note("rename", a, true); err != nil {
		return err
	}
	if err := note("rename", b, true); err != nil {
		return err
	}
	return realos.Rename(a, b)
}

func Link(a, b string) error {
	if err := note("link", b, true); err != nil {
		return err
	}
	return realos.Link(a, b)
}

func Symlink(a, b string) error {
	if err := note("symlink", b, true); err != nil {
		return err
	}
	return realos.Symlink(a, b)
}

func Mkdir(name string, perm FileMode) error {
	if err := note("mkdir", name, true); err != nil {
		return err
	}
	return realos.Mkdir(name, perm)
}

func MkdirAll(name string, perm FileMode) error {
	if err := note("mkdirall", name, true); err != nil {
		return err
	}
	return realos.MkdirAll(name, perm)
}

func Truncate(name string, n int64) error {
	if err := note("truncate", name, true); err != nil {
		return err
	}
	return realos.Truncate(name, n)
}

func Chmod(name string, m FileMode) error {
	if err := note("chmod", name, true); err != nil {
		return err
	}
	return realos.Chmod(name, m)
}

func Chown(name string, u, g int) error {
	if err := note("chown", name, true); err != nil {
		return err
	}
	return realos.Chown(name, u, g)
}

func Lchown(name string, u, g int) error {
	if err := note("lchown", name, true); err != nil {
		return err
	}
	return realos.Lchown(name, u, g)
}

func Chtimes(name string, a, m realtime.Time) error {
	if err := note("chtimes", name, true); err != nil {
		return err
	}
	return realos.Chtimes(name, a, m)
}

func Stat(name string) (FileInfo, error) {
	note("stat", name, false)
	return realos.Stat(name)
}

func Lstat(name string) (FileInfo, error) {
	note("lstat", name, false)
	return realos.Lstat(name)
}

func ReadDir(name string) ([]DirEntry, error) {
	note("readdir", name, false)
	return realos.ReadDir(name)
}

func Readlink(name string) (string, error) {
	note("readlink", name, false)
	return realos.Readlink(name)
}
