// Package vos stands in for the parts of package os that touch files or end
// the process.
package vos

import (
	"io"
	"io/fs"
	"os"
	"strconv"
	"time"

	"vsim/simfs"
	"vsim/simrt"
)

type File = simfs.File

func f() *simfs.FS {
	if simfs.Cur == nil {
		panic("vos: file access outside of a simulation")
	}
	return simfs.Cur
}

func Open(p string) (*File, error)   { return f().Open(p, os.O_RDONLY, 0) }
func Create(p string) (*File, error) { return f().Open(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666) }
func OpenFile(p string, flag int, perm fs.FileMode) (*File, error) {
	return f().Open(p, flag, perm)
}

func ReadFile(p string) ([]byte, error) {
	x, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer x.Close()
	return io.ReadAll(x)
}

func WriteFile(p string, b []byte, perm fs.FileMode) error {
	x, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = x.Write(b)
	if e := x.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Remove(p string) error                            { return f().Remove(p) }
func RemoveAll(p string) error                         { return f().RemoveAll(p) }
func Rename(a, b string) error                         { return f().Rename(a, b) }
func Link(a, b string) error                           { return f().Link(a, b) }
func Mkdir(p string, m fs.FileMode) error              { return f().Mkdir(p, m) }
func MkdirAll(p string, m fs.FileMode) error           { return f().MkdirAll(p, m) }
func Stat(p string) (fs.FileInfo, error)               { return f().Stat(p) }
func Lstat(p string) (fs.FileInfo, error)              { return f().Stat(p) }
func ReadDir(p string) ([]fs.DirEntry, error)          { return f().ReadDir(p) }
func Truncate(p string, n int64) error                 { return f().Truncate(p, n) }
func Chmod(p string, m fs.FileMode) error              { return f().Chmod(p, m) }
func Chtimes(p string, a time.Time, m time.Time) error { return nil }
func TempDir() string                                  { return "/tmp" }
func Getwd() (string, error)                           { return "/cwd", nil }
func Getpid() int                                      { return 4242 }
func Hostname() (string, error)                        { return "simhost", nil }
func Exit(code int)                                    { simrt.Exit(code) }

var tmpSeq int

func temp(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
			break
		}
	}
	// a random name, as the real function makes one
	n := uint32(0)
	if g := simrt.Cur(); g != nil {
		n = uint32(g.Proc.Rand.Uint64())
	}
	return dir + "/" + pre + strconv.Itoa(int(n)) + suf
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(temp(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := temp(dir, pattern)
	return n, Mkdir(n, 0o700)
}
