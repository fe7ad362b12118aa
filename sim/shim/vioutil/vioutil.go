// Package vioutil stands in for the file functions of io/ioutil.
package vioutil

import (
	"io/fs"

	"vsim/shim/vos"
)

func ReadFile(p string) ([]byte, error)                 { return vos.ReadFile(p) }
func WriteFile(p string, b []byte, m fs.FileMode) error { return vos.WriteFile(p, b, m) }
func TempFile(dir, pattern string) (*vos.File, error)   { return vos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return vos.MkdirTemp(dir, pattern) }
func ReadDir(p string) ([]fs.FileInfo, error) {
	l, err := vos.ReadDir(p)
	if err != nil {
		return nil, err
	}
	var r []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, nil
}
