// Package vfilepath stands in for the directory walks of path/filepath.
package vfilepath

import (
	"io/fs"
	"path/filepath"

	"vsim/shim/vos"
)

func Walk(root string, fn filepath.WalkFunc) error {
	i, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, i, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, i fs.FileInfo, fn filepath.WalkFunc) error {
	if !i.IsDir() {
		return fn(p, i, nil)
	}
	l, err := vos.ReadDir(p)
	err1 := fn(p, i, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range l {
		q := filepath.Join(p, e.Name())
		ei, err := vos.Lstat(q)
		if err != nil {
			if err := fn(q, ei, err); err != nil && err != filepath.SkipDir {
				return err
			}
		} else if err := walk(q, ei, fn); err != nil {
			if !ei.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, i fs.FileInfo, err error) error {
		if i == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(i), err)
	})
}

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join("/cwd", p), nil
}
