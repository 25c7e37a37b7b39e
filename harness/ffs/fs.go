// Package ffs has a file system with faults.
package ffs

import (
	"os"
	"path/filepath"

	"github.com/spf13/afero"
)

// FaultFs is a file system in which opening or reading a file fails.
type FaultFs struct {
	afero.Fs
	Path  string // of the file
	Err   error
	After int // bytes which can be read, or -1 if it can't be opened
}

func (f *FaultFs) Open(name string) (afero.File, error) {
	if filepath.Clean(name) != filepath.Clean(f.Path) {
		return f.Fs.Open(name)
	}
	if f.After < 0 {
		return nil, &os.PathError{Op: "open", Path: name, Err: f.Err}
	}
	file, err := f.Fs.Open(name)
	if err != nil {
		return nil, err
	}
	return &faultFile{File: file, fs: f, left: f.After}, nil
}

func (f *FaultFs) OpenFile(name string, flag int, perm os.FileMode) (afero.File, error) {
	return f.Open(name)
}

type faultFile struct {
	afero.File
	fs   *FaultFs
	left int
}

func (f *faultFile) Read(b []byte) (int, error) {
	if f.left == 0 {
		return 0, &os.PathError{Op: "read", Path: f.fs.Path, Err: f.fs.Err}
	}
	n, err := f.File.Read(b[:min(len(b), f.left)])
	f.left -= n
	return n, err
}
