// Package ffs stands in for the file system: it records what is created and
// written and touches no real file.
package ffs

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"
	"time"

	"github.com/anivanovic/gotit/internal/verif/vs"
)

type Write struct {
	Off  int64
	Data []byte
}

type File struct {
	Path   string
	Flag   int
	F      *os.File
	Writes []Write
	Pos    int64
	Closed int
	Src    *Source
}

// Source is something that is there before the run.
type Source struct {
	Path  string
	Data  []byte
	IsDir bool
	// Special is for something else than a directory or a regular file.
	Special bool
	// ReadFails makes reading fail.
	ReadFails bool
}

type info struct {
	name string
	size int64
	dir  bool
	spec bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	if i.spec {
		return fs.ModeNamedPipe | 0o644
	}
	return 0o644
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }

var (
	Files []*File
	// Sources is what is there to be read; nil leaves every open succeed
	// with an empty file.
	Sources []*Source
	Dirs    []string // directories created, or asked to exist
	Other   []string // anything else asked for: removals, renames
	// OpenFails, MkdirFails and WriteFails say how many times the operation
	// may fail.
	OpenFails, MkdirFails, WriteFails int
	// Exists makes Mkdir report that the directory is there.
	Exists bool
	// Before is called before every write.
	Before func()
	// Failed counts injected write failures.
	Failed int
)

var ErrIO = errors.New("injected failure")

func source(name string) *Source {
	for _, s := range Sources {
		if s.Path == name {
			return s
		}
	}
	return nil
}

// Created lists what was opened for writing.
func Created() (fs []*File) {
	for _, f := range Files {
		if f.Flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE) != 0 {
			fs = append(fs, f)
		}
	}
	return fs
}

func find(f *os.File) *File {
	for _, x := range Files {
		if x.F == f {
			return x
		}
	}
	return nil
}

//verif:hook os.OpenFile OpenFile
func OpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	if strings.HasPrefix(name, "/dev/") {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	if OpenFails > 0 && vs.Bool("openfails") {
		OpenFails--
		return nil, &fs.PathError{Op: "open", Path: name, Err: ErrIO}
	}
	f := &File{Path: name, Flag: flag, F: new(os.File)}
	if Sources != nil {
		f.Src = source(name)
		if f.Src == nil && flag&os.O_CREATE == 0 {
			return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
		}
	}
	Files = append(Files, f)
	return f.F, nil
}

//verif:hook os.Mkdir Mkdir
func Mkdir(name string, perm fs.FileMode) error {
	if MkdirFails > 0 && vs.Bool("mkdirfails") {
		MkdirFails--
		return &fs.PathError{Op: "mkdir", Path: name, Err: ErrIO}
	}
	Dirs = append(Dirs, name)
	if Exists {
		return &fs.PathError{Op: "mkdir", Path: name, Err: fs.ErrExist}
	}
	return nil
}

//verif:hook os.MkdirAll MkdirAll
func MkdirAll(path string, perm fs.FileMode) error {
	if MkdirFails > 0 && vs.Bool("mkdirfails") {
		MkdirFails--
		return &fs.PathError{Op: "mkdir", Path: path, Err: ErrIO}
	}
	Dirs = append(Dirs, path)
	return nil
}

//verif:hook os.Remove Remove
func Remove(name string) error { Other = append(Other, name); return nil }

//verif:hook os.RemoveAll RemoveAll
func RemoveAll(path string) error { Other = append(Other, path); return nil }

//verif:hook os.Rename Rename
func Rename(oldpath, newpath string) error { Other = append(Other, newpath); return nil }

//verif:hook os.Truncate Truncate
func Truncate(name string, size int64) error { Other = append(Other, name); return nil }

//verif:hook os.Stat Stat
func Stat(name string) (fs.FileInfo, error) {
	if s := source(name); s != nil {
		return info{s.Path, int64(len(s.Data)), s.IsDir, s.Special}, nil
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
}

//verif:hook os.Lstat Lstat
func Lstat(name string) (fs.FileInfo, error) {
	if s := source(name); s != nil {
		return info{s.Path, int64(len(s.Data)), s.IsDir, s.Special}, nil
	}
	return nil, &fs.PathError{Op: "lstat", Path: name, Err: fs.ErrNotExist}
}

func write(f *os.File, b []byte, off int64) (int, error) {
	x := find(f)
	if x == nil {
		return len(b), nil
	}
	if Before != nil {
		Before()
	}
	if x.Closed > 0 {
		return 0, fs.ErrClosed
	}
	if WriteFails > 0 && vs.Bool("diskfails") {
		WriteFails--
		Failed++
		return 0, ErrIO
	}
	x.Writes = append(x.Writes, Write{off, append([]byte(nil), b...)})
	return len(b), nil
}

//verif:hook (*os.File).WriteAt WriteAt
func WriteAt(f *os.File, b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	return write(f, b, off)
}

//verif:hook (*os.File).Read Read
func Read(f *os.File, b []byte) (int, error) {
	x := find(f)
	if x == nil || x.Src == nil {
		return 0, io.EOF
	}
	if x.Src.ReadFails || x.Src.IsDir {
		return 0, &fs.PathError{Op: "read", Path: x.Path, Err: ErrIO}
	}
	if x.Pos >= int64(len(x.Src.Data)) {
		return 0, io.EOF
	}
	n := copy(b, x.Src.Data[x.Pos:])
	x.Pos += int64(n)
	return n, nil
}

//verif:hook (*os.File).Stat FStat
func FStat(f *os.File) (fs.FileInfo, error) {
	x := find(f)
	if x == nil || x.Src == nil {
		return info{}, nil
	}
	return info{x.Path, int64(len(x.Src.Data)), x.Src.IsDir, x.Src.Special}, nil
}

//verif:hook (*os.File).Write FWrite
func FWrite(f *os.File, b []byte) (int, error) {
	x := find(f)
	if x == nil {
		return len(b), nil
	}
	n, err := write(f, b, x.Pos)
	x.Pos += int64(n)
	return n, err
}

//verif:hook (*os.File).Seek Seek
func Seek(f *os.File, offset int64, whence int) (int64, error) {
	x := find(f)
	if x == nil {
		return 0, nil
	}
	switch whence {
	case 0:
		x.Pos = offset
	case 1:
		x.Pos += offset
	}
	return x.Pos, nil
}

//verif:hook (*os.File).Close Close
func Close(f *os.File) error {
	if x := find(f); x != nil {
		x.Closed++
	}
	return nil
}

//verif:hook (*os.File).Sync Sync
func Sync(f *os.File) error { return nil }

//verif:hook (*os.File).Truncate FTruncate
func FTruncate(f *os.File, size int64) error { return nil }

//verif:hook (*os.File).Name Name
func Name(f *os.File) string {
	if x := find(f); x != nil {
		return x.Path
	}
	return ""
}
