// Package vos is the part of package os a server may use, on an in-memory file
// system that survives simulated crashes.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"strconv"
	"syscall"
	"time"

	"github.com/IfanTsai/metis/verif/rt"
)

type inode struct {
	data  []byte
	nSync int // bytes covered by the last fsync
	mode  fs.FileMode
}

// Files is the directory.
var Files = map[string]*inode{}

// Names lists the files in creation order.
var Names []string

// FailWrite, when set, may make a write fail or be short.
var FailWrite func(name string, n int) (int, error)

// FailSync, when set, may make a sync fail.
var FailSync func(name string) error

// Torn, when set, tells how many bytes of a write a crash in it leaves behind.
var Torn func(n int) int

// PowerLoss cuts every file to what its last fsync covers.
func PowerLoss() {
	for _, name := range Names {
		n := Files[name]
		n.data = n.data[:n.nSync:n.nSync]
	}
}

var tmpSeq int

type (
	FileInfo  = fs.FileInfo
	FileMode  = fs.FileMode
	PathError = fs.PathError
	Signal    = interface {
		String() string
		Signal()
	}
)

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModePerm      = fs.ModePerm
	PathSeparator = '/'
	DevNull       = "/dev/null"
)

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrClosed     = fs.ErrClosed
	ErrInvalid    = fs.ErrInvalid
	ErrPermission = fs.ErrPermission
	Args          = []string{"metis"}
	Stdout        = &File{name: "/dev/stdout", n: &inode{}, flag: O_WRONLY}
	Stderr        = &File{name: "/dev/stderr", n: &inode{}, flag: O_WRONLY}
)

type File struct {
	name   string
	n      *inode
	off    int
	flag   int
	closed bool
}

type info struct {
	name string
	size int64
	mode fs.FileMode
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() fs.FileMode  { return i.mode }
func (i *info) ModTime() time.Time { return time.Time{} }
func (i *info) IsDir() bool        { return false }
func (i *info) Sys() any           { return nil }

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func put(name string, n *inode) {
	if Files[name] == nil {
		Names = append(Names, name)
	}
	Files[name] = n
}

func drop(name string) {
	delete(Files, name)
	for i, x := range Names {
		if x == name {
			Names = append(Names[:i:i], Names[i+1:]...)
			return
		}
	}
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	n := Files[name]
	if n == nil {
		if flag&O_CREATE == 0 || name == "" {
			return nil, perr("open", name, syscall.ENOENT)
		}
		rt.CrashPoint()
		n = &inode{mode: perm}
		put(name, n)
		rt.Note("create", name, 0, 0)
	} else if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if flag&O_TRUNC != 0 && flag&3 != O_RDONLY {
		rt.CrashPoint()
		n.data = nil
		n.nSync = 0
		rt.Note("truncate", name, 0, 0)
	}
	return &File{name: name, n: n, flag: flag}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func TempDir() string { return "/tmp" }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	for i := 0; i < len(pattern); i++ {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
		}
	}
	tmpSeq++
	return OpenFile(dir+"/"+pre+strconv.Itoa(tmpSeq)+suf, O_RDWR|O_CREATE|O_EXCL, 0o600)
}

func Remove(name string) error {
	if Files[name] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if rt.Unwinding {
		return nil
	}
	rt.CrashPoint()
	drop(name)
	rt.Note("remove", name, 0, 0)
	return nil
}

func RemoveAll(name string) error {
	if Files[name] == nil {
		return nil
	}
	return Remove(name)
}

func Rename(from, to string) error {
	n := Files[from]
	if n == nil || to == "" {
		return perr("rename", from, syscall.ENOENT)
	}
	if rt.Unwinding {
		return nil
	}
	rt.CrashPoint()
	drop(from)
	put(to, n)
	rt.Note("rename", from+">"+to, 0, 0)
	return nil
}

func Stat(name string) (fs.FileInfo, error) {
	n := Files[name]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return &info{name, int64(len(n.data)), n.mode}, nil
}

func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func ReadFile(name string) ([]byte, error) {
	n := Files[name]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	return append([]byte(nil), n.data...), nil
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	return err
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	return f.Truncate(size)
}

func MkdirAll(string, fs.FileMode) error { return nil }
func Mkdir(string, fs.FileMode) error    { return nil }
func Getpid() int                        { return 4242 }
func Getenv(string) string               { return "" }
func Getwd() (string, error)             { return "/", nil }
func Hostname() (string, error)          { return "host", nil }
func IsNotExist(err error) bool          { return errors.Is(err, fs.ErrNotExist) }
func IsExist(err error) bool             { return errors.Is(err, fs.ErrExist) }
func Exit(code int)                      { panic("os.Exit(" + strconv.Itoa(code) + ")") }

func (f *File) check(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, fs.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 100 }

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&3 == O_RDONLY {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if rt.Unwinding {
		return len(b), nil
	}
	n := len(b)
	if rt.CrashIn == 1 && Torn != nil {
		f.put(b[:Torn(n)])
	}
	rt.CrashPoint()
	if err := f.check("write"); err != nil {
		return 0, err
	}
	var werr error
	if FailWrite != nil {
		n, werr = FailWrite(f.name, n)
	}
	f.put(b[:n])
	rt.Note("write", f.name, 0, n)
	rt.Written()
	if werr != nil {
		return n, perr("write", f.name, werr)
	}
	return n, nil
}

func (f *File) put(b []byte) {
	if f.flag&O_APPEND != 0 {
		f.off = len(f.n.data)
	}
	if f.off > len(f.n.data) {
		f.n.data = append(f.n.data, make([]byte, f.off-len(f.n.data))...)
	}
	k := copy(f.n.data[f.off:], b)
	f.n.data = append(f.n.data, b[k:]...)
	f.off += len(b)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	o := f.off
	f.off = int(off)
	n, err := f.Write(b)
	f.off = o
	return n, err
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.flag&3 == O_WRONLY {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.off:])
	f.off += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if int(off) >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += int64(f.off)
	case 2:
		off += int64(len(f.n.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = int(off)
	return off, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if f.flag&3 == O_RDONLY {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	if rt.Unwinding {
		return nil
	}
	rt.CrashPoint()
	if int(size) <= len(f.n.data) {
		f.n.data = f.n.data[:size:size]
	} else {
		f.n.data = append(f.n.data, make([]byte, int(size)-len(f.n.data))...)
	}
	if f.n.nSync > int(size) {
		f.n.nSync = int(size)
	}
	rt.Note("truncate", f.name, 0, int(size))
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if rt.Unwinding {
		return nil
	}
	rt.CrashPoint()
	if err := f.check("sync"); err != nil {
		return err
	}
	if FailSync != nil {
		if err := FailSync(f.name); err != nil {
			return perr("sync", f.name, err)
		}
	}
	f.n.nSync = len(f.n.data)
	rt.Note("fsync", f.name, 0, len(f.n.data))
	return nil
}

func (f *File) Chmod(mode fs.FileMode) error { f.n.mode = mode; return nil }

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if rt.Unwinding {
		return nil
	}
	rt.FileOp()
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	rt.FileOp()
	return nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	rt.FileOp()
	return &info{f.name, int64(len(f.n.data)), f.n.mode}, nil
}

// Content returns the bytes of a file (nil when absent).
func Content(name string) []byte {
	n := Files[name]
	if n == nil {
		return nil
	}
	return n.data
}

// Exists tells whether a file exists.
func Exists(name string) bool { return Files[name] != nil }

// SetContent replaces a file.
func SetContent(name string, b []byte) {
	put(name, &inode{data: b, nSync: len(b), mode: 0o644})
}

// Synced is the number of bytes of the file covered by its last fsync.
func Synced(name string) int {
	n := Files[name]
	if n == nil {
		return 0
	}
	return n.nSync
}

// Count is the number of files.
func Count() int { return len(Files) }
