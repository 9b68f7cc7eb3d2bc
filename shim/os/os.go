// Package os models the file system: a flat set of named files in memory, and
// a schedule of failures chosen by the harness.
package os

import (
	"io"
	"os"
	"syscall"
	"time"
)

// Node is a file or a directory.
type Node struct {
	Data []byte
	Perm os.FileMode
	Dir  bool
	// Writes counts the writes that reached the file.
	Writes int
}

// Names and Nodes are the file system.
var (
	Names []string
	Nodes []*Node
)

// Fault decides whether an operation fails: it is given the name of the
// operation (stat, open, read, write, sync, close, rename, remove, mkdir) and
// of the file.
var Fault = func(op, name string) error { return nil }

// Short, when not negative, is how many bytes a failing write delivers.
var Short = 0

// Ops counts the operations.
var Ops int

// Exits records the calls of Exit.
var Exits []int

// Exited is the value Exit panics with.
type Exited struct{ Code int }

func fail(op, name string) error {
	Ops++
	if err := Fault(op, name); err != nil {
		return &os.PathError{Op: op, Path: name, Err: err}
	}
	return nil
}

func perr(op, name string, e syscall.Errno) error {
	return &os.PathError{Op: op, Path: name, Err: e}
}

func find(name string) int {
	for i, n := range Names {
		if n == name {
			return i
		}
	}
	return -1
}

// Get returns the file of this name, or nil.
func Get(name string) *Node {
	if i := find(name); i >= 0 {
		return Nodes[i]
	}
	return nil
}

// Put creates or replaces a file.
func Put(name string, data []byte, perm os.FileMode) *Node {
	n := &Node{Data: append([]byte{}, data...), Perm: perm}
	if i := find(name); i >= 0 {
		Nodes[i] = n
		return n
	}
	Names = append(Names, name)
	Nodes = append(Nodes, n)
	return n
}

func drop(i int) {
	Names = append(append([]string(nil), Names[:i]...), Names[i+1:]...)
	Nodes = append(append([]*Node(nil), Nodes[:i]...), Nodes[i+1:]...)
}

type info struct {
	name string
	n    *Node
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.Data)) }
func (i info) Mode() os.FileMode {
	if i.n.Dir {
		return i.n.Perm | os.ModeDir
	}
	return i.n.Perm
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() interface{}   { return nil }

// Stat describes a file.
func Stat(name string) (os.FileInfo, error) {
	if err := fail("stat", name); err != nil {
		return nil, err
	}
	n := Get(name)
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{name, n}, nil
}

// Lstat is Stat: there are no links.
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

// File is an open file.
type File struct {
	name   string
	n      *Node
	off    int
	flag   int
	closed bool
}

// The standard streams.
var (
	Stdin  = &File{name: "/dev/stdin", n: &Node{}}
	Stdout = &File{name: "/dev/stdout", n: &Node{}, flag: os.O_WRONLY}
	Stderr = &File{name: "/dev/stderr", n: &Node{}, flag: os.O_WRONLY}
)

// OpenFile opens a file.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if err := fail("open", name); err != nil {
		return nil, err
	}
	n := Get(name)
	if n != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = Put(name, nil, perm)
	}
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n.Dir && wr {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 && wr {
		n.Data = nil
		n.Writes++
	}
	return &File{name: name, n: n, flag: flag}, nil
}

// Open opens a file for reading.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create creates or truncates a file.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 0 }

func (f *File) Stat() (os.FileInfo, error) { return info{f.name, f.n}, nil }

func (f *File) Read(b []byte) (int, error) {
	if f.closed {
		return 0, os.ErrClosed
	}
	if err := fail("read", f.name); err != nil {
		return 0, err
	}
	if f.n.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.off >= len(f.n.Data) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	k := copy(b, f.n.Data[f.off:])
	f.off += k
	return k, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f.closed {
		return 0, os.ErrClosed
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if err := fail("write", f.name); err != nil {
		k := Short
		if k > len(b) {
			k = len(b)
		}
		f.put(b[:k])
		return k, err
	}
	f.put(b)
	return len(b), nil
}

func (f *File) put(b []byte) {
	if len(b) == 0 {
		return
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = len(f.n.Data)
	}
	d := append([]byte{}, f.n.Data...)
	for len(d) < f.off+len(b) {
		d = append(d, 0)
	}
	copy(d[f.off:], b)
	f.off += len(b)
	f.n.Data = d
	f.n.Writes++
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Sync() error {
	if f.closed {
		return os.ErrClosed
	}
	return fail("sync", f.name)
}

func (f *File) Truncate(size int64) error {
	if err := fail("truncate", f.name); err != nil {
		return err
	}
	d := append([]byte{}, f.n.Data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	f.n.Data = d[:size]
	f.n.Writes++
	return nil
}

func (f *File) Chmod(mode os.FileMode) error {
	f.n.Perm = mode
	return nil
}

func (f *File) Close() error {
	if f.closed {
		return os.ErrClosed
	}
	f.closed = true
	return fail("close", f.name)
}

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := fail("read", name); err != nil {
		return nil, err
	}
	if f.n.Dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, f.n.Data...), nil
}

// WriteFile writes a whole file.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Rename moves a file.
func Rename(from, to string) error {
	if err := fail("rename", to); err != nil {
		return err
	}
	i := find(from)
	if i < 0 {
		return perr("rename", from, syscall.ENOENT)
	}
	n := Nodes[i]
	drop(i)
	if j := find(to); j >= 0 {
		Nodes[j] = n
		return nil
	}
	Names = append(Names, to)
	Nodes = append(Nodes, n)
	return nil
}

// Link makes a second name.
func Link(from, to string) error {
	if err := fail("link", to); err != nil {
		return err
	}
	n := Get(from)
	if n == nil {
		return perr("link", from, syscall.ENOENT)
	}
	if Get(to) != nil {
		return perr("link", to, syscall.EEXIST)
	}
	Names = append(Names, to)
	Nodes = append(Nodes, n)
	return nil
}

// Remove deletes a file.
func Remove(name string) error {
	if err := fail("remove", name); err != nil {
		return err
	}
	i := find(name)
	if i < 0 {
		return perr("remove", name, syscall.ENOENT)
	}
	drop(i)
	return nil
}

// RemoveAll deletes a file if it is there.
func RemoveAll(name string) error {
	if i := find(name); i >= 0 {
		drop(i)
	}
	return nil
}

// Mkdir creates a directory.
func Mkdir(name string, perm os.FileMode) error {
	if err := fail("mkdir", name); err != nil {
		return err
	}
	if Get(name) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	Put(name, nil, perm).Dir = true
	return nil
}

// MkdirAll creates a directory if it is not there.
func MkdirAll(name string, perm os.FileMode) error {
	if Get(name) != nil {
		return nil
	}
	return Mkdir(name, perm)
}

// Chmod changes permissions.
func Chmod(name string, mode os.FileMode) error {
	n := Get(name)
	if n == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	n.Perm = mode
	return nil
}

// CreateTemp creates a file with a new name.
func CreateTemp(dir, pattern string) (*File, error) {
	name := dir + "/" + pattern
	for Get(name) != nil {
		name += "x"
	}
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

// MkdirTemp creates a directory with a new name.
func MkdirTemp(dir, pattern string) (string, error) {
	name := dir + "/" + pattern
	for Get(name) != nil {
		name += "x"
	}
	return name, Mkdir(name, 0700)
}

// TempDir is where temporary files go.
func TempDir() string { return "/tmp" }

// Exit ends the process.
func Exit(code int) {
	Exits = append(Exits, code)
	panic(Exited{code})
}
