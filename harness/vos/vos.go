// Package vos stands in for package os in the code under test (through a
// build overlay). It passes everything on to the real file system and lets
// the harness record every file operation and make any of them fail.
package vos

import (
	"errors"
	"io"
	"os"
	"sync"
	"syscall"
)

// Event is one file operation, as seen below the code under test.
type Event struct {
	Seq  int    // position among all operations since Reset
	Op   string // create open write seek sync close read stat truncate rename remove
	Path string
	To   string // new name of a rename
	Off  int64  // position of a read or write, size of a truncate
	Data []byte // bytes to be written
	N    int    // bytes asked for by a read
	Sync bool   // write through a descriptor opened for synchronous writing
}

// Fault is what happens to an operation.
type Fault struct {
	Err   error // nil: the operation is carried out
	Short int   // bytes a failing read or write still transfers
}

// ErrInjected is the error of injected faults.
var ErrInjected = errors.New("injected input/output error")

var (
	mu      sync.Mutex
	seq     int
	decide  func(Event) Fault
	observe func(Event) // called once an operation has been carried out
	kept    []*os.File  // every file opened since Reset, so that the garbage collector closes none
)

// Reset installs the harness's hooks (nil for none).
func Reset(d func(Event) Fault, o func(Event)) {
	mu.Lock()
	defer mu.Unlock()
	seq, decide, observe, kept = 0, d, o, nil
}

// Count is the number of operations since Reset.
func Count() int {
	mu.Lock()
	defer mu.Unlock()
	return seq
}

func ask(e *Event) Fault {
	e.Seq = seq
	seq++
	if decide == nil {
		return Fault{}
	}
	return decide(*e)
}

func done(e Event) {
	if observe != nil {
		observe(e)
	}
}

// do runs one operation that transfers no bytes.
func do(e Event, f func() error) error {
	mu.Lock()
	defer mu.Unlock()
	if ft := ask(&e); ft.Err != nil {
		return &os.PathError{Op: e.Op, Path: e.Path, Err: ft.Err}
	}
	err := f()
	if err == nil {
		done(e)
	}
	return err
}

// File is os.File with its operations routed through the hooks.
type File struct {
	*os.File
	path   string
	append bool
	sync   bool
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	op := "open"
	if flag&os.O_TRUNC != 0 {
		op = "create"
	}
	var f *os.File
	err := do(Event{Op: op, Path: name}, func() (err error) {
		if f, err = os.OpenFile(name, flag, perm); err == nil {
			kept = append(kept, f)
		}
		return err
	})
	if err != nil {
		return nil, err
	}
	return &File{File: f, path: name, append: flag&os.O_APPEND != 0, sync: flag&(syscall.O_SYNC|syscall.O_DSYNC) != 0}, nil
}

func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }

func CreateTemp(dir, pattern string) (*File, error) {
	var f *os.File
	err := do(Event{Op: "stat", Path: dir}, func() (err error) {
		if f, err = os.CreateTemp(dir, pattern); err == nil {
			kept = append(kept, f)
		}
		return err
	})
	if err != nil {
		return nil, err
	}
	mu.Lock()
	done(Event{Op: "create", Path: f.Name()})
	mu.Unlock()
	return &File{File: f, path: f.Name()}, nil
}

func NewFile(fd uintptr, name string) *File {
	f := os.NewFile(fd, name)
	if f == nil {
		return nil
	}
	return &File{File: f, path: name}
}

func Pipe() (r *File, w *File, err error) {
	a, b, err := os.Pipe()
	if err != nil {
		return nil, nil, err
	}
	return &File{File: a}, &File{File: b}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Rename(a, b string) error {
	return do(Event{Op: "rename", Path: a, To: b}, func() error { return os.Rename(a, b) })
}

func Link(a, b string) error {
	return do(Event{Op: "link", Path: a, To: b}, func() error { return os.Link(a, b) })
}

func Remove(name string) error {
	return do(Event{Op: "remove", Path: name}, func() error { return os.Remove(name) })
}

func RemoveAll(name string) error {
	return do(Event{Op: "remove", Path: name}, func() error { return os.RemoveAll(name) })
}

func Truncate(name string, size int64) error {
	return do(Event{Op: "truncate", Path: name, Off: size}, func() error { return os.Truncate(name, size) })
}

func Stat(name string) (fi FileInfo, err error) {
	err = do(Event{Op: "stat", Path: name}, func() error { fi, err = os.Stat(name); return err })
	return
}

func Lstat(name string) (fi FileInfo, err error) {
	err = do(Event{Op: "stat", Path: name}, func() error { fi, err = os.Lstat(name); return err })
	return
}

// ---- methods

func (f *File) pos() int64 {
	if f.append {
		if fi, err := f.File.Stat(); err == nil {
			return fi.Size()
		}
		return -1
	}
	p, err := f.File.Seek(0, io.SeekCurrent)
	if err != nil {
		return -1
	}
	return p
}

func (f *File) write(b []byte, off int64, w func([]byte) (int, error)) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	e := Event{Op: "write", Path: f.path, Off: off, Data: b, Sync: f.sync}
	ft := ask(&e)
	if ft.Err != nil {
		n := 0
		if ft.Short > 0 {
			n = min(ft.Short, len(b))
			n, _ = w(b[:n])
			part := e
			part.Data = b[:n]
			done(part)
		}
		return n, &os.PathError{Op: "write", Path: f.path, Err: ft.Err}
	}
	n, err := w(b)
	if n > 0 {
		part := e
		part.Data = b[:n]
		done(part)
	}
	return n, err
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	return f.write(b, f.pos(), f.File.Write)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	return f.write(b, off, func(b []byte) (int, error) { return f.File.WriteAt(b, off) })
}

// ReadFrom and WriteTo hide the fast paths of os.File.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) read(b []byte, off int64, r func([]byte) (int, error)) (int, error) {
	mu.Lock()
	e := Event{Op: "read", Path: f.path, Off: off, N: len(b)}
	ft := ask(&e)
	mu.Unlock()
	if ft.Err != nil {
		n := 0
		if ft.Short > 0 {
			n, _ = r(b[:min(ft.Short, len(b))])
		}
		if ft.Err == io.EOF {
			return n, io.EOF
		}
		return n, &os.PathError{Op: "read", Path: f.path, Err: ft.Err}
	}
	n, err := r(b)
	if observe != nil {
		mu.Lock()
		done(e)
		mu.Unlock()
	}
	return n, err
}

func (f *File) Read(b []byte) (int, error) { return f.read(b, f.pos(), f.File.Read) }

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	return f.read(b, off, func(b []byte) (int, error) { return f.File.ReadAt(b, off) })
}

func (f *File) Seek(off int64, whence int) (p int64, err error) {
	err = do(Event{Op: "seek", Path: f.path, Off: off}, func() error { p, err = f.File.Seek(off, whence); return err })
	return
}

func (f *File) Sync() error { return do(Event{Op: "sync", Path: f.path}, f.File.Sync) }

// Close always gives the descriptor back, as the kernel does.
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	mu.Lock()
	defer mu.Unlock()
	e := Event{Op: "close", Path: f.path}
	ft := ask(&e)
	err := f.File.Close()
	if err == nil {
		done(e)
	}
	if ft.Err != nil {
		return &os.PathError{Op: "close", Path: f.path, Err: ft.Err}
	}
	return err
}

func (f *File) Truncate(size int64) error {
	return do(Event{Op: "truncate", Path: f.path, Off: size}, func() error { return f.File.Truncate(size) })
}

func (f *File) Stat() (fi FileInfo, err error) {
	err = do(Event{Op: "stat", Path: f.path}, func() error { fi, err = f.File.Stat(); return err })
	return
}

// Fd hands out the descriptor: what is done through it cannot be seen, so
// the file counts as synced from there on.
func (f *File) Fd() uintptr {
	mu.Lock()
	done(Event{Op: "fd", Path: f.path})
	mu.Unlock()
	return f.File.Fd()
}
