// Package os is the simulated file system and process under the names of
// package os.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/dst/sim"
)

func fsys() *sim.FS {
	p := sim.CurProc()
	if p == nil || p.Host == nil || p.Host.FS == nil {
		panic("sim: file system use outside a host")
	}
	return p.Host.FS
}

// File is a simulated open file, or one of the standard streams.
type File struct {
	h   *sim.File
	std int
}

var (
	Stdin  = &File{std: 1}
	Stdout = &File{std: 2}
	Stderr = &File{std: 3}
	Args   = []string{"p2pcrawler"}
)

func Open(name string) (*File, error) { return OpenFile(name, real.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0666)
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	h, err := fsys().Open(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{h: h}, nil
}

func (f *File) check() error {
	if f == nil {
		return real.ErrInvalid
	}
	return nil
}
func (f *File) Name() string {
	if f.std > 0 {
		return []string{"/dev/stdin", "/dev/stdout", "/dev/stderr"}[f.std-1]
	}
	return f.h.Name()
}
func (f *File) Write(b []byte) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	if f.std > 0 {
		// no scheduling here: libraries that are not woven write to the standard
		// streams under locks the scheduler does not know
		if p := sim.CurProc(); p != nil {
			p.WriteFd(f.std-1, b)
		}
		return len(b), nil
	}
	return f.h.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Read(b []byte) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	if f.std > 0 {
		return 0, io.EOF
	}
	return f.h.Read(b)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	return f.h.ReadAt(b, off)
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	return f.h.WriteAt(b, off)
}
func (f *File) Seek(o int64, w int) (int64, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	return f.h.Seek(o, w)
}
func (f *File) Truncate(n int64) error {
	if err := f.check(); err != nil {
		return err
	}
	return f.h.Truncate(n)
}
func (f *File) Sync() error {
	if err := f.check(); err != nil {
		return err
	}
	if f.std > 0 {
		return nil
	}
	return f.h.Sync()
}
func (f *File) Close() error {
	if err := f.check(); err != nil {
		return err
	}
	if f.std > 0 {
		return nil
	}
	return f.h.Close()
}
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check(); err != nil {
		return nil, err
	}
	return f.h.Stat()
}
func (f *File) Chmod(m fs.FileMode) error {
	if err := f.check(); err != nil {
		return err
	}
	return f.h.Chmod(m)
}
func (f *File) Chown(u, g int) error               { return f.check() }
func (f *File) Fd() uintptr                        { return 3 }
func (f *File) SetDeadline(t time.Time) error      { return real.ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return real.ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return real.ErrNoDeadline }
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	if err := f.check(); err != nil {
		return nil, err
	}
	return f.h.ReadDir(n)
}
func (f *File) Readdirnames(n int) ([]string, error) {
	fi, err := f.Readdir(n)
	var out []string
	for _, i := range fi {
		out = append(out, i.Name())
	}
	return out, err
}
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	fi, err := f.Readdir(n)
	var out []fs.DirEntry
	for _, i := range fi {
		out = append(out, dirEntry{f.Name(), i})
	}
	return out, err
}

// dirEntry looks the file up when its Info is asked for, as the real one does.
type dirEntry struct {
	dir string
	i   fs.FileInfo
}

func (d dirEntry) Name() string               { return d.i.Name() }
func (d dirEntry) IsDir() bool                { return d.i.IsDir() }
func (d dirEntry) Type() fs.FileMode          { return d.i.Mode().Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return Lstat(d.dir + "/" + d.i.Name()) }
func (d dirEntry) String() string             { return fs.FormatDirEntry(d) }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func Mkdir(name string, perm fs.FileMode) error { return fsys().Mkdir(name, perm) }
func MkdirAll(name string, perm fs.FileMode) error {
	p := sim.Abs(name)
	f := fsys()
	if fi, err := f.Stat(p); err == nil {
		if fi.IsDir() {
			return nil
		}
		return &real.PathError{Op: "mkdir", Path: name, Err: syscall.ENOTDIR}
	}
	if d := path.Dir(p); d != p {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := f.Mkdir(p, perm)
	if err != nil && errors.Is(err, fs.ErrExist) {
		if fi, e2 := f.Stat(p); e2 == nil && fi.IsDir() {
			return nil
		}
	}
	return err
}
func Remove(name string) error { return fsys().Remove(name) }
func RemoveAll(name string) error {
	f := fsys()
	fi, err := f.Stat(name)
	if err != nil {
		return nil
	}
	if fi.IsDir() {
		for _, c := range f.ListDir(sim.Abs(name)) {
			if err := RemoveAll(path.Join(sim.Abs(name), c)); err != nil {
				return err
			}
		}
	}
	return f.Remove(name)
}
func Rename(a, b string) error              { return fsys().Rename(a, b) }
func Link(a, b string) error                { return fsys().Link(a, b) }
func Stat(name string) (fs.FileInfo, error) { return fsys().Stat(name) }
func Lstat(name string) (fs.FileInfo, error) {
	fi, err := fsys().Stat(name)
	if err != nil {
		if pe, ok := err.(*real.PathError); ok {
			pe.Op = "lstat"
		}
	}
	return fi, err
}
func Chmod(name string, m fs.FileMode) error    { return fsys().Chmod(name, m) }
func Chown(name string, u, g int) error         { return nil }
func Lchown(name string, u, g int) error        { return nil }
func Chtimes(name string, a, m time.Time) error { return fsys().Chtimes(name, m) }
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, real.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(name string, b []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}
func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	ds, err := f.ReadDir(-1)
	sort.Slice(ds, func(i, j int) bool { return ds[i].Name() < ds[j].Name() })
	return ds, err
}

func suffix() string { return strconv.Itoa(sim.RandInt(1 << 30)) }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
		MkdirAll(dir, 0777)
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for i := 0; ; i++ {
		f, err := OpenFile(path.Join(dir, pre+suffix()+suf), real.O_RDWR|real.O_CREATE|real.O_EXCL, 0600)
		if err != nil && errors.Is(err, fs.ErrExist) && i < 100 {
			continue
		}
		return f, err
	}
}
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
		MkdirAll(dir, 0777)
	}
	n := path.Join(dir, strings.Replace(pattern, "*", "", 1)+suffix())
	return n, Mkdir(n, 0700)
}
func TempDir() string { return "/tmp" }

func Getwd() (string, error) {
	if p := sim.CurProc(); p != nil {
		return p.Dir, nil
	}
	return "/", nil
}
func Chdir(d string) error {
	fi, err := Stat(d)
	if err != nil {
		return err
	}
	if !fi.IsDir() {
		return &real.PathError{Op: "chdir", Path: d, Err: syscall.ENOTDIR}
	}
	sim.CurProc().Dir = sim.Abs(d)
	return nil
}
func Exit(code int) { sim.Exit(code) }
func Getpid() int   { return 4242 }
func Getppid() int  { return 1 }
func Hostname() (string, error) {
	if p := sim.CurProc(); p != nil && p.Host != nil {
		return p.Host.Name, nil
	}
	return "sim", nil
}
func Getenv(k string) string            { return "" }
func LookupEnv(k string) (string, bool) { return "", false }
func Environ() []string                 { return nil }
func Setenv(k, v string) error          { return nil }
func Unsetenv(k string) error           { return nil }
func Executable() (string, error)       { return "/p2pcrawler", nil }

// Process is the current process only.
type Process struct{ Pid int }

func FindProcess(pid int) (*Process, error) { return &Process{pid}, nil }
func (p *Process) Signal(s real.Signal) error {
	if pr := sim.CurProc(); pr != nil {
		if ss, ok := s.(syscall.Signal); ok {
			sim.SignalSelf(int(ss))
		}
	}
	return nil
}
func (p *Process) Kill() error { sim.Exit(137); return nil }
