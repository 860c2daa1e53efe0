package sim

import (
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// FS is a host's file system. A process crash keeps everything the kernel had
// accepted; a power loss keeps a prefix of the metadata operations since the
// last fsync, and for files with unsynced data an arbitrary one of: old
// content, empty, a prefix, a zero-filled tail, all of it.
type FS struct {
	w        *World
	Losses   int // of power
	root     *inode
	pending  []func()
	Cfg      FSCfg
	nextIno  int
	used     int64
	Ops      int64
	Hist     []FsRec
	KeepHist bool
	OnOp     func(kind, p string)
	OnRdErr  func(p string)
	Opened   int
	open     []*File
}

type FSCfg struct {
	CreateErr float64
	WriteErr  float64 // chance a write fails (possibly after a short write)
	SyncErr   float64
	RenameErr float64
	ReadErr   float64
	Capacity  int64  // bytes; 0 = unlimited
	Prefix    string // faults only under this directory ("" = everywhere)
}

type FsRec struct {
	At   int64
	Kind string
	Path string
	N    int
	Err  string
}

type inode struct {
	id    int
	dir   bool
	data  []byte
	mode  fs.FileMode
	mtime int64
	ents  []dent
	dents []dent
	ddata []byte
	dirty bool
}

type dent struct {
	name string
	ino  *inode
}

func (h *Host) NewFS() *FS {
	f := &FS{w: h.n.w}
	f.root = f.node(true)
	h.FS = f
	h.n.w.FSs = sPush(h.n.w.FSs, f)
	return f
}

func (f *FS) node(dir bool) *inode {
	f.nextIno++
	m := fs.FileMode(0644)
	if dir {
		m = 0755 | fs.ModeDir
	}
	return &inode{id: f.nextIno, dir: dir, mode: m, mtime: f.w.Wall()}
}

func find(es []dent, name string) int {
	for i := range es {
		if es[i].name == name {
			return i
		}
	}
	return -1
}

func del(es []dent, name string) []dent {
	i := find(es, name)
	if i < 0 {
		return es
	}
	return sDel(sClone(es), i)
}
func put(es []dent, name string, n *inode) []dent {
	return sPush(sClone(del(es, name)), dent{name, n})
}

func split(p string) []string {
	p = strings.Trim(path.Clean("/"+p), "/")
	if p == "" {
		return nil
	}
	return strings.Split(p, "/")
}

// Abs resolves p against the current process's directory.
func Abs(p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	d := "/"
	if pr := CurProc(); pr != nil {
		d = pr.Dir
	}
	return path.Join(d, p)
}

func (f *FS) walk(p string) (*inode, error) {
	n := f.root
	for _, s := range split(p) {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		i := find(n.ents, s)
		if i < 0 {
			return nil, syscall.ENOENT
		}
		n = n.ents[i].ino
	}
	return n, nil
}

func (f *FS) parent(p string) (*inode, string, error) {
	s := split(p)
	if len(s) == 0 {
		return nil, "", syscall.EEXIST
	}
	d, err := f.walk(strings.Join(s[:len(s)-1], "/"))
	if err != nil {
		return nil, "", err
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, s[len(s)-1], nil
}

func (f *FS) meta(apply func()) { f.pending = sPush(f.pending, apply) }

// commit makes every metadata operation so far durable.
func (f *FS) commit() {
	for _, a := range f.pending {
		a()
	}
	f.pending = nil
}

// SyncAll makes everything durable (initial images, clean states).
func (f *FS) SyncAll() {
	f.commit()
	var rec func(n *inode)
	rec = func(n *inode) {
		if n.dir {
			for _, e := range n.ents {
				rec(e.ino)
			}
			return
		}
		n.ddata = append([]byte(nil), n.data...)
		n.dirty = false
	}
	rec(f.root)
}

// PowerLoss drops what was not durable.
func (f *FS) PowerLoss() {
	f.Losses++
	w := f.w
	k := len(f.pending) - w.Ch.N(len(f.pending)+1)
	for _, a := range f.pending[:k] {
		a()
	}
	lost := len(f.pending) - k
	f.pending = nil
	if lost > 0 {
		w.Faults.Add("metadata_lost", int64(lost))
	}
	seen := []*inode{}
	var rec func(n *inode)
	rec = func(n *inode) {
		for _, s := range seen {
			if s == n {
				return
			}
		}
		seen = sPush(seen, n)
		if n.dir {
			n.ents = sClone(n.dents)
			for _, e := range n.ents {
				rec(e.ino)
			}
			return
		}
		if n.dirty {
			switch w.Ch.N(5) {
			case 0: // everything made it
			case 1:
				n.data = append([]byte(nil), n.ddata...)
				w.Faults.Add("data_lost", 1)
			case 2:
				n.data = nil
				w.Faults.Add("data_lost", 1)
			case 3:
				if len(n.data) > 0 {
					n.data = append([]byte(nil), n.data[:w.Ch.N(len(n.data))]...)
					w.Faults.Add("torn_write", 1)
				}
			case 4:
				if len(n.data) > 0 {
					c := w.Ch.N(len(n.data))
					d := make([]byte, len(n.data))
					copy(d, n.data[:c])
					n.data = d
					w.Faults.Add("torn_write", 1)
				}
			}
			n.ddata = append([]byte(nil), n.data...)
			n.dirty = false
		}
	}
	rec(f.root)
	f.used = f.count()
	w.Log("powerloss", uint64(lost))
}

// Held is the memory the contents of the disk take.
func (f *FS) Held() int64 {
	var n int64
	var rec func(x *inode)
	rec = func(x *inode) {
		n += int64(cap(x.data))
		for _, e := range x.ents {
			rec(e.ino)
		}
	}
	rec(f.root)
	return n
}

func (f *FS) count() int64 {
	var n int64
	var rec func(x *inode)
	rec = func(x *inode) {
		n += int64(len(x.data))
		for _, e := range x.ents {
			rec(e.ino)
		}
	}
	rec(f.root)
	return n
}

// op is the prologue of every operation; it may crash the process.
func (f *FS) op(kind, p string) *Proc {
	enter()
	pr := CurProc()
	if pr == nil {
		return nil
	}
	f.Ops++
	pr.FsOps++
	f.w.Log("fs."+kind, hashBytes([]byte(p)))
	if pr.CrashOp > 0 && pr.FsOps == pr.CrashOp && kind != "write" {
		f.w.Faults.Add("crash_at_fs_op", 1)
		f.w.Kill(pr, pr.CrashPower)
	}
	return pr
}

func (f *FS) done(kind, p string, n int, err error) error {
	if f.KeepHist && len(f.Hist) < 4096 {
		r := FsRec{At: f.w.Now(), Kind: kind, Path: p, N: n}
		if err != nil {
			r.Err = err.Error()
		}
		f.Hist = sPush(f.Hist, r)
	}
	if f.OnOp != nil {
		f.OnOp(kind, p)
	}
	return err
}

func (f *FS) fault(pr *Proc, p string, prob float64, name string) bool {
	if pr == nil || prob <= 0 || !strings.HasPrefix(p, f.Cfg.Prefix) {
		return false
	}
	if f.w.Ch.Prob(prob) {
		f.w.Faults.Add(name, 1)
		return true
	}
	return false
}

func perr(op, p string, e error) error { return &os.PathError{Op: op, Path: p, Err: e} }

// File is an open file.
type File struct {
	f      *FS
	n      *inode
	Path   string
	name   string
	pos    int64
	flag   int
	closed bool
	p      *Proc
	edge   int64
}

func (f *FS) Open(name string, flag int, perm fs.FileMode) (*File, error) {
	p := Abs(name)
	pr := f.op("open", p)
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if wr && f.fault(pr, p, f.Cfg.CreateErr, "fs_open_error") {
		return nil, f.done("open", p, 0, perr("open", name, syscall.ENOSPC))
	}
	if pr != nil && pr.MaxFiles > 0 && pr.files >= pr.MaxFiles {
		f.w.Faults.Add("fs_too_many_open_files", 1)
		return nil, f.done("open", p, 0, perr("open", name, syscall.EMFILE))
	}
	n, err := f.walk(p)
	if err == nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, f.done("open", p, 0, perr("open", name, syscall.EEXIST))
	}
	if err == nil && n.dir && wr {
		return nil, f.done("open", p, 0, perr("open", name, syscall.EISDIR))
	}
	if err != nil {
		if flag&os.O_CREATE == 0 || err != syscall.ENOENT {
			return nil, f.done("open", p, 0, perr("open", name, err))
		}
		d, base, e2 := f.parent(p)
		if e2 != nil {
			return nil, f.done("open", p, 0, perr("open", name, e2))
		}
		n = f.node(false)
		n.mode = perm.Perm()
		d.ents = put(d.ents, base, n)
		f.meta(func() { d.dents = put(d.dents, base, n) })
		f.done("create", p, 0, nil)
	} else if flag&os.O_TRUNC != 0 && wr && len(n.data) > 0 {
		f.used -= int64(len(n.data))
		n.data = nil
		n.dirty = true
		f.done("trunc", p, 0, nil)
	}
	f.Opened++
	h := &File{f: f, n: n, Path: p, name: name, flag: flag, p: pr}
	f.open = sPush(f.open, h)
	if pr != nil {
		pr.files++
		pr.conns = sPush[closer](pr.conns, h)
	}
	f.done("open", p, 0, nil)
	return h, nil
}

func (h *File) procGone() {
	if !h.closed {
		h.closed = true
		h.gone()
	}
}

func (h *File) gone() {
	h.f.Opened--
	for i, o := range h.f.open {
		if o == h {
			h.f.open = sDel(h.f.open, i)
			break
		}
	}
}

// OpenUnder lists the paths of open files below a prefix.
func (f *FS) OpenUnder(prefix string) (out []string) {
	for _, o := range f.open {
		if strings.HasPrefix(o.Path, prefix) {
			out = append(out, o.Path)
		}
	}
	return
}

func (h *File) Name() string { return h.name }

func (h *File) Close() error {
	h.f.op("close", h.Path)
	if h.closed {
		return perr("close", h.name, os.ErrClosed)
	}
	h.closed = true
	h.gone()
	if h.p != nil {
		h.p.files--
		for i, c := range h.p.conns {
			if c == closer(h) {
				h.p.conns = sDel(sClone(h.p.conns), i)
				break
			}
		}
	}
	return h.f.done("close", h.Path, 0, nil)
}

func (h *File) Write(b []byte) (int, error) {
	off := h.pos
	if h.flag&os.O_APPEND != 0 {
		off = -1
	}
	n, err := h.writeAt(b, off)
	if h.flag&os.O_APPEND != 0 {
		h.pos = int64(len(h.n.data))
	} else {
		h.pos += int64(n)
	}
	return n, err
}

func (h *File) WriteAt(b []byte, off int64) (int, error) { return h.writeAt(b, off) }

func (h *File) writeAt(b []byte, off int64) (int, error) {
	f := h.f
	pr := f.op("write", h.Path)
	if len(b) > 0 {
		raceRead(unsafe.Pointer(&b[0]), len(b))
	}
	if h.closed {
		return 0, f.done("write", h.Path, 0, perr("write", h.name, os.ErrClosed))
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, f.done("write", h.Path, 0, perr("write", h.name, syscall.EBADF))
	}
	if off < 0 {
		off = int64(len(h.n.data))
	}
	k := len(b)
	var err error
	if pr != nil && pr.CrashOp > 0 && pr.FsOps == pr.CrashOp {
		// crash inside the write: a prefix got in
		k = f.w.Ch.N(len(b) + 1)
		h.apply(b[:k], off)
		f.done("write", h.Path, k, nil)
		f.w.Faults.Add("crash_at_fs_op", 1)
		f.w.Faults.Add("crash_mid_write", 1)
		f.w.Kill(pr, pr.CrashPower)
	}
	if f.fault(pr, h.Path, f.Cfg.WriteErr, "fs_write_error") {
		k = f.w.Ch.N(len(b) + 1)
		if k > 0 && k < len(b) {
			f.w.Faults.Add("fs_short_write", 1)
		}
		e := syscall.EIO
		if f.w.Ch.N(2) == 1 {
			e = syscall.ENOSPC
		}
		err = perr("write", h.name, e)
	} else if f.Cfg.Capacity > 0 && pr != nil {
		grow := off + int64(len(b)) - int64(len(h.n.data))
		if grow > 0 && f.used+grow > f.Cfg.Capacity {
			room := f.Cfg.Capacity - f.used + int64(len(h.n.data)) - off
			if room < 0 {
				room = 0
			}
			if room < int64(k) {
				k = int(room)
			}
			f.w.Faults.Add("disk_full", 1)
			err = perr("write", h.name, syscall.ENOSPC)
		}
	}
	// the data becomes visible in two steps, so that a reader or a crash may
	// see the first half of a large write
	if k > 1 && f.w.Ch.Prob(0.3) {
		half := 1 + f.w.Ch.N(k-1)
		h.apply(b[:half], off)
		f.done("write", h.Path, half, nil)
		enter()
	}
	h.apply(b[:k], off)
	return k, f.done("write", h.Path, k, err)
}

func (h *File) apply(b []byte, off int64) {
	n := h.n
	end := off + int64(len(b))
	if end > int64(len(n.data)) {
		h.f.used += end - int64(len(n.data))
		d := make([]byte, end)
		copy(d, n.data)
		n.data = d
	}
	copy(n.data[off:], b)
	n.dirty = true
	n.mtime = h.f.w.Wall()
}

func (h *File) Read(b []byte) (int, error) {
	n, err := h.ReadAt(b, h.pos)
	h.pos += int64(n)
	if n > 0 {
		err = nil
	}
	return n, err
}

func (h *File) ReadAt(b []byte, off int64) (int, error) {
	pr := h.f.op("read", h.Path)
	if h.closed {
		return 0, perr("read", h.name, os.ErrClosed)
	}
	if h.n.dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if h.f.fault(pr, h.Path, h.f.Cfg.ReadErr, "fs_read_error") {
		if h.f.OnRdErr != nil {
			h.f.OnRdErr(h.Path)
		}
		return 0, perr("read", h.name, syscall.EIO)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(h.n.data)) {
		return 0, io.EOF
	}
	raceWrite(unsafe.Pointer(&b[0]), len(b))
	k := copy(b, h.n.data[off:])
	if k < len(b) {
		return k, io.EOF
	}
	return k, nil
}

func (h *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += h.pos
	case 2:
		off += int64(len(h.n.data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.pos = off
	return off, nil
}

func (h *File) Truncate(size int64) error {
	h.f.op("truncate", h.Path)
	if size < int64(len(h.n.data)) {
		h.f.used -= int64(len(h.n.data)) - size
		h.n.data = append([]byte(nil), h.n.data[:size]...)
	} else {
		d := make([]byte, size)
		copy(d, h.n.data)
		h.f.used += size - int64(len(h.n.data))
		h.n.data = d
	}
	h.n.dirty = true
	return h.f.done("truncate", h.Path, int(size), nil)
}

func (h *File) Sync() error {
	pr := h.f.op("sync", h.Path)
	if h.closed {
		return perr("sync", h.name, os.ErrClosed)
	}
	if h.f.fault(pr, h.Path, h.f.Cfg.SyncErr, "fs_sync_error") {
		return h.f.done("sync", h.Path, 0, perr("sync", h.name, syscall.EIO))
	}
	h.f.commit()
	if !h.n.dir {
		h.n.ddata = append([]byte(nil), h.n.data...)
		h.n.dirty = false
	}
	return h.f.done("sync", h.Path, 0, nil)
}

func (h *File) Stat() (os.FileInfo, error) {
	if h.closed {
		return nil, perr("stat", h.name, os.ErrClosed)
	}
	return info(path.Base(h.Path), h.n), nil
}

func (h *File) ReadDir(n int) ([]os.FileInfo, error) {
	if !h.n.dir {
		return nil, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	var out []os.FileInfo
	for _, e := range h.n.ents {
		out = sPush(out, info(e.name, e.ino))
	}
	if int(h.pos) >= len(out) {
		if n > 0 {
			return nil, io.EOF
		}
		return nil, nil
	}
	out = out[h.pos:]
	if n > 0 && n < len(out) {
		out = out[:n]
	}
	h.pos += int64(len(out))
	return out, nil
}

func (h *File) Chmod(m fs.FileMode) error {
	h.f.op("chmod", h.Path)
	h.n.mode = h.n.mode&^0777 | m.Perm()
	return nil
}

func (f *FS) Mkdir(name string, perm fs.FileMode) error {
	p := Abs(name)
	f.op("mkdir", p)
	d, base, err := f.parent(p)
	if err == nil && find(d.ents, base) >= 0 {
		err = syscall.EEXIST
	}
	if err != nil {
		return f.done("mkdir", p, 0, perr("mkdir", name, err))
	}
	n := f.node(true)
	d.ents = put(d.ents, base, n)
	f.meta(func() { d.dents = put(d.dents, base, n) })
	return f.done("mkdir", p, 0, nil)
}

func (f *FS) Remove(name string) error {
	p := Abs(name)
	f.op("remove", p)
	d, base, err := f.parent(p)
	var n *inode
	if err == nil {
		if i := find(d.ents, base); i < 0 {
			err = syscall.ENOENT
		} else {
			n = d.ents[i].ino
			if n.dir && len(n.ents) > 0 {
				err = syscall.ENOTEMPTY
			}
		}
	}
	if err != nil {
		return f.done("remove", p, 0, perr("remove", name, err))
	}
	f.used -= int64(len(n.data))
	d.ents = del(d.ents, base)
	f.meta(func() { d.dents = del(d.dents, base) })
	return f.done("remove", p, 0, nil)
}

func (f *FS) Rename(from, to string) error {
	a, b := Abs(from), Abs(to)
	pr := f.op("rename", b)
	if f.fault(pr, b, f.Cfg.RenameErr, "fs_rename_error") {
		return f.done("rename", b, 0, &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EIO})
	}
	d1, n1, err := f.parent(a)
	var d2 *inode
	var n2 string
	var ino *inode
	if err == nil {
		d2, n2, err = f.parent(b)
	}
	if err == nil {
		i := find(d1.ents, n1)
		if i < 0 {
			err = syscall.ENOENT
		} else {
			ino = d1.ents[i].ino
			if j := find(d2.ents, n2); j >= 0 {
				if d2.ents[j].ino.dir != ino.dir {
					err = syscall.EISDIR
				} else if d2.ents[j].ino != ino {
					f.used -= int64(len(d2.ents[j].ino.data))
				}
			}
		}
	}
	if err != nil {
		return f.done("rename", b, 0, &os.LinkError{Op: "rename", Old: from, New: to, Err: err})
	}
	d1.ents = del(d1.ents, n1)
	d2.ents = put(d2.ents, n2, ino)
	f.meta(func() {
		d1.dents = del(d1.dents, n1)
		d2.dents = put(d2.dents, n2, ino)
	})
	return f.done("rename", b, 0, nil)
}

func (f *FS) Link(from, to string) error {
	a, b := Abs(from), Abs(to)
	f.op("link", b)
	n, err := f.walk(a)
	var d *inode
	var base string
	if err == nil {
		d, base, err = f.parent(b)
	}
	if err == nil && find(d.ents, base) >= 0 {
		err = syscall.EEXIST
	}
	if err != nil {
		return f.done("link", b, 0, &os.LinkError{Op: "link", Old: from, New: to, Err: err})
	}
	d.ents = put(d.ents, base, n)
	f.meta(func() { d.dents = put(d.dents, base, n) })
	return f.done("link", b, 0, nil)
}

func (f *FS) Stat(name string) (os.FileInfo, error) {
	p := Abs(name)
	f.op("stat", p)
	n, err := f.walk(p)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return info(path.Base(p), n), nil
}

func (f *FS) Chmod(name string, m fs.FileMode) error {
	p := Abs(name)
	f.op("chmod", p)
	n, err := f.walk(p)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.mode = n.mode&^0777 | m.Perm()
	return nil
}

func (f *FS) Chtimes(name string, t time.Time) error {
	n, err := f.walk(Abs(name))
	if err != nil {
		return perr("chtimes", name, err)
	}
	n.mtime = t.UnixNano()
	return nil
}

type finfo struct {
	name string
	size int64
	mode fs.FileMode
	mt   int64
}

func info(name string, n *inode) os.FileInfo {
	return &finfo{name, int64(len(n.data)), n.mode, n.mtime}
}
func (i *finfo) Name() string       { return i.name }
func (i *finfo) Size() int64        { return i.size }
func (i *finfo) Mode() fs.FileMode  { return i.mode }
func (i *finfo) ModTime() time.Time { return time.Unix(0, i.mt).UTC() }
func (i *finfo) IsDir() bool        { return i.mode.IsDir() }
func (i *finfo) Sys() interface{}   { return &syscall.Stat_t{} }

// ---- harness access (no faults, no scheduling) ----

func (f *FS) Peek(p string) ([]byte, bool) {
	n, err := f.walk(p)
	if err != nil || n.dir {
		return nil, false
	}
	return n.data, true
}

func (f *FS) ListDir(p string) []string {
	n, err := f.walk(p)
	if err != nil {
		return nil
	}
	var out []string
	for _, e := range n.ents {
		out = sPush(out, e.name)
	}
	sort.Strings(out)
	return out
}

func (f *FS) IsDirP(p string) bool {
	n, err := f.walk(p)
	return err == nil && n.dir
}

// Preload creates a durable file (and its directories).
func (f *FS) Preload(p string, b []byte) {
	f.commit() // what was pending is older
	s := split(p)
	n := f.root
	for _, x := range s[:len(s)-1] {
		i := find(n.ents, x)
		if i < 0 {
			d := f.node(true)
			n.ents = put(n.ents, x, d)
			n.dents = put(n.dents, x, d)
			n = d
		} else {
			n = n.ents[i].ino
		}
	}
	x := f.node(false)
	x.data = append([]byte(nil), b...)
	x.ddata = append([]byte(nil), b...)
	n.ents = put(n.ents, s[len(s)-1], x)
	n.dents = put(n.dents, s[len(s)-1], x)
	f.used += int64(len(b))
}

// Unload removes a file.
func (f *FS) Unload(p string) {
	f.commit()
	d, base, err := f.parent(p)
	if err != nil {
		return
	}
	if i := find(d.ents, base); i >= 0 {
		f.used -= int64(len(d.ents[i].ino.data))
	}
	d.ents = del(d.ents, base)
	d.dents = del(d.dents, base)
}

// Tree lists every directory (with a trailing slash) and file.
func (f *FS) Tree() (out []string) {
	var rec func(p string)
	rec = func(p string) {
		for _, e := range f.ListDir(p) {
			q := path.Join(p, e)
			if f.IsDirP(q) {
				out = sPush(out, q+"/")
				rec(q)
			} else {
				out = sPush(out, q)
			}
		}
	}
	rec("/")
	return
}

func (f *FS) PreloadDir(p string) {
	f.Preload(path.Join(p, ".keep"), nil)
	d, base, _ := f.parent(path.Join(p, ".keep"))
	d.ents = del(d.ents, base)
	d.dents = del(d.dents, base)
}
