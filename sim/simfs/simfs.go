// Package simfs is the simulated file system: volatile state seen by
// processes, durable state that survives power loss, and injected faults.
package simfs

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"vsim/shim/vtime"
	"vsim/simrt"
)

// Inode is a file or directory.
type Inode struct {
	ID      int
	Dir     bool
	Data    []byte
	Durable []byte // contents as of the last sync
	Synced  bool   // Data == Durable
	Ents    map[string]*Inode
	DurEnts map[string]*Inode
	Mode    fs.FileMode
	Mtime   time.Time
	Nlink   int
}

// metadata operation not yet known to be durable
type metaOp struct {
	dir  *Inode
	name string
	from *Inode // entry before (nil: absent)
	to   *Inode // entry after (nil: removed)
	seq  int    // operations of one rename share a number
}

// Op describes one file system call to the fault hook.
type Op struct {
	Kind string // open create trunc read write close sync rename remove mkdir stat readdir chmod link
	Path string
	N    int // bytes about to be written
}

// Fault is what the hook wants to happen.
type Fault struct {
	Err   error
	Short int  // with a write: bytes written before the error (Err!=nil) or in the first part
	Kill  bool // the process dies before the operation
	After bool // with Kill: the process dies after the operation
}

type FS struct {
	Root    *Inode
	journal []metaOp
	dirty   map[*Inode]bool
	seq     int
	ids     int

	Hook func(op Op) Fault // consulted at every operation of a process under test
	// Observe sees every byte sequence that reaches a file.
	Observe func(path string, data []byte)
	// OnVersion is told every complete content a file gets: when a file that was
	// written is closed, and when a name is given to a file.
	OnVersion func(path string, data []byte)
	OnRemove  func(path string)
	Ops       int
	Opened    []*File
}

var Cur *FS

func New() *FS {
	f := &FS{dirty: map[*Inode]bool{}}
	f.Root = f.inode(true)
	f.Root.DurEnts = map[string]*Inode{}
	return f
}

func (f *FS) inode(dir bool) *Inode {
	f.ids++
	n := &Inode{ID: f.ids, Dir: dir, Mode: 0o644, Mtime: vtime.Now(), Synced: true}
	if dir {
		n.Ents = map[string]*Inode{}
		n.DurEnts = map[string]*Inode{}
		n.Mode = 0o755 | fs.ModeDir
	}
	return n
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/cwd/" + p
	}
	return path.Clean(p)
}

func (f *FS) walk(p string) (*Inode, error) {
	n := f.Root
	for _, c := range strings.Split(strings.Trim(clean(p), "/"), "/") {
		if c == "" {
			continue
		}
		if !n.Dir {
			return nil, syscall.ENOTDIR
		}
		n = n.Ents[c]
		if n == nil {
			return nil, syscall.ENOENT
		}
	}
	return n, nil
}

func (f *FS) parent(p string) (*Inode, string, error) {
	c := clean(p)
	d, b := path.Split(c)
	if b == "" {
		return nil, "", syscall.EINVAL
	}
	n, err := f.walk(d)
	if err != nil {
		return nil, "", err
	}
	if !n.Dir {
		return nil, "", syscall.ENOTDIR
	}
	return n, b, nil
}

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}

// enter is called at the start of every operation.
func (f *FS) enter(kind, p string, n int) Fault {
	simrt.Yield()
	g := simrt.Cur()
	if g == nil || !g.Proc.Strict {
		return Fault{}
	}
	f.Ops++
	if f.Hook == nil {
		return Fault{}
	}
	ft := f.Hook(Op{kind, p, n})
	if ft.Kill && !ft.After {
		simrt.S.Kill(g.Proc, "kill")
	}
	simrt.CheckKilled()
	return ft
}

func (f *FS) leave(ft Fault) {
	if ft.Kill && ft.After {
		if g := simrt.Cur(); g != nil {
			simrt.S.Kill(g.Proc, "kill")
		}
	}
	simrt.CheckKilled()
}

func (f *FS) setEnt(d *Inode, name string, to *Inode) {
	f.journal = append(f.journal, metaOp{d, name, d.Ents[name], to, f.seq})
	if to == nil {
		delete(d.Ents, name)
	} else {
		d.Ents[name] = to
	}
}

func (f *FS) touch(n *Inode) {
	n.Synced = false
	n.Mtime = vtime.Now()
	f.dirty[n] = true
}

// commit makes all pending metadata durable (an ordered journal).
func (f *FS) commit(upto int) {
	for i := 0; i < upto; i++ {
		op := f.journal[i]
		if op.to == nil {
			delete(op.dir.DurEnts, op.name)
		} else {
			op.dir.DurEnts[op.name] = op.to
		}
	}
	f.journal = append([]metaOp{}, f.journal[upto:]...)
}

func (f *FS) syncInode(n *Inode) {
	if !n.Dir {
		n.Durable = append([]byte(nil), n.Data...)
		n.Synced = true
		delete(f.dirty, n)
	}
	f.commit(len(f.journal))
}

// SyncAll makes everything durable.
func (f *FS) SyncAll() {
	for n := range f.dirty {
		n.Durable = append([]byte(nil), n.Data...)
		n.Synced = true
	}
	f.dirty = map[*Inode]bool{}
	f.commit(len(f.journal))
}

// PowerLoss reverts to a state the disk may hold after losing power: a prefix
// of the metadata journal, and for every file not synced either its old
// contents, its new contents, or a cut-off of the new ones.
func (f *FS) PowerLoss(c *simrt.Chooser) (lostMeta, lostData int) {
	// choice 0: everything had reached the disk
	keep := len(f.journal)
	if keep > 0 {
		keep -= c.N(len(f.journal) + 1)
		// operations of one rename are one transaction
		for keep > 0 && keep < len(f.journal) && f.journal[keep].seq == f.journal[keep-1].seq {
			keep--
		}
	}
	lostMeta = len(f.journal) - keep
	f.commit(keep)
	f.journal = nil
	var ds []*Inode
	for n := range f.dirty {
		ds = append(ds, n)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].ID < ds[j].ID })
	for _, n := range ds {
		switch c.N(4) {
		case 0:
			n.Durable = append([]byte(nil), n.Data...)
		case 1: // nothing of it
			lostData++
		case 2: // size updated, data not: zeroes
			lostData++
			n.Durable = make([]byte, len(n.Data))
		case 3: // a prefix
			lostData++
			k := 0
			if len(n.Data) > 0 {
				k = c.N(len(n.Data))
			}
			n.Durable = append([]byte(nil), n.Data[:k]...)
		}
	}
	f.dirty = map[*Inode]bool{}
	seen := map[*Inode]bool{}
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.Dir {
			n.Ents = map[string]*Inode{}
			for k, v := range n.DurEnts {
				n.Ents[k] = v
				rec(v)
			}
			return
		}
		n.Data = append([]byte(nil), n.Durable...)
		n.Synced = true
	}
	rec(f.Root)
	return
}

// Clone copies the file system (its volatile state, made durable).
func (f *FS) Clone() *FS {
	g := &FS{dirty: map[*Inode]bool{}, ids: f.ids}
	m := map[*Inode]*Inode{}
	var rec func(n *Inode) *Inode
	rec = func(n *Inode) *Inode {
		if c := m[n]; c != nil {
			return c
		}
		c := &Inode{ID: n.ID, Dir: n.Dir, Mode: n.Mode, Mtime: n.Mtime, Synced: true}
		m[n] = c
		if n.Dir {
			c.Ents = map[string]*Inode{}
			c.DurEnts = map[string]*Inode{}
			for k, v := range n.Ents {
				x := rec(v)
				c.Ents[k] = x
				c.DurEnts[k] = x
			}
		} else {
			c.Data = append([]byte(nil), n.Data...)
			c.Durable = append([]byte(nil), n.Data...)
		}
		return c
	}
	g.Root = rec(f.Root)
	return g
}

// Files lists all regular files and their contents (not a simulated call).
func (f *FS) Files() map[string][]byte {
	r := map[string][]byte{}
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		if !n.Dir {
			r[p] = n.Data
			return
		}
		for k, v := range n.Ents {
			rec(p+"/"+k, v)
		}
	}
	rec("", f.Root)
	return r
}

// Pending lists the files whose present contents a power loss could undo.
func (f *FS) Pending() map[string]bool {
	d := map[string][]byte{}
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		if !n.Dir {
			d[p] = n.Durable
			return
		}
		for k, v := range n.DurEnts {
			rec(p+"/"+k, v)
		}
	}
	rec("", f.Root)
	r := map[string]bool{}
	for p, b := range f.Files() {
		if x, ok := d[p]; !ok || !bytes.Equal(x, b) {
			r[p] = true
		}
	}
	return r
}

// Put sets a file's contents directly (not a simulated call).
func (f *FS) Put(p string, data []byte) {
	c := clean(p)
	n := f.Root
	parts := strings.Split(strings.Trim(c, "/"), "/")
	for i, x := range parts {
		e := n.Ents[x]
		if e == nil {
			e = f.inode(i < len(parts)-1)
			n.Ents[x] = e
			n.DurEnts[x] = e
		}
		n = e
	}
	n.Data = append([]byte(nil), data...)
	n.Durable = append([]byte(nil), data...)
}

// Get reads a file directly.
func (f *FS) Get(p string) ([]byte, bool) {
	n, err := f.walk(p)
	if err != nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// Delete removes a file or tree directly.
func (f *FS) Delete(p string) {
	d, b, err := f.parent(p)
	if err == nil {
		delete(d.Ents, b)
		delete(d.DurEnts, b)
	}
}

// ---------------------------------------------------------------- files

const (
	O_RDONLY = syscall.O_RDONLY
	O_WRONLY = syscall.O_WRONLY
	O_RDWR   = syscall.O_RDWR
	O_APPEND = syscall.O_APPEND
	O_CREATE = syscall.O_CREAT
	O_EXCL   = syscall.O_EXCL
	O_TRUNC  = syscall.O_TRUNC
)

type File struct {
	fs     *FS
	n      *Inode
	path   string
	flag   int
	pos    int64
	closed bool
	rd     bool
	wr     bool
	dirPos int
}

func (f *FS) Open(p string, flag int, perm fs.FileMode) (*File, error) {
	kind := "open"
	if flag&(O_CREATE|O_TRUNC) != 0 {
		kind = "create"
	}
	ft := f.enter(kind, p, 0)
	if ft.Err != nil {
		return nil, perr("open", p, ft.Err)
	}
	n, err := f.walk(p)
	if err == syscall.ENOENT && flag&O_CREATE != 0 {
		d, b, e := f.parent(p)
		if e != nil {
			return nil, perr("open", p, e)
		}
		n = f.inode(false)
		n.Mode = perm
		f.seq++
		f.setEnt(d, b, n)
		err = nil
	} else if err == nil && flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", p, syscall.EEXIST)
	}
	if err != nil {
		return nil, perr("open", p, err)
	}
	acc := flag & (O_WRONLY | O_RDWR)
	if n.Dir && acc != 0 {
		return nil, perr("open", p, syscall.EISDIR)
	}
	if flag&O_TRUNC != 0 && len(n.Data) > 0 {
		n.Data = nil
		f.touch(n)
	}
	f.leave(ft)
	return &File{fs: f, n: n, path: p, flag: flag, rd: acc != O_WRONLY, wr: acc != 0}, nil
}

func (x *File) Name() string { return x.path }

func (x *File) Read(b []byte) (int, error) {
	ft := x.fs.enter("read", x.path, len(b))
	if x.closed {
		return 0, perr("read", x.path, fs.ErrClosed)
	}
	if ft.Err != nil {
		return 0, perr("read", x.path, ft.Err)
	}
	if !x.rd || x.n.Dir {
		return 0, perr("read", x.path, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if x.pos >= int64(len(x.n.Data)) {
		return 0, io.EOF
	}
	n := copy(b, x.n.Data[x.pos:])
	x.pos += int64(n)
	return n, nil
}

func (x *File) ReadAt(b []byte, off int64) (int, error) {
	ft := x.fs.enter("read", x.path, len(b))
	if ft.Err != nil {
		return 0, perr("read", x.path, ft.Err)
	}
	if off >= int64(len(x.n.Data)) {
		return 0, io.EOF
	}
	n := copy(b, x.n.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (x *File) put(b []byte, off int64) {
	n := x.n
	if need := int(off) + len(b); need > len(n.Data) {
		d := make([]byte, need)
		copy(d, n.Data)
		n.Data = d
	} else {
		n.Data = append([]byte(nil), n.Data...)
	}
	copy(n.Data[off:], b)
	x.fs.touch(n)
	if x.fs.Observe != nil {
		x.fs.Observe(x.path, n.Data)
	}
}

func (x *File) write(b []byte, off int64) (int, error) {
	ft := x.fs.enter("write", x.path, len(b))
	if x.closed {
		return 0, perr("write", x.path, fs.ErrClosed)
	}
	if !x.wr {
		return 0, perr("write", x.path, syscall.EBADF)
	}
	if ft.Err != nil {
		k := ft.Short
		if k > len(b) {
			k = len(b)
		}
		if k > 0 {
			x.put(b[:k], off)
		}
		return k, perr("write", x.path, ft.Err)
	}
	if ft.Short > 0 && ft.Short < len(b) {
		// a kill between two parts of the write
		x.put(b[:ft.Short], off)
		if ft.Kill {
			x.fs.leave(ft)
		}
		simrt.Yield()
		x.put(b[ft.Short:], off+int64(ft.Short))
		return len(b), nil
	}
	if len(b) > 0 {
		x.put(b, off)
	}
	x.fs.leave(ft)
	return len(b), nil
}

func (x *File) Write(b []byte) (int, error) {
	if x.flag&O_APPEND != 0 {
		x.pos = int64(len(x.n.Data))
	}
	n, err := x.write(b, x.pos)
	x.pos += int64(n)
	return n, err
}

func (x *File) WriteString(s string) (int, error) { return x.Write([]byte(s)) }

func (x *File) WriteAt(b []byte, off int64) (int, error) { return x.write(b, off) }

func (x *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		x.pos = off
	case 1:
		x.pos += off
	case 2:
		x.pos = int64(len(x.n.Data)) + off
	}
	if x.pos < 0 {
		x.pos = 0
		return 0, perr("seek", x.path, syscall.EINVAL)
	}
	return x.pos, nil
}

func (x *File) Truncate(size int64) error {
	ft := x.fs.enter("trunc", x.path, 0)
	if ft.Err != nil {
		return perr("truncate", x.path, ft.Err)
	}
	d := make([]byte, size)
	copy(d, x.n.Data)
	x.n.Data = d
	x.fs.touch(x.n)
	x.fs.leave(ft)
	return nil
}

func (x *File) Sync() error {
	ft := x.fs.enter("sync", x.path, 0)
	if x.closed {
		return perr("sync", x.path, fs.ErrClosed)
	}
	if ft.Err != nil {
		return perr("sync", x.path, ft.Err)
	}
	x.fs.syncInode(x.n)
	x.fs.leave(ft)
	return nil
}

func (x *File) Close() error {
	if x == nil {
		return fs.ErrInvalid
	}
	ft := x.fs.enter("close", x.path, 0)
	if x.closed {
		return perr("close", x.path, fs.ErrClosed)
	}
	x.closed = true
	if ft.Err != nil {
		return perr("close", x.path, ft.Err)
	}
	if x.wr && x.fs.OnVersion != nil {
		x.fs.OnVersion(clean(x.path), x.n.Data)
	}
	x.fs.leave(ft)
	return nil
}

func (x *File) Stat() (fs.FileInfo, error) {
	ft := x.fs.enter("stat", x.path, 0)
	if ft.Err != nil {
		return nil, perr("stat", x.path, ft.Err)
	}
	return info{path.Base(clean(x.path)), x.n}, nil
}

func (x *File) Chmod(m fs.FileMode) error { x.n.Mode = m; return nil }

func (x *File) ReadDir(n int) ([]fs.DirEntry, error) {
	l, err := x.fs.ReadDir(x.path)
	if err != nil {
		return nil, err
	}
	if n <= 0 {
		return l, nil
	}
	l = l[min(x.dirPos, len(l)):]
	if len(l) == 0 {
		return nil, io.EOF
	}
	if len(l) > n {
		l = l[:n]
	}
	x.dirPos += len(l)
	return l, nil
}

func (x *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, err := x.ReadDir(n)
	var r []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}

func (x *File) Readdirnames(n int) ([]string, error) {
	l, err := x.ReadDir(n)
	var r []string
	for _, e := range l {
		r = append(r, e.Name())
	}
	return r, err
}

func (x *File) ReadFrom(r io.Reader) (int64, error) {
	buf := make([]byte, 4096)
	var t int64
	for {
		n, err := r.Read(buf)
		if n > 0 {
			k, e := x.Write(buf[:n])
			t += int64(k)
			if e != nil {
				return t, e
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

func (x *File) Fd() uintptr { return uintptr(x.n.ID) }

type info struct {
	name string
	n    *Inode
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.Data)) }
func (i info) Mode() fs.FileMode {
	return i.n.Mode
}
func (i info) ModTime() time.Time         { return i.n.Mtime }
func (i info) IsDir() bool                { return i.n.Dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.n.Mode.Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func (f *FS) Stat(p string) (fs.FileInfo, error) {
	ft := f.enter("stat", p, 0)
	if ft.Err != nil {
		return nil, perr("stat", p, ft.Err)
	}
	n, err := f.walk(p)
	if err != nil {
		return nil, perr("stat", p, err)
	}
	return info{path.Base(clean(p)), n}, nil
}

func (f *FS) ReadDir(p string) ([]fs.DirEntry, error) {
	ft := f.enter("readdir", p, 0)
	if ft.Err != nil {
		return nil, perr("open", p, ft.Err)
	}
	n, err := f.walk(p)
	if err != nil {
		return nil, perr("open", p, err)
	}
	if !n.Dir {
		return nil, perr("readdirent", p, syscall.ENOTDIR)
	}
	var names []string
	for k := range n.Ents {
		names = append(names, k)
	}
	sort.Strings(names)
	var r []fs.DirEntry
	for _, k := range names {
		r = append(r, info{k, n.Ents[k]})
	}
	return r, nil
}

func (f *FS) Mkdir(p string, perm fs.FileMode) error {
	ft := f.enter("mkdir", p, 0)
	if ft.Err != nil {
		return perr("mkdir", p, ft.Err)
	}
	if _, err := f.walk(p); err == nil {
		return perr("mkdir", p, syscall.EEXIST)
	}
	d, b, err := f.parent(p)
	if err != nil {
		return perr("mkdir", p, err)
	}
	n := f.inode(true)
	n.Mode = perm | fs.ModeDir
	f.seq++
	f.setEnt(d, b, n)
	f.leave(ft)
	return nil
}

func (f *FS) MkdirAll(p string, perm fs.FileMode) error {
	c := clean(p)
	if n, err := f.walk(c); err == nil {
		ft := f.enter("stat", p, 0)
		if ft.Err != nil {
			return perr("mkdir", p, ft.Err)
		}
		if n.Dir {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	d := path.Dir(c)
	if d != "/" && d != c {
		if _, err := f.walk(d); err != nil {
			if err := f.MkdirAll(d, perm); err != nil {
				return err
			}
		}
	}
	err := f.Mkdir(p, perm)
	if errors.Is(err, syscall.EEXIST) {
		return nil
	}
	return err
}

func (f *FS) Remove(p string) error {
	ft := f.enter("remove", p, 0)
	if ft.Err != nil {
		return perr("remove", p, ft.Err)
	}
	n, err := f.walk(p)
	if err != nil {
		return perr("remove", p, err)
	}
	if n.Dir && len(n.Ents) > 0 {
		return perr("remove", p, syscall.ENOTEMPTY)
	}
	d, b, err := f.parent(p)
	if err != nil {
		return perr("remove", p, err)
	}
	f.seq++
	f.setEnt(d, b, nil)
	if f.OnRemove != nil {
		f.OnRemove(clean(p))
	}
	f.leave(ft)
	return nil
}

func (f *FS) RemoveAll(p string) error {
	n, err := f.walk(p)
	if err != nil {
		return nil
	}
	if n.Dir {
		var names []string
		for k := range n.Ents {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if err := f.RemoveAll(p + "/" + k); err != nil {
				return err
			}
		}
	}
	return f.Remove(p)
}

func lerr(op, a, b string, err error) error {
	if err == nil {
		return nil
	}
	return &os.LinkError{Op: op, Old: a, New: b, Err: err}
}

func (f *FS) Rename(a, b string) error {
	ft := f.enter("rename", b, 0)
	if ft.Err != nil {
		return lerr("rename", a, b, ft.Err)
	}
	n, err := f.walk(a)
	if err != nil {
		return lerr("rename", a, b, err)
	}
	da, na, err := f.parent(a)
	if err != nil {
		return lerr("rename", a, b, err)
	}
	db, nb, err := f.parent(b)
	if err != nil {
		return lerr("rename", a, b, err)
	}
	if t := db.Ents[nb]; t != nil {
		if t == n {
			return nil
		}
		if t.Dir && !n.Dir {
			return lerr("rename", a, b, syscall.EISDIR)
		}
		if t.Dir && len(t.Ents) > 0 {
			return lerr("rename", a, b, syscall.ENOTEMPTY)
		}
	}
	f.seq++
	f.setEnt(db, nb, n)
	f.setEnt(da, na, nil)
	if f.OnVersion != nil && !n.Dir {
		f.OnVersion(clean(b), n.Data)
	}
	if f.Observe != nil && !n.Dir {
		f.Observe(b, n.Data)
	}
	f.leave(ft)
	return nil
}

func (f *FS) Link(a, b string) error {
	ft := f.enter("link", b, 0)
	if ft.Err != nil {
		return lerr("link", a, b, ft.Err)
	}
	n, err := f.walk(a)
	if err != nil {
		return lerr("link", a, b, err)
	}
	d, nb, err := f.parent(b)
	if err != nil {
		return lerr("link", a, b, err)
	}
	if d.Ents[nb] != nil {
		return lerr("link", a, b, syscall.EEXIST)
	}
	f.seq++
	f.setEnt(d, nb, n)
	if f.OnVersion != nil && !n.Dir {
		f.OnVersion(clean(b), n.Data)
	}
	f.leave(ft)
	return nil
}

func (f *FS) Truncate(p string, size int64) error {
	x, err := f.Open(p, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer x.Close()
	return x.Truncate(size)
}

func (f *FS) Chmod(p string, m fs.FileMode) error {
	n, err := f.walk(p)
	if err != nil {
		return perr("chmod", p, err)
	}
	n.Mode = m
	return nil
}
