// Package simos replaces package os in instrumented code. Files are real files
// below the scratch directory of a simulated host; every operation is a
// scheduling point and may be hit by an injected fault, and writes that were
// not synced can be lost when the host loses power.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
	sim "verifsim"
)

// Disk is the durable storage of one simulated host.
type Disk struct {
	Name   string
	Root   string
	Track  bool                   // remember unsynced writes (power loss)
	Faulty func(path string) bool // which files can be hit by faults (nil: none)
	Bad    func(path string) bool // files whose medium is broken: every read fails
	Full   bool                   // every allocation fails with ENOSPC
	Writes int                    // write operations so far
	inodes map[string]*inode
	Ops    map[string]int

	MetaFailed map[string]bool // files whose stat or removal has ever failed

	Hazard bool // power failed while a file's last sync had failed
}

type pend struct {
	off     int64
	old     []byte
	oldSize int64
	data    []byte
	trunc   bool
}

type inode struct {
	pending []pend
	failed  bool // the last sync failed
}

func disks() map[string]*Disk {
	if sim.S == nil {
		return nil
	}
	d, _ := sim.S.Data["disks"].(map[string]*Disk)
	if d == nil {
		d = map[string]*Disk{}
		sim.S.Data["disks"] = d
	}
	return d
}

// NewDisk declares root as the storage of a host.
func NewDisk(name, root string) *Disk {
	root = filepath.Clean(root)
	d := &Disk{Name: name, Root: root, inodes: map[string]*inode{}, Ops: map[string]int{}}
	disks()[root] = d
	return d
}

func diskOf(path string) *Disk {
	for r, d := range disks() {
		if strings.HasPrefix(path, r+"/") || path == r {
			return d
		}
	}
	return nil
}

func abs(p string) string {
	if !filepath.IsAbs(p) {
		if n := sim.CurNode(); n != nil {
			if cwd, ok := n.Data["cwd"].(string); ok {
				return filepath.Join(cwd, p)
			}
		}
	}
	return filepath.Clean(p)
}

func (d *Disk) node(p string) *inode {
	i := d.inodes[p]
	if i == nil {
		i = &inode{}
		d.inodes[p] = i
	}
	return i
}

// outside refuses changes that would leave the scratch directory.
func outside(op, p string, d *Disk) error {
	if d == nil && sim.S != nil {
		return &fs.PathError{Op: op, Path: p, Err: syscall.EACCES}
	}
	return nil
}

// File wraps *os.File.
type File struct {
	f      *os.File
	name   string
	path   string
	ino    *inode
	d      *Disk
	direct bool
	app    bool
	null   bool
	pos    int64
	node   *sim.Node
	closed bool
}

var (
	Stdout = &File{null: true, name: "/dev/stdout"}
	Stderr = &File{null: true, name: "/dev/stderr"}
	Stdin  = &File{null: true, name: "/dev/stdin"}
)

type fdTable map[uintptr]*File

func fds() fdTable {
	if sim.S == nil {
		return fdTable{}
	}
	t, _ := sim.S.Data["fds"].(fdTable)
	if t == nil {
		t = fdTable{}
		sim.S.Data["fds"] = t
	}
	return t
}

func Direct(fd uintptr) bool {
	f := fds()[fd]
	return f != nil && f.direct
}

func SetDirect(fd uintptr, on bool) {
	if f := fds()[fd]; f != nil {
		f.direct = on
	}
}

// CloseAll releases the descriptors of a dead process (all processes when n is nil).
func CloseAll(n *sim.Node) {
	t := fds()
	for k, f := range t {
		if n == nil || f.node == n {
			// a mapping of the file would keep its lock alive
			syscall.Flock(int(f.f.Fd()), syscall.LOCK_UN)
			f.f.Close()
			f.closed = true
			delete(t, k)
		}
	}
}

// Mapped and Unmapped keep track of the memory mappings of files.
func Mapped(b []byte) {
	if sim.S == nil || len(b) == 0 {
		return
	}
	t, _ := sim.S.Data["mmaps"].(map[*byte][]byte)
	if t == nil {
		t = map[*byte][]byte{}
		sim.S.Data["mmaps"] = t
	}
	t[&b[0]] = b
}

func Unmapped(b []byte) {
	if sim.S == nil || len(b) == 0 {
		return
	}
	if t, ok := sim.S.Data["mmaps"].(map[*byte][]byte); ok {
		delete(t, &b[0])
	}
}

// UnmapAll drops the mappings that crashed processes left behind.
func UnmapAll() {
	if sim.S == nil {
		return
	}
	if t, ok := sim.S.Data["mmaps"].(map[*byte][]byte); ok {
		for _, b := range t {
			syscall.Munmap(b)
		}
		sim.S.Data["mmaps"] = nil
	}
}

// OpenFiles counts the open descriptors of n, by path.
func OpenFiles(n *sim.Node) []string {
	var r []string
	for _, f := range fds() {
		if f.node == n {
			r = append(r, f.path)
		}
	}
	sort.Strings(r)
	return r
}

func step(d *Disk, op string) {
	sim.Y()
	if d != nil {
		d.Ops[op]++
	}
}

// fault decides whether the operation on p fails; err is nil otherwise.
func fault(d *Disk, kind, op, p string, eno syscall.Errno) error {
	if d != nil && d.Bad != nil && op == "read" && sim.S != nil && sim.InTask() && d.Bad(p) &&
		sim.S.Inject(kind, func() string { return d.Name + " " + op + " " + rel(d, p) }) {
		return &fs.PathError{Op: op, Path: p, Err: eno}
	}
	if d == nil || d.Faulty == nil || sim.S == nil || !sim.InTask() || !d.Faulty(p) {
		return nil
	}
	if sim.S.Roll(kind, func() string { return d.Name + " " + op + " " + rel(d, p) }) {
		if kind == "disk.eio.meta" || kind == "disk.eio.stat" {
			if d.MetaFailed == nil {
				d.MetaFailed = map[string]bool{}
			}
			d.MetaFailed[p] = true
		}
		return &fs.PathError{Op: op, Path: p, Err: eno}
	}
	return nil
}

func rel(d *Disk, p string) string { return strings.TrimPrefix(p, d.Root) }

func crash(d *Disk, op, p string) bool {
	if d == nil || d.Faulty == nil || sim.S == nil || !sim.InTask() || sim.CurNode() == nil {
		return false
	}
	return sim.S.Roll("disk.crash", func() string { return d.Name + " " + op + " " + rel(d, p) })
}

func kill() {
	if n := sim.CurNode(); n != nil {
		n.Kill()
		sim.Die()
	}
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	p := abs(name)
	d := diskOf(p)
	step(d, "open")
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0 {
		if err := outside("open", p, d); err != nil {
			return nil, err
		}
	}
	if err := fault(d, "disk.eio.open", "open", p, syscall.EIO); err != nil {
		return nil, err
	}
	if flag&os.O_CREATE != 0 {
		if _, e := os.Lstat(p); e != nil {
			if d != nil && d.Full {
				return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOSPC}
			}
			if err := fault(d, "disk.enospc", "create", p, syscall.ENOSPC); err != nil {
				return nil, err
			}
			if crash(d, "create", p) {
				kill()
			}
			if d != nil {
				delete(d.inodes, p)
			}
		}
	}
	if flag&os.O_TRUNC != 0 && d != nil && d.Track {
		if b, e := os.ReadFile(p); e == nil && len(b) > 0 {
			i := d.node(p)
			i.pending = append(i.pending, pend{trunc: true, off: 0, old: b, oldSize: int64(len(b))})
		}
	}
	f, err := os.OpenFile(p, flag&^syscall.O_DIRECT, perm)
	if err != nil {
		return nil, rename(err, name)
	}
	r := &File{f: f, name: name, path: p, d: d, direct: flag&syscall.O_DIRECT != 0, app: flag&os.O_APPEND != 0, node: sim.CurNode()}
	if d != nil {
		r.ino = d.node(p)
	}
	fds()[f.Fd()] = r
	sim.Y()
	return r, nil
}

// rename keeps relative names in error messages.
func rename(err error, name string) error {
	var pe *fs.PathError
	if errors.As(err, &pe) {
		pe.Path = name
	}
	return err
}

func NewFile(fd uintptr, name string) *File { return &File{null: true, name: name} }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.null || f.closed {
		return ^uintptr(0)
	}
	return f.f.Fd()
}
func (f *File) OS() *os.File { return f.f }

func (f *File) bad(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	return nil
}

func (f *File) aligned(op string, b []byte, off int64) error {
	if !f.direct || len(b) == 0 {
		return nil
	}
	if len(b)%512 != 0 || off%512 != 0 || uintptr(unsafe.Pointer(&b[0]))%512 != 0 {
		sim.Probe("disk.einval")
		return &fs.PathError{Op: op, Path: f.name, Err: syscall.EINVAL}
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if f.null {
		return 0, io.EOF
	}
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	step(f.d, "read")
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	if err := fault(f.d, "disk.eio.read", "read", f.path, syscall.EIO); err != nil {
		return 0, err
	}
	if err := f.aligned("read", b, f.pos); err != nil {
		return 0, err
	}
	if len(b) > 4096 && f.d != nil && f.d.Faulty != nil && f.d.Faulty(f.path) && sim.S.Roll("disk.short.read", func() string { return rel(f.d, f.path) }) {
		b = b[:4096]
	}
	n, err := f.f.Read(b)
	f.pos += int64(n)
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	step(f.d, "read")
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	if err := fault(f.d, "disk.eio.read", "read", f.path, syscall.EIO); err != nil {
		return 0, err
	}
	if err := f.aligned("read", b, off); err != nil {
		return 0, err
	}
	return f.f.ReadAt(b, off)
}

func (f *File) Write(b []byte) (int, error) {
	if f.null {
		return len(b), nil
	}
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	off := f.pos
	if f.app {
		if st, err := f.f.Stat(); err == nil {
			off = st.Size()
		}
	}
	n, err := f.write(b, off)
	f.pos = off + int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.null {
		return len(b), nil
	}
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	if f.app {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	return f.write(b, off)
}

func (f *File) write(b []byte, off int64) (int, error) {
	step(f.d, "write")
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	if f.app {
		// the append position is decided by the kernel when the write happens
		if st, err := f.f.Stat(); err == nil {
			off = st.Size()
		}
	}
	if err := f.aligned("write", b, off); err != nil {
		return 0, err
	}
	d := f.d
	if d != nil {
		d.Writes++
	}
	if err := fault(d, "disk.eio.write", "write", f.path, syscall.EIO); err != nil {
		return 0, err
	}
	st, serr := f.f.Stat()
	grow := serr == nil && off+int64(len(b)) > st.Size()
	if grow {
		err := fault(d, "disk.enospc", "write", f.path, syscall.ENOSPC)
		if err == nil && d != nil && d.Full {
			err = &fs.PathError{Op: "write", Path: f.name, Err: syscall.ENOSPC}
		}
		if err != nil {
			// a full disk takes what still fits
			k := partial(b, f.direct)
			f.put(b[:k], off)
			return k, err
		}
	}
	if crash(d, "write", f.path) {
		f.put(b[:partial(b, f.direct)], off)
		kill()
	}
	if err := f.put(b, off); err != nil {
		return 0, err
	}
	sim.Y()
	return len(b), nil
}

func partial(b []byte, direct bool) int {
	if len(b) == 0 {
		return 0
	}
	k := sim.S.Fault.Intn(len(b))
	if direct || len(b) >= 4096 {
		k -= k % 512
	}
	return k
}

func (f *File) put(b []byte, off int64) error {
	if f.ino != nil && f.d.Track {
		st, err := f.f.Stat()
		if err != nil {
			return err
		}
		p := pend{off: off, oldSize: st.Size(), data: append([]byte(nil), b...)}
		if off < st.Size() {
			n := st.Size() - off
			if n > int64(len(b)) {
				n = int64(len(b))
			}
			p.old = make([]byte, n)
			rd, err := os.Open(f.path)
			if err == nil {
				rd.ReadAt(p.old, off)
				rd.Close()
			}
		}
		f.ino.pending = append(f.ino.pending, p)
	}
	var err error
	if f.app {
		_, err = f.f.Write(b)
	} else {
		_, err = f.f.WriteAt(b, off)
	}
	return err
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.bad("seek"); err != nil {
		return 0, err
	}
	var n int64
	var err error
	if whence == io.SeekCurrent {
		// writes go through WriteAt, so the position is ours
		n, err = f.f.Seek(f.pos+off, io.SeekStart)
	} else {
		n, err = f.f.Seek(off, whence)
	}
	if err == nil {
		f.pos = n
	}
	return n, err
}

func (f *File) Sync() error {
	if f.null {
		return nil
	}
	if err := f.bad("sync"); err != nil {
		return err
	}
	step(f.d, "sync")
	if err := f.bad("sync"); err != nil {
		return err
	}
	if err := fault(f.d, "disk.eio.sync", "sync", f.path, syscall.EIO); err != nil {
		if f.ino != nil {
			f.ino.failed = true
		}
		return err
	}
	if crash(f.d, "sync", f.path) {
		kill()
	}
	if f.ino != nil {
		f.ino.pending, f.ino.failed = nil, false
	}
	if f.d != nil && f.d.Track {
		sim.Yield()
	}
	if crash(f.d, "synced", f.path) {
		kill()
	}
	return nil
}

func (f *File) Close() error {
	if f.null {
		return nil
	}
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	sim.Y()
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	f.closed = true
	delete(fds(), f.f.Fd())
	return f.f.Close()
}

func (f *File) Stat() (os.FileInfo, error) {
	if err := f.bad("stat"); err != nil {
		return nil, err
	}
	return f.f.Stat()
}

func (f *File) Truncate(size int64) error {
	if err := f.bad("truncate"); err != nil {
		return err
	}
	step(f.d, "truncate")
	if err := fault(f.d, "disk.enospc", "truncate", f.path, syscall.ENOSPC); err != nil {
		return err
	}
	if f.ino != nil && f.d.Track {
		st, err := f.f.Stat()
		if err != nil {
			return err
		}
		p := pend{trunc: true, off: size, oldSize: st.Size()}
		if size < st.Size() {
			b, _ := os.ReadFile(f.path)
			if int64(len(b)) > size {
				p.old = b[size:]
			}
		}
		f.ino.pending = append(f.ino.pending, p)
	}
	return f.f.Truncate(size)
}

func (f *File) Readdir(n int) ([]os.FileInfo, error)  { return f.f.Readdir(n) }
func (f *File) ReadDir(n int) ([]os.DirEntry, error)  { return f.f.ReadDir(n) }
func (f *File) Readdirnames(n int) ([]string, error)  { return f.f.Readdirnames(n) }
func (f *File) Chmod(m os.FileMode) error             { return f.f.Chmod(m) }
func (f *File) SetDeadline(t time.Time) error         { return nil }
func (f *File) SyscallConn() (syscall.RawConn, error) { return f.f.SyscallConn() }

func Stat(name string) (os.FileInfo, error) {
	p := abs(name)
	step(diskOf(p), "stat")
	if err := fault(diskOf(p), "disk.eio.stat", "stat", p, syscall.EIO); err != nil {
		return nil, err
	}
	return os.Stat(p)
}

func Lstat(name string) (os.FileInfo, error) {
	p := abs(name)
	step(diskOf(p), "stat")
	if err := fault(diskOf(p), "disk.eio.stat", "lstat", p, syscall.EIO); err != nil {
		return nil, err
	}
	return os.Lstat(p)
}

func meta(op, name string) (string, *Disk, error) {
	p := abs(name)
	d := diskOf(p)
	step(d, op)
	if err := outside(op, p, d); err != nil {
		return p, d, err
	}
	if err := fault(d, "disk.eio.meta", op, p, syscall.EIO); err != nil {
		return p, d, err
	}
	if crash(d, op, p) {
		kill()
	}
	return p, d, nil
}

func Remove(name string) error {
	p, d, err := meta("remove", name)
	if err != nil {
		return err
	}
	if d != nil {
		delete(d.inodes, p)
	}
	err = os.Remove(p)
	sim.Y()
	return err
}

func RemoveAll(name string) error {
	p, d, err := meta("removeall", name)
	if err != nil {
		return err
	}
	if d != nil {
		for k := range d.inodes {
			if k == p || strings.HasPrefix(k, p+"/") {
				delete(d.inodes, k)
			}
		}
	}
	return os.RemoveAll(p)
}

func Rename(oldname, newname string) error {
	o, d, err := meta("rename", oldname)
	if err != nil {
		return err
	}
	n := abs(newname)
	if err := outside("rename", n, diskOf(n)); err != nil {
		return err
	}
	err = os.Rename(o, n)
	if err == nil && d != nil {
		for k, i := range d.inodes {
			if k == o || strings.HasPrefix(k, o+"/") {
				delete(d.inodes, k)
				d.inodes[n+strings.TrimPrefix(k, o)] = i
			}
		}
		for _, f := range fds() {
			if f.path == o || strings.HasPrefix(f.path, o+"/") {
				f.path = n + strings.TrimPrefix(f.path, o)
			}
		}
		if crash(d, "renamed", n) {
			kill()
		}
	}
	sim.Y()
	return err
}

func Mkdir(name string, perm os.FileMode) error {
	p, _, err := meta("mkdir", name)
	if err != nil {
		return err
	}
	return os.Mkdir(p, perm)
}

func MkdirAll(name string, perm os.FileMode) error {
	p := abs(name)
	step(diskOf(p), "mkdir")
	if st, err := os.Stat(p); err == nil && st.IsDir() {
		return nil
	}
	if err := outside("mkdir", p, diskOf(p)); err != nil {
		return err
	}
	return os.MkdirAll(p, perm|0o700)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	p := filepath.Join(dir, fmt.Sprintf("%s%d", strings.ReplaceAll(pattern, "*", ""), sim.S.App.Intn(1<<30)))
	return p, os.MkdirAll(p, 0o700)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	n := fmt.Sprint(rnd().Intn(1 << 30))
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		n = pattern[:i] + n + pattern[i+1:]
	} else {
		n = pattern + n
	}
	return OpenFile(filepath.Join(dir, n), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func rnd() *rand.Rand { return sim.S.App }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, b []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func ReadDir(name string) ([]os.DirEntry, error) {
	p := abs(name)
	step(diskOf(p), "readdir")
	return os.ReadDir(p)
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func change(op, name string) (string, error) {
	p := abs(name)
	return p, outside(op, p, diskOf(p))
}

func Chtimes(name string, a, m time.Time) error {
	p, err := change("chtimes", name)
	if err != nil {
		return err
	}
	return os.Chtimes(p, a, m)
}

func Chmod(name string, m os.FileMode) error {
	p, err := change("chmod", name)
	if err != nil {
		return err
	}
	return os.Chmod(p, m)
}

func Link(o, n string) error {
	p, err := change("link", n)
	if err != nil {
		return err
	}
	return os.Link(abs(o), p)
}

func Symlink(o, n string) error {
	p, err := change("symlink", n)
	if err != nil {
		return err
	}
	return os.Symlink(abs(o), p)
}

func TempDir() string {
	if n := sim.CurNode(); n != nil {
		if t, ok := n.Data["tmp"].(string); ok {
			return t
		}
	}
	return os.TempDir()
}

func env() map[string]string {
	if n := sim.CurNode(); n != nil {
		e, _ := n.Data["env"].(map[string]string)
		if e == nil {
			e = map[string]string{}
			n.Data["env"] = e
		}
		return e
	}
	return map[string]string{}
}

func Getenv(k string) string { return env()[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := env()[k]
	return v, ok
}
func Setenv(k, v string) error { env()[k] = v; return nil }
func Unsetenv(k string) error  { delete(env(), k); return nil }

func Hostname() (string, error) {
	if n := sim.CurNode(); n != nil {
		return n.Name, nil
	}
	return "sim", nil
}

func Getwd() (string, error) {
	if n := sim.CurNode(); n != nil {
		if cwd, ok := n.Data["cwd"].(string); ok {
			return cwd, nil
		}
	}
	return os.Getwd()
}

func Getpid() int { return 1 }

// Exit ends the simulated process.
func Exit(code int) {
	n := sim.CurNode()
	if n == nil {
		panic(fmt.Sprintf("exit(%d)", code))
	}
	sim.Logf("exit(%d)", code)
	n.Data["exit"] = code
	n.Kill()
	sim.Die()
}

// PowerLoss turns the disk into what a power failure leaves behind: each
// unsynced write made it to the medium or not, sector by sector.
func (d *Disk) PowerLoss(rng *rand.Rand) (lost int) {
	paths := make([]string, 0, len(d.inodes))
	for p := range d.inodes {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		i := d.inodes[p]
		if len(i.pending) == 0 {
			continue
		}
		was := lost
		f, err := os.OpenFile(p, os.O_RDWR, 0)
		if err != nil {
			i.pending = nil
			continue
		}
		// back to the last synced content
		for k := len(i.pending) - 1; k >= 0; k-- {
			w := i.pending[k]
			if len(w.old) > 0 {
				f.WriteAt(w.old, w.off)
			}
			f.Truncate(w.oldSize)
		}
		// replay what happened to reach the disk
		for _, w := range i.pending {
			if w.trunc {
				if rng.Intn(2) == 0 {
					f.Truncate(w.off)
				} else {
					lost++
				}
				continue
			}
			mode := rng.Intn(3)
			if mode == 0 { // all of it
				f.WriteAt(w.data, w.off)
				continue
			}
			lost++
			if mode == 1 { // nothing
				continue
			}
			for o := 0; o < len(w.data); o += 512 {
				if rng.Intn(2) == 0 {
					continue
				}
				e := o + 512
				if e > len(w.data) {
					e = len(w.data)
				}
				f.WriteAt(w.data[o:e], w.off+int64(o))
			}
		}
		f.Close()
		i.pending = nil
		if i.failed && lost > was {
			d.Hazard = true
		}
		i.failed = false
	}
	sim.Logf("power loss on %s: %d writes lost or torn", d.Name, lost)
	return lost
}

// PowerKept is a process crash: everything written so far stays.
func (d *Disk) PowerKept() {
	for _, i := range d.inodes {
		i.pending, i.failed = nil, false
	}
}
