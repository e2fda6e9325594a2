package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vsim/gs/simrt"
)

// Names that carry no effect are taken from the real package.
type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull
	SEEK_SET          = 0
	SEEK_CUR          = 1
	SEEK_END          = 2
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	Interrupt = os.Interrupt
	Kill      = os.Kill

	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}

	Args []string
)

func IsExist(err error) bool                        { return os.IsExist(err) }
func IsNotExist(err error) bool                     { return os.IsNotExist(err) }
func IsPermission(err error) bool                   { return os.IsPermission(err) }
func IsTimeout(err error) bool                      { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool                  { return os.IsPathSeparator(c) }
func NewSyscallError(s string, err error) error     { return os.NewSyscallError(s, err) }
func Expand(s string, m func(string) string) string { return os.Expand(s, m) }
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }
func Exit(code int)                                 { simrt.Exit(code) }

func Getpid() int  { return simrt.W.Cfg.Pid }
func Getppid() int { return simrt.W.Cfg.Pid / 2 }
func Getuid() int  { return 0 }
func Geteuid() int { return 0 }
func Getgid() int  { return 0 }
func Getegid() int { return 0 }
func Hostname() (string, error) {
	return simrt.W.Cfg.Host, nil
}
func Executable() (string, error)    { return "/usr/local/bin/hbuf", nil }
func UserHomeDir() (string, error)   { return "/home/" + simrt.W.Cfg.Host, nil }
func UserCacheDir() (string, error)  { return "/home/" + simrt.W.Cfg.Host + "/.cache", nil }
func UserConfigDir() (string, error) { return "/home/" + simrt.W.Cfg.Host + "/.config", nil }
func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}
func Getpagesize() int { return 4096 }

func LookupEnv(k string) (string, bool) {
	v, ok := simrt.W.Cfg.Env[k]
	return v, ok
}
func Getenv(k string) string { v, _ := LookupEnv(k); return v }
func Setenv(k, v string) error {
	if simrt.W.Cfg.Env == nil {
		simrt.W.Cfg.Env = map[string]string{}
	}
	simrt.W.Cfg.Env[k] = v
	return nil
}
func Unsetenv(k string) error { delete(simrt.W.Cfg.Env, k); return nil }
func Clearenv()               { simrt.W.Cfg.Env = nil }
func Environ() []string {
	var out []string
	for k, v := range simrt.W.Cfg.Env {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}

// File is an open file.
type File struct {
	name   string
	n      *node
	off    int
	flag   int
	closed bool
	std    int
	dirPos int
	dirOrd []entry
}

func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}

func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	f := Cur
	kind := "open"
	if flag&(O_WRONLY|O_RDWR) != 0 {
		kind = "create"
	}
	ft, rec := f.op(kind, name, "", flag)
	if err := f.fault(ft, rec); err != nil {
		return nil, perr("open", name, err)
	}
	if f.MaxOpen > 0 && f.open >= f.MaxOpen {
		f.fire("emfile-limit", rec)
		return nil, perr("open", name, syscall.EMFILE)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if strings.IndexByte(name, 0) >= 0 {
		return nil, perr("open", name, syscall.EINVAL)
	}
	n, err := f.lookup(name)
	if err == syscall.ENOENT && flag&O_CREATE != 0 {
		d, base, err2 := f.parentOf(name)
		if err2 != nil {
			return nil, perr("open", name, err2)
		}
		if strings.HasSuffix(name, "/") {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if f.Space == 0 {
			f.fire("full-hit", rec)
			return nil, perr("open", name, syscall.ENOSPC)
		}
		n = f.newNode(false, perm)
		d.put(base, n)
		f.meta(meta{kind: "link", parent: d, name: base, n: n})
		f.open++
		return &File{name: name, n: n, flag: flag}, nil
	}
	if err != nil {
		return nil, perr("open", name, err)
	}
	if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if n.dir && flag&(O_WRONLY|O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if !n.dir && flag&(O_WRONLY|O_RDWR) != 0 && n.mode&0o200 == 0 {
		return nil, perr("open", name, syscall.EACCES)
	}
	if flag&O_TRUNC != 0 && !n.dir && flag&(O_WRONLY|O_RDWR) != 0 {
		f.truncNode(n, 0)
	}
	f.open++
	return &File{name: name, n: n, flag: flag}, nil
}

func (f *FS) truncNode(n *node, size int) {
	if f.Space >= 0 && size < len(n.data) {
		f.Space += len(n.data) - size
	}
	n.writes = append(n.writes, wr{op: len(f.metas), trunc: true, size: size})
	if size <= len(n.data) {
		n.data = append([]byte(nil), n.data[:size]...)
	} else {
		n.data = append(append([]byte(nil), n.data...), make([]byte, size-len(n.data))...)
	}
	n.mtime = simrt.W.Now()
}

func (fl *File) check(op string) error {
	if fl == nil {
		return ErrInvalid
	}
	if fl.closed {
		return perr(op, fl.name, ErrClosed)
	}
	return nil
}

func (fl *File) Name() string { return fl.name }
func (fl *File) Fd() uintptr {
	if fl.std > 0 {
		return uintptr(fl.std - 1)
	}
	return uintptr(2 + fl.n.id)
}

func (fl *File) Write(b []byte) (int, error) {
	if err := fl.check("write"); err != nil {
		return 0, err
	}
	n, err := fl.write(b, -1)
	return n, err
}

func (fl *File) WriteString(s string) (int, error) { return fl.Write([]byte(s)) }

func (fl *File) WriteAt(b []byte, off int64) (int, error) {
	if err := fl.check("write"); err != nil {
		return 0, err
	}
	if fl.flag&O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	return fl.write(b, int(off))
}

func (fl *File) write(b []byte, at int) (int, error) {
	f := Cur
	if fl.std == 1 {
		return 0, perr("write", fl.name, syscall.EBADF)
	}
	if fl.std > 1 {
		if simrt.W == nil || simrt.W.Dead() {
			return len(b), nil
		}
		simrt.W.EventString(string(b))
		if fl.std == 2 {
			f.Out = append(f.Out, b...)
		} else {
			f.Err = append(f.Err, b...)
		}
		return len(b), nil
	}
	ft, rec := f.op("write", fl.name, "", len(b))
	if fl.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", fl.name, syscall.EBADF)
	}
	take := len(b)
	var err error
	if ft != nil {
		err = f.fault(ft, rec)
		take = 0
		if ft.Kind == "short" && len(b) > 0 {
			take = ft.Arg % len(b)
		}
	}
	off := fl.off
	if at >= 0 {
		off = at
	} else if fl.flag&O_APPEND != 0 {
		off = len(fl.n.data)
	}
	if f.Space >= 0 {
		grow := off + take - len(fl.n.data)
		if grow > f.Space {
			take -= grow - f.Space
			if take < 0 {
				take = 0
			}
			err = syscall.ENOSPC
			f.fire("full-hit", rec)
		}
	}
	if take > 0 {
		d := append([]byte(nil), b[:take]...)
		w := wr{op: len(f.metas), off: off, b: d}
		if f.Space >= 0 {
			if g := off + take - len(fl.n.data); g > 0 {
				f.Space -= g
			}
		}
		fl.n.data = w.apply(append([]byte(nil), fl.n.data...), take)
		fl.n.writes = append(fl.n.writes, w)
		fl.n.mtime = simrt.W.Now()
		if at < 0 {
			fl.off = off + take
		}
	}
	if err != nil {
		return take, perr("write", fl.name, err)
	}
	return take, nil
}

func (fl *File) ReadFrom(r io.Reader) (int64, error) {
	buf := make([]byte, 32*1024)
	var total int64
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := fl.Write(buf[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func (fl *File) Read(b []byte) (int, error) {
	if err := fl.check("read"); err != nil {
		return 0, err
	}
	if fl.std == 1 {
		return 0, io.EOF
	}
	n, err := fl.read(b, fl.off)
	fl.off += n
	return n, err
}

func (fl *File) ReadAt(b []byte, off int64) (int, error) {
	if err := fl.check("read"); err != nil {
		return 0, err
	}
	total := 0
	for total < len(b) {
		n, err := fl.read(b[total:], int(off)+total)
		total += n
		if err != nil {
			return total, err
		}
	}
	return total, nil
}

func (fl *File) read(b []byte, off int) (int, error) {
	f := Cur
	ft, rec := f.op("read", fl.name, "", len(b))
	if fl.std > 0 || fl.flag&O_WRONLY != 0 {
		return 0, perr("read", fl.name, syscall.EBADF)
	}
	if err := f.fault(ft, rec); err != nil {
		return 0, perr("read", fl.name, err)
	}
	if fl.n.dir {
		return 0, perr("read", fl.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= len(fl.n.data) {
		return 0, io.EOF
	}
	src := fl.n.data[off:]
	n := len(src)
	if n > len(b) {
		n = len(b)
	}
	// A read may return less than asked for.
	if n > 1 && simrt.W.Cfg.IOSeed != 0 {
		r := simrt.NewRng(simrt.W.Cfg.IOSeed + uint64(f.Ops))
		if r.P(1, 3) {
			n = 1 + r.N(n)
			f.Fired.Inc("short-read")
		}
	}
	copy(b[:n], src[:n])
	return n, nil
}

func (fl *File) Seek(off int64, whence int) (int64, error) {
	if err := fl.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		fl.off = int(off)
	case 1:
		fl.off += int(off)
	case 2:
		fl.off = len(fl.n.data) + int(off)
	}
	return int64(fl.off), nil
}

func (fl *File) Close() error {
	if err := fl.check("close"); err != nil {
		return err
	}
	if fl.std > 0 {
		return nil
	}
	f := Cur
	ft, rec := f.op("close", fl.name, "", 0)
	fl.closed = true
	f.open--
	if ft != nil {
		err := f.fault(ft, rec)
		// A failing close means that delayed writes were lost.
		if fl.flag&(O_WRONLY|O_RDWR) != 0 && len(fl.n.data) > 0 {
			fl.n.data = append([]byte(nil), fl.n.data[:len(fl.n.data)*(ft.Arg%4)/4]...)
		}
		return perr("close", fl.name, err)
	}
	return nil
}

func (fl *File) Sync() error {
	if err := fl.check("sync"); err != nil {
		return err
	}
	f := Cur
	ft, rec := f.op("sync", fl.name, "", 0)
	if err := f.fault(ft, rec); err != nil {
		return perr("sync", fl.name, err)
	}
	if fl.n != nil {
		f.durMeta = len(f.metas)
		if !fl.n.dir {
			fl.n.synced = append([]byte(nil), fl.n.data...)
			fl.n.hasSync = true
			fl.n.writes = nil
		}
	}
	return nil
}

func (fl *File) Truncate(size int64) error {
	if err := fl.check("truncate"); err != nil {
		return err
	}
	f := Cur
	ft, rec := f.op("truncate", fl.name, "", int(size))
	if err := f.fault(ft, rec); err != nil {
		return perr("truncate", fl.name, err)
	}
	f.truncNode(fl.n, int(size))
	return nil
}

func (fl *File) Stat() (FileInfo, error) {
	if err := fl.check("stat"); err != nil {
		return nil, err
	}
	if fl.std > 0 {
		return info{name: path.Base(fl.name), n: &node{mode: ModeCharDevice | ModeDevice | 0o600}}, nil
	}
	f := Cur
	ft, rec := f.op("stat", fl.name, "", 0)
	if err := f.fault(ft, rec); err != nil {
		return nil, perr("stat", fl.name, err)
	}
	return mkinfo(path.Base(fl.name), fl.n), nil
}

func (fl *File) Chmod(m FileMode) error {
	if err := fl.check("chmod"); err != nil {
		return err
	}
	return Chmod(fl.name, m)
}
func (fl *File) Chown(uid, gid int) error           { return fl.check("chown") }
func (fl *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (fl *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (fl *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }

type info struct {
	name  string
	n     *node
	size  int64
	mode  FileMode
	mtime int64
}

func mkinfo(name string, n *node) info {
	m := n.mode
	if n.link != "" {
		m = ModeSymlink | 0o777
	}
	return info{name: name, n: n, size: int64(len(n.data)), mode: m, mtime: n.mtime}
}

func (i info) Name() string            { return i.name }
func (i info) Size() int64             { return i.size }
func (i info) Mode() FileMode          { return i.mode }
func (i info) ModTime() time.Time      { return time.Unix(0, i.mtime) }
func (i info) IsDir() bool             { return i.mode.IsDir() }
func (i info) Sys() any                { return nil }
func (i info) Type() FileMode          { return i.mode.Type() }
func (i info) Info() (FileInfo, error) { return i, nil }
func (i info) String() string          { return fs.FormatDirEntry(i) }

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.n == y.n
}

func stat(name string, follow bool, opn string) (FileInfo, error) {
	f := Cur
	ft, rec := f.op("stat", name, "", 0)
	if err := f.fault(ft, rec); err != nil {
		return nil, perr(opn, name, err)
	}
	if name == "" {
		return nil, perr(opn, name, syscall.ENOENT)
	}
	n, err := f.walk(f.abs(name), follow, 0)
	if err != nil {
		return nil, perr(opn, name, err)
	}
	return mkinfo(path.Base(f.abs(name)), n), nil
}

func Stat(name string) (FileInfo, error)  { return stat(name, true, "stat") }
func Lstat(name string) (FileInfo, error) { return stat(name, false, "lstat") }

// rawDir lists a directory in the order of the directory seed.
func rawDir(n *node) []entry {
	es := append([]entry(nil), n.kids...)
	if s := simrt.W.Cfg.DirSeed; s == 1 {
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	} else if s != 0 {
		r := simrt.NewRng(s + uint64(n.id))
		for i := len(es) - 1; i > 0; i-- {
			j := r.N(i + 1)
			es[i], es[j] = es[j], es[i]
		}
	}
	return es
}

func (fl *File) dirRead(count int) ([]entry, error) {
	if err := fl.check("readdir"); err != nil {
		return nil, err
	}
	f := Cur
	ft, rec := f.op("readdir", fl.name, "", count)
	if fl.n == nil || !fl.n.dir {
		return nil, perr("readdirent", fl.name, syscall.ENOTDIR)
	}
	if fl.dirOrd == nil {
		fl.dirOrd = rawDir(fl.n)
	}
	rest := fl.dirOrd[fl.dirPos:]
	if err := f.fault(ft, rec); err != nil {
		k := 0
		if len(rest) > 0 {
			k = ft.Arg % (len(rest) + 1)
		}
		fl.dirPos += k
		return rest[:k], perr("readdirent", fl.name, err)
	}
	if count <= 0 {
		fl.dirPos = len(fl.dirOrd)
		return rest, nil
	}
	if len(rest) == 0 {
		return nil, io.EOF
	}
	if count < len(rest) {
		rest = rest[:count]
	}
	fl.dirPos += len(rest)
	return rest, nil
}

func (fl *File) Readdir(n int) ([]FileInfo, error) {
	es, err := fl.dirRead(n)
	out := make([]FileInfo, 0, len(es))
	for _, e := range es {
		out = append(out, mkinfo(e.name, e.n))
	}
	return out, err
}

func (fl *File) ReadDir(n int) ([]DirEntry, error) {
	es, err := fl.dirRead(n)
	out := make([]DirEntry, 0, len(es))
	for _, e := range es {
		out = append(out, mkinfo(e.name, e.n))
	}
	return out, err
}

func (fl *File) Readdirnames(n int) ([]string, error) {
	es, err := fl.dirRead(n)
	out := make([]string, 0, len(es))
	for _, e := range es {
		out = append(out, e.name)
	}
	return out, err
}

func ReadDir(name string) ([]DirEntry, error) {
	fl, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer fl.Close()
	es, err := fl.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

func ReadFile(name string) ([]byte, error) {
	fl, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer fl.Close()
	data := make([]byte, 0, 512)
	buf := make([]byte, 4096)
	for {
		n, err := fl.Read(buf)
		data = append(data, buf[:n]...)
		if err == io.EOF {
			return data, nil
		}
		if err != nil {
			return data, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	fl, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = fl.Write(data)
	if err1 := fl.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Mkdir(name string, perm FileMode) error {
	f := Cur
	ft, rec := f.op("mkdir", name, "", 0)
	if err := f.fault(ft, rec); err != nil {
		return perr("mkdir", name, err)
	}
	if name == "" {
		return perr("mkdir", name, syscall.ENOENT)
	}
	d, base, err := f.parentOf(name)
	if err != nil {
		return perr("mkdir", name, err)
	}
	if d.find(base) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if f.Space == 0 {
		f.fire("full-hit", rec)
		return perr("mkdir", name, syscall.ENOSPC)
	}
	n := f.newNode(true, perm)
	d.put(base, n)
	f.meta(meta{kind: "link", parent: d, name: base, n: n})
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	fi, err := Stat(name)
	if err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	p := strings.TrimRight(name, "/")
	if i := strings.LastIndexByte(p, '/'); i > 0 {
		if err := MkdirAll(p[:i], perm); err != nil {
			return err
		}
	}
	err = Mkdir(name, perm)
	if err != nil {
		fi, err1 := Lstat(name)
		if err1 == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	f := Cur
	ft, rec := f.op("remove", name, "", 0)
	if err := f.fault(ft, rec); err != nil {
		return perr("remove", name, err)
	}
	d, base, err := f.parentOf(name)
	if err != nil {
		return perr("remove", name, err)
	}
	n := d.find(base)
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	d.del(base)
	f.meta(meta{kind: "unlink", parent: d, name: base, n: n})
	return nil
}

func RemoveAll(name string) error {
	f := Cur
	n, err := f.lookupNoFollow(name)
	if err != nil {
		if err == syscall.ENOENT || err == syscall.ENOTDIR {
			return nil
		}
		return perr("unlinkat", name, err)
	}
	if n.dir {
		for _, e := range append([]entry(nil), n.kids...) {
			if err := RemoveAll(strings.TrimRight(name, "/") + "/" + e.name); err != nil {
				return err
			}
		}
	}
	return Remove(name)
}

func Rename(a, b string) error {
	f := Cur
	ft, rec := f.op("rename", a, b, 0)
	lerr := func(err error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: err} }
	if err := f.fault(ft, rec); err != nil {
		return lerr(err)
	}
	d1, b1, err := f.parentOf(a)
	if err != nil {
		return lerr(err)
	}
	n := d1.find(b1)
	if n == nil {
		return lerr(syscall.ENOENT)
	}
	d2, b2, err := f.parentOf(b)
	if err != nil {
		return lerr(err)
	}
	old := d2.find(b2)
	if old != nil {
		if old == n {
			return nil
		}
		if old.dir && !n.dir {
			return lerr(syscall.EEXIST)
		}
		if !old.dir && n.dir {
			return lerr(syscall.ENOTDIR)
		}
		if old.dir && len(old.kids) > 0 {
			return lerr(syscall.ENOTEMPTY)
		}
	}
	d1.del(b1)
	d2.put(b2, n)
	f.meta(meta{kind: "rename", parent: d1, name: b1, p2: d2, name2: b2, n: old})
	return nil
}

func Chmod(name string, m FileMode) error {
	f := Cur
	ft, rec := f.op("chmod", name, "", int(m))
	if err := f.fault(ft, rec); err != nil {
		return perr("chmod", name, err)
	}
	n, err := f.lookup(name)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.mode = n.mode&^ModePerm | m&ModePerm
	return nil
}

func Chtimes(name string, a, m time.Time) error {
	f := Cur
	ft, rec := f.op("chtimes", name, "", 0)
	if err := f.fault(ft, rec); err != nil {
		return perr("chtimes", name, err)
	}
	n, err := f.lookup(name)
	if err != nil {
		return perr("chtimes", name, err)
	}
	n.mtime = m.UnixNano()
	return nil
}
func Chown(name string, u, g int) error  { return nil }
func Lchown(name string, u, g int) error { return nil }

func Truncate(name string, size int64) error {
	f := Cur
	ft, rec := f.op("truncate", name, "", int(size))
	if err := f.fault(ft, rec); err != nil {
		return perr("truncate", name, err)
	}
	n, err := f.lookup(name)
	if err != nil {
		return perr("truncate", name, err)
	}
	if n.dir {
		return perr("truncate", name, syscall.EISDIR)
	}
	f.truncNode(n, int(size))
	return nil
}

func Link(a, b string) error {
	f := Cur
	ft, rec := f.op("link", b, a, 0)
	lerr := func(err error) error { return &os.LinkError{Op: "link", Old: a, New: b, Err: err} }
	if err := f.fault(ft, rec); err != nil {
		return lerr(err)
	}
	n, err := f.lookup(a)
	if err != nil {
		return lerr(err)
	}
	d, base, err := f.parentOf(b)
	if err != nil {
		return lerr(err)
	}
	if d.find(base) != nil {
		return lerr(syscall.EEXIST)
	}
	d.put(base, n)
	f.meta(meta{kind: "link", parent: d, name: base, n: n})
	return nil
}

func Symlink(a, b string) error {
	f := Cur
	ft, rec := f.op("symlink", b, "", 0)
	lerr := func(err error) error { return &os.LinkError{Op: "symlink", Old: a, New: b, Err: err} }
	if err := f.fault(ft, rec); err != nil {
		return lerr(err)
	}
	d, base, err := f.parentOf(b)
	if err != nil {
		return lerr(err)
	}
	if d.find(base) != nil {
		return lerr(syscall.EEXIST)
	}
	n := f.newNode(false, 0o777)
	n.link = a
	d.put(base, n)
	f.meta(meta{kind: "link", parent: d, name: base, n: n})
	return nil
}

func Readlink(name string) (string, error) {
	f := Cur
	ft, rec := f.op("readlink", name, "", 0)
	if err := f.fault(ft, rec); err != nil {
		return "", perr("readlink", name, err)
	}
	n, err := f.lookupNoFollow(name)
	if err != nil {
		return "", perr("readlink", name, err)
	}
	if n.link == "" {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return n.link, nil
}

func Getwd() (string, error) { return Cur.cwd, nil }

func Chdir(dir string) error {
	f := Cur
	ft, rec := f.op("chdir", dir, "", 0)
	if err := f.fault(ft, rec); err != nil {
		return perr("chdir", dir, err)
	}
	n, err := f.lookup(dir)
	if err != nil {
		return perr("chdir", dir, err)
	}
	if !n.dir {
		return perr("chdir", dir, syscall.ENOTDIR)
	}
	f.cwd = f.abs(dir)
	return nil
}

func tempName(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	if strings.ContainsRune(pattern, '/') {
		return "", errors.New("pattern contains path separator")
	}
	r := strconv.FormatUint(simrt.W.RandRng.U64()%4294967296, 10)
	name := pattern + r
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		name = pattern[:i] + r + pattern[i+1:]
	}
	return strings.TrimRight(dir, "/") + "/" + name, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	for i := 0; ; i++ {
		name, err := tempName(dir, pattern)
		if err != nil {
			return nil, err
		}
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0o600)
		if IsExist(err) && i < 1000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	for i := 0; ; i++ {
		name, err := tempName(dir, pattern)
		if err != nil {
			return "", err
		}
		err = Mkdir(name, 0o700)
		if IsExist(err) && i < 1000 {
			continue
		}
		return name, err
	}
}

type dirFS string

func DirFS(dir string) fs.FS { return dirFS(dir) }
func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: ErrInvalid}
	}
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}
