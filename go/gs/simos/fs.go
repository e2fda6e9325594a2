// Package simos is the simulated operating system the instrumented compiler
// runs on: an in-memory file system with a fault plan, durable and volatile
// state, standard streams, environment and process identity.
package simos

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"vsim/gs/simrt"
)

// Fault is injected at the At-th operation (counted from 0).
type Fault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
}

// OpRec is one operation of the trace.
type OpRec struct {
	Kind  string `json:"kind"`
	Path  string `json:"path"`
	Path2 string `json:"path2,omitempty"`
	N     int    `json:"n,omitempty"`
	Fault string `json:"fault,omitempty"`
	Task  int    `json:"-"`
}

type entry struct {
	name string
	n    *node
}

type node struct {
	id       int
	dir      bool
	kids     []entry // sorted by name
	data     []byte
	mode     fs.FileMode
	mtime    int64
	synced   []byte // content at the last fsync
	hasSync  bool
	initial  bool // existed before the run
	oldData  []byte
	writes   []wr
	parent   *node
	selfName string
	link     string // symbolic link target
}

type wr struct {
	op    int // metadata operation number at the time
	trunc bool
	off   int
	b     []byte
	size  int
}

type meta struct {
	kind   string // link, unlink, move
	parent *node
	name   string
	n      *node
	p2     *node
	name2  string
}

// FS is the file system.
type FS struct {
	Setup   int64 // modification time of what is placed before the run
	root    *node
	cwd     string
	nextID  int
	Ops     int
	Trace   []OpRec
	Faults  []Fault
	Fired   Counter
	Space   int // bytes left, -1: unlimited
	metas   []meta
	durMeta int // metadata operations known to be durable
	open    int
	MaxOpen int
	Out     []byte
	Err     []byte
	log     bool
}

// Cur is the file system of the running world.
var Cur *FS

func NewFS() *FS {
	f := &FS{cwd: "/work", Space: -1}
	f.root = &node{dir: true, mode: fs.ModeDir | 0o755, initial: true}
	f.mkdirAll("/work")
	f.mkdirAll("/tmp")
	Cur = f
	return f
}

func (f *FS) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.cwd + "/" + p
	}
	return path.Clean(p)
}

func (n *node) find(name string) *node {
	i := sort.Search(len(n.kids), func(i int) bool { return n.kids[i].name >= name })
	if i < len(n.kids) && n.kids[i].name == name {
		return n.kids[i].n
	}
	return nil
}

func (n *node) put(name string, c *node) {
	i := sort.Search(len(n.kids), func(i int) bool { return n.kids[i].name >= name })
	if i < len(n.kids) && n.kids[i].name == name {
		n.kids[i].n = c
		return
	}
	n.kids = append(n.kids, entry{})
	copy(n.kids[i+1:], n.kids[i:])
	n.kids[i] = entry{name, c}
}

func (n *node) del(name string) {
	i := sort.Search(len(n.kids), func(i int) bool { return n.kids[i].name >= name })
	if i < len(n.kids) && n.kids[i].name == name {
		n.kids = append(n.kids[:i:i], n.kids[i+1:]...)
	}
}

// lookup walks to the node of p; missing intermediate directories give ENOENT,
// files in their place ENOTDIR.
func (f *FS) lookup(p string) (*node, error) {
	return f.walk(f.abs(p), true, 0)
}

func (f *FS) lookupNoFollow(p string) (*node, error) {
	return f.walk(f.abs(p), false, 0)
}

func (f *FS) walk(abs string, follow bool, depth int) (*node, error) {
	if depth > 20 {
		return nil, syscall.ELOOP
	}
	n := f.root
	if abs == "/" {
		return n, nil
	}
	parts := strings.Split(abs[1:], "/")
	for i, s := range parts {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		if len(s) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		c := n.find(s)
		if c == nil {
			return nil, syscall.ENOENT
		}
		if c.link != "" && (follow || i < len(parts)-1) {
			t := c.link
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(parts[:i], "/") + "/" + t
			}
			r, err := f.walk(path.Clean(t), true, depth+1)
			if err != nil {
				return nil, err
			}
			c = r
		}
		n = c
	}
	return n, nil
}

// parentOf returns the directory that holds p and p's base name.
func (f *FS) parentOf(p string) (*node, string, error) {
	a := f.abs(p)
	if a == "/" {
		return nil, "", syscall.EEXIST
	}
	d, err := f.walk(path.Dir(a), true, 0)
	if err != nil {
		return nil, "", err
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	if len(path.Base(a)) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	return d, path.Base(a), nil
}

func (f *FS) newNode(dir bool, mode fs.FileMode) *node {
	f.nextID++
	n := &node{id: f.nextID, dir: dir, mode: mode.Perm()}
	if dir {
		n.mode |= fs.ModeDir
	}
	if f.Setup != 0 {
		n.mtime = f.Setup
	} else if simrt.W != nil {
		n.mtime = simrt.W.Now()
	}
	return n
}

// SetTime sets the modification time of a file before the run.
func (f *FS) SetTime(p string, t int64) {
	if n, err := f.lookupNoFollow(f.abs(p)); err == nil {
		n.mtime = t
	}
}

// Times returns the modification time of every file, by its name in Tree("/").
func (f *FS) Times() map[string]int64 {
	out := map[string]int64{}
	var rec func(n *node, pre string)
	rec = func(n *node, pre string) {
		if !n.dir {
			if n.link == "" {
				out[pre] = n.mtime
			}
			return
		}
		for _, e := range n.kids {
			rec(e.n, strings.TrimPrefix(pre+"/"+e.name, "/"))
		}
	}
	rec(f.root, "")
	return out
}

func (f *FS) mkdirAll(p string) *node {
	n := f.root
	for _, s := range strings.Split(strings.Trim(p, "/"), "/") {
		if s == "" {
			continue
		}
		c := n.find(s)
		if c == nil {
			c = f.newNode(true, 0o755)
			c.initial = true
			n.put(s, c)
		}
		n = c
	}
	return n
}

// Put places a file before the run.
func (f *FS) Put(p string, data []byte) {
	p = f.abs(p)
	d := f.mkdirAll(path.Dir(p))
	n := f.newNode(false, 0o644)
	n.data = append([]byte(nil), data...)
	n.initial = true
	n.oldData = n.data
	d.put(path.Base(p), n)
}

// PutDir places a directory before the run.
func (f *FS) PutDir(p string) { f.mkdirAll(f.abs(p)) }

// Chdir sets the working directory before the run.
func (f *FS) SetCwd(p string) { f.cwd = p; f.mkdirAll(p) }

// Tree returns every file and directory (directories end in "/") under p.
func (f *FS) Tree(p string) map[string]string {
	out := map[string]string{}
	n, err := f.lookup(p)
	if err != nil {
		return out
	}
	var rec func(n *node, pre string)
	rec = func(n *node, pre string) {
		if n.link != "" {
			out[pre] = "symbolic link to " + n.link
			return
		}
		if !n.dir {
			out[pre] = string(n.data)
			return
		}
		if pre != "" {
			out[pre+"/"] = ""
		}
		for _, e := range n.kids {
			np := e.name
			if pre != "" {
				np = pre + "/" + e.name
			}
			rec(e.n, np)
		}
	}
	rec(n, "")
	return out
}

// op counts an operation and returns the fault to inject, if any.
func (f *FS) op(kind, p, p2 string, n int) (*Fault, *OpRec) {
	w := simrt.W
	if w == nil {
		panic("simos: operation outside a run: " + kind + " " + p)
	}
	simrt.Preempt()
	if w.Dead() {
		simrt.Crash() // ends this task
	}
	at := f.Ops
	f.Ops++
	w.Advance(int64(20+at%7) * 1000)
	w.Event(kind, at, n)
	w.EventString(p)
	f.Trace = append(f.Trace, OpRec{Kind: kind, Path: f.abs(p), N: n})
	rec := &f.Trace[len(f.Trace)-1]
	if p2 != "" {
		rec.Path2 = f.abs(p2)
	}
	for i := range f.Faults {
		ft := &f.Faults[i]
		if ft.At == at {
			if ft.Kind == "full" {
				f.Space = ft.Arg
				f.fire("full", rec)
				continue
			}
			if ft.Kind == "jump" {
				w.Jump(int64(ft.Arg) * int64(time.Second))
				f.fire("jump", rec)
				continue
			}
			if ft.Kind == "crash" {
				f.fire("crash", rec)
				simrt.Crash()
			}
			return ft, rec
		}
	}
	return nil, rec
}

func (f *FS) fire(kind string, rec *OpRec) {
	f.Fired.Inc(kind)
	if rec != nil {
		rec.Fault = kind
	}
	if simrt.W != nil {
		simrt.W.Event("fault:"+kind, f.Ops, 0)
	}
}

// errOf maps a fault kind to the error it makes an operation return.
func errOf(kind string) error {
	switch kind {
	case "eio", "closeerr":
		return syscall.EIO
	case "enospc", "short":
		return syscall.ENOSPC
	case "eacces":
		return syscall.EACCES
	case "emfile":
		return syscall.EMFILE
	case "erofs":
		return syscall.EROFS
	case "enoent":
		return syscall.ENOENT
	case "edquot":
		return syscall.EDQUOT
	}
	return nil
}

// fault returns the error of a plain error fault and records that it fired.
func (f *FS) fault(ft *Fault, rec *OpRec) error {
	if ft == nil {
		return nil
	}
	err := errOf(ft.Kind)
	if err == nil {
		panic("simos: unknown fault kind " + ft.Kind)
	}
	f.fire(ft.Kind, rec)
	return err
}

func (f *FS) meta(m meta) int {
	f.metas = append(f.metas, m)
	return len(f.metas)
}

// PowerLoss rolls the file system back to a state the disk may hold after
// losing power now: a prefix of the metadata operations, and for every file
// written since its last sync any mixture of old, missing and zero blocks.
func (f *FS) PowerLoss(rng *simrt.Rng) string {
	cut := f.durMeta
	if len(f.metas) > f.durMeta {
		switch rng.N(4) {
		case 0:
			cut = f.durMeta
		case 1:
			cut = len(f.metas)
		default:
			cut = f.durMeta + rng.N(len(f.metas)-f.durMeta+1)
		}
	}
	// Undo metadata after the cut, newest first.
	for i := len(f.metas) - 1; i >= cut; i-- {
		m := f.metas[i]
		switch m.kind {
		case "link":
			m.parent.del(m.name)
		case "unlink":
			m.parent.put(m.name, m.n)
		case "rename":
			n := m.p2.find(m.name2)
			m.p2.del(m.name2)
			if m.n != nil { // the target it replaced
				m.p2.put(m.name2, m.n)
			}
			if n != nil {
				m.parent.put(m.name, n)
			}
		}
	}
	desc := fmt.Sprintf("power loss: %d of %d metadata operations durable", cut, len(f.metas))
	// File contents.
	var rec func(n *node, p string)
	rec = func(n *node, p string) {
		if n.dir {
			for _, e := range n.kids {
				rec(e.n, p+"/"+e.name)
			}
			return
		}
		if len(n.writes) == 0 {
			return
		}
		base := n.oldData
		if n.hasSync {
			base = n.synced
		}
		cur := n.data
		var got []byte
		what := ""
		switch rng.N(6) {
		case 0:
			got, what = append([]byte(nil), cur...), "complete"
		case 1:
			got, what = nil, "empty"
			if n.hasSync {
				got, what = append([]byte(nil), base...), "last synced"
			}
		case 2:
			got, what = append([]byte(nil), base...), "old"
		case 3: // a prefix of the writes
			k := rng.N(len(n.writes) + 1)
			got = append([]byte(nil), base...)
			for _, w := range n.writes[:k] {
				got = w.apply(got, len(w.b))
			}
			what = fmt.Sprintf("first %d of %d writes", k, len(n.writes))
		case 4: // zero blocks
			got = append([]byte(nil), cur...)
			if len(got) > 0 {
				a := rng.N(len(got))
				b := a + 1 + rng.N(len(got)-a)
				for i := a; i < b; i++ {
					got[i] = 0
				}
				what = fmt.Sprintf("zeros in [%d,%d)", a, b)
			}
		case 5: // torn last write
			k := rng.N(len(n.writes))
			got = append([]byte(nil), base...)
			for _, w := range n.writes[:k] {
				got = w.apply(got, len(w.b))
			}
			w := n.writes[k]
			got = w.apply(got, rng.N(len(w.b)+1))
			what = fmt.Sprintf("write %d torn", k)
		}
		if n.hasSync && len(got) < len(n.synced) && what != "last synced" && len(n.writes) == 0 {
			got = n.synced
		}
		n.data = got
		desc += "; " + p + ": " + what
	}
	rec(f.root, "")
	return desc
}

func (w wr) apply(b []byte, upto int) []byte {
	if w.trunc {
		if w.size <= len(b) {
			return b[:w.size]
		}
		return append(b, make([]byte, w.size-len(b))...)
	}
	d := w.b[:upto]
	for len(b) < w.off+len(d) {
		b = append(b, 0)
	}
	copy(b[w.off:], d)
	return b
}

// Settle makes the present state the durable initial state of a next run.
func (f *FS) Settle() {
	f.metas = nil
	f.durMeta = 0
	f.Ops = 0
	f.Trace = nil
	f.Faults = nil
	f.Space = -1
	f.open = 0
	f.Out = nil
	f.Err = nil
	f.Fired = Counter{}
	f.cwd = "/work"
	var rec func(n *node)
	rec = func(n *node) {
		n.initial = true
		n.writes = nil
		n.hasSync = false
		n.oldData = n.data
		for _, e := range n.kids {
			rec(e.n)
		}
	}
	rec(f.root)
}

// Counter counts by name. It is a slice, not a map, because the race detector
// watches map operations even in uninstrumented packages.
type Counter struct {
	Names []string
	Ns    []int
}

func (c *Counter) Inc(name string) {
	for i := range c.Names {
		if c.Names[i] == name {
			c.Ns[i]++
			return
		}
	}
	c.Names = append(c.Names, name)
	c.Ns = append(c.Ns, 1)
}

func (c *Counter) Get(name string) int {
	for i := range c.Names {
		if c.Names[i] == name {
			return c.Ns[i]
		}
	}
	return 0
}

// SetRO makes a file read-only before the run.
func (f *FS) SetRO(p string) {
	if n, err := f.lookup(p); err == nil {
		n.mode &^= 0o222
	}
}

// PutLink places a symbolic link before the run.
func (f *FS) PutLink(p, target string) {
	p = f.abs(p)
	d := f.mkdirAll(path.Dir(p))
	n := f.newNode(false, 0o777)
	n.link = target
	n.initial = true
	d.put(path.Base(p), n)
}
