//go:build gensim

package main

import (
	"fmt"
	"sort"
	"strings"

	"hbuf/pkg/ast"
	"hbuf/pkg/parser"
	"hbuf/pkg/token"

	"vsim/gs/simrt"
)

// ParseSpec is the workload of C09: tasks that share one position set.
type ParseSpec struct {
	Tasks [][]POp `json:"tasks"`
	Split bool    `json:"split,omitempty"` // reference run: every operation has a set of its own
}

// POp is one operation on the shared position set.
type POp struct {
	Op    string `json:"op"` // parse, add, look, iter
	Name  string `json:"name,omitempty"`
	Text  string `json:"text,omitempty"`
	Size  int    `json:"size,omitempty"`
	Lines []int  `json:"lines,omitempty"`
	N     int    `json:"n,omitempty"`
}

type known struct {
	pos       token.Pos
	name      string
	off       int
	line, col int
	ident     string
}

type rng struct {
	name string
	a, b int
}

type parseRun struct {
	sets     []*token.FileSet
	known    []known
	ranges   []rng
	problems []string
	results  []string
	done     int
	total    int
}

func (p *parseRun) bad(f string, a ...any) {
	if len(p.problems) < 10 {
		p.problems = append(p.problems, fmt.Sprintf(f, a...))
	}
}

func lineCol(text string, off int) (int, int) {
	l := 1 + strings.Count(text[:off], "\n")
	c := off - (strings.LastIndexByte(text[:off], '\n') + 1) + 1
	return l, c
}

func (p *parseRun) check(fs *token.FileSet, k known) {
	got := fs.Position(k.pos)
	if got.Filename != k.name || got.Offset != k.off || got.Line != k.line || got.Column != k.col {
		p.bad("position of %s offset %d resolves to %s:%d:%d (offset %d), want line %d column %d", k.name, k.off, got.Filename, got.Line, got.Column, got.Offset, k.line, k.col)
	}
	if f := fs.File(k.pos); f == nil {
		p.bad("no file for a position of %s", k.name)
	} else if f.Name() != k.name {
		p.bad("file of a position of %s is %s", k.name, f.Name())
	}
}

func (p *parseRun) addRange(name string, base, size int) {
	for _, r := range p.ranges {
		if base <= r.b && r.a <= base+size {
			p.bad("range [%d,%d] of %s overlaps [%d,%d] of %s", base, base+size, name, r.a, r.b, r.name)
		}
	}
	p.ranges = append(p.ranges, rng{name, base, base + size})
}

func startParse(w *simrt.World, s *ParseSpec) *parseRun {
	p := &parseRun{}
	shared := token.NewFileSet()
	for i := range s.Tasks {
		ops := s.Tasks[i]
		p.total++
		w.Root(fmt.Sprintf("task%d", i), func() {
			for j := range ops {
				fs := shared
				if s.Split {
					fs = token.NewFileSet()
				}
				p.do(fs, &ops[j], s.Split)
			}
			p.done++
		})
	}
	p.sets = append(p.sets, shared)
	return p
}

func (p *parseRun) do(fs *token.FileSet, op *POp, split bool) {
	switch op.Op {
	case "parse":
		f, err := parser.ParseFile(fs, op.Name, []byte(op.Text), parser.AllErrors|parser.ParseComments)
		msg := "ok"
		if err != nil {
			msg = err.Error()
		}
		var ks []known
		if f != nil && err == nil {
			for _, sp := range f.Specs {
				t, ok := sp.(*ast.TypeSpec)
				if !ok || t.Name == nil {
					continue
				}
				ks = append(ks, known{pos: t.Name.Pos(), ident: t.Name.Name, name: op.Name})
			}
		}
		n := 0
		for _, k := range ks {
			tf := fs.File(k.pos)
			if tf == nil {
				p.bad("no file for position %d of %s", k.pos, op.Name)
				continue
			}
			if tf.Name() != op.Name {
				p.bad("position of %s in %s belongs to file %s", k.ident, op.Name, tf.Name())
				continue
			}
			if tf.Size() != len(op.Text) {
				p.bad("file of %s has size %d, want %d", op.Name, tf.Size(), len(op.Text))
				continue
			}
			k.off = int(k.pos) - tf.Base()
			if k.off < 0 || k.off > len(op.Text) || !strings.HasPrefix(op.Text[k.off:], k.ident) {
				p.bad("position of %s in %s does not point at it", k.ident, op.Name)
				continue
			}
			k.line, k.col = lineCol(op.Text, k.off)
			if n == 0 && !split {
				p.addRange(op.Name, tf.Base(), tf.Size())
			}
			n++
			p.check(fs, k)
			if !split {
				p.known = append(p.known, k)
			}
		}
		p.results = append(p.results, fmt.Sprintf("%s: %s (%d declarations)", op.Name, msg, n))
	case "add":
		f := fs.AddFile(op.Name, -1, op.Size)
		for _, l := range op.Lines {
			f.AddLine(l)
		}
		base, size := f.Base(), f.Size()
		if size != op.Size {
			p.bad("size of %s is %d, want %d", op.Name, size, op.Size)
		}
		if !split {
			p.addRange(op.Name, base, size)
		}
		lines := append([]int{0}, op.Lines...)
		if f.LineCount() != len(lines) {
			p.bad("%s has %d lines, want %d", op.Name, f.LineCount(), len(lines))
		}
		for i, l := range lines {
			off := l
			if i%2 == 1 && l+1 < op.Size {
				off++
			}
			li := sort.SearchInts(lines, off+1)
			k := known{pos: f.Pos(off), name: op.Name, off: off, line: li, col: off - lines[li-1] + 1}
			p.check(fs, k)
			if !split {
				p.known = append(p.known, k)
			}
		}
	case "look":
		for i := 0; i < 3 && len(p.known) > 0; i++ {
			k := p.known[(op.N*7+i*13)%len(p.known)]
			p.check(fs, k)
		}
	case "iter":
		last := 0
		seen := map[string]bool{}
		var files []*token.File
		fs.Iterate(func(f *token.File) bool {
			if f.Base() <= last {
				p.bad("files out of order: base %d after %d", f.Base(), last)
			}
			last = f.Base() + f.Size()
			if seen[f.Name()] {
				p.bad("file %s is in the set twice", f.Name())
			}
			seen[f.Name()] = true
			files = append(files, f)
			return true
		})
		// Files of which some are still being parsed.
		for i := range files {
			f := files[(i*5+op.N)%len(files)]
			if i > 3 {
				break
			}
			if n := f.LineCount(); n < 1 {
				p.bad("%s has %d lines", f.Name(), n)
			}
			p.check(fs, known{pos: token.Pos(f.Base()), name: f.Name(), line: 1, col: 1})
		}
		if b := fs.Base(); b <= last {
			p.bad("next base %d lies inside the last file seen (ends at %d)", b, last)
		}
	}
}

func (p *parseRun) finish() []string {
	sort.Strings(p.results)
	out := p.problems
	if p.done != p.total {
		out = append(out, fmt.Sprintf("%d of %d tasks finished", p.done, p.total))
	}
	// Afterwards, alone: everything still resolves.
	if len(out) == 0 {
		p.lookAll()
		out = p.problems
	}
	for _, r := range p.results {
		out = append(out, "RESULT "+r)
	}
	return out
}

// lookAll looks everything up outside the simulation.
func (p *parseRun) lookAll() {
	defer func() {
		if e := recover(); e != nil {
			p.bad("a lookup alone afterwards fails: %v", e)
		}
	}()
	for _, k := range p.known {
		p.check(p.sets[0], k)
	}
}
