// Package schema models hbuf sources: a small syntax tree, its text form and
// seeded random generators.
package schema

import (
	"fmt"
	"sort"
	"strings"
)

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed*0x9E3779B97F4A7C15 + 0xABCDEF} }

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

// Pick returns one of the arguments.
func Pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }

// Type is a field type.
type Type struct {
	Kind string `json:"kind"` // base, enum, data, array, map
	Name string `json:"name,omitempty"`
	Null bool   `json:"null,omitempty"`
	Elem *Type  `json:"elem,omitempty"`
	Key  *Type  `json:"key,omitempty"`
}

func (t *Type) String() string {
	q := ""
	if t.Null {
		q = "?"
	}
	switch t.Kind {
	case "array":
		return t.Elem.String() + "[]" + q
	case "map":
		return t.Elem.String() + "<" + t.Key.String() + ">" + q
	}
	return t.Name + q
}

// KV is one entry of a tag.
type KV struct {
	K string
	V []string
}

// Tag is [name:k="v";...].
type Tag struct {
	Name string
	KV   []KV
}

func T(name string, kv ...string) Tag {
	t := Tag{Name: name}
	for i := 0; i+1 < len(kv); i += 2 {
		t.KV = append(t.KV, KV{kv[i], []string{kv[i+1]}})
	}
	return t
}

func (t Tag) String() string {
	var p []string
	for _, kv := range t.KV {
		var vs []string
		for _, v := range kv.V {
			vs = append(vs, `"`+v+`"`)
		}
		p = append(p, kv.K+"="+strings.Join(vs, ","))
	}
	return "[" + t.Name + ":" + strings.Join(p, ";") + "]"
}

// Get returns the first value of a key.
func Get(tags []Tag, tag, key string) string {
	for _, t := range tags {
		if t.Name == tag {
			for _, kv := range t.KV {
				if kv.K == key {
					return kv.V[0]
				}
			}
		}
	}
	return ""
}

// Has tells whether a tag is present.
func Has(tags []Tag, tag string) bool {
	for _, t := range tags {
		if t.Name == tag {
			return true
		}
	}
	return false
}

type Field struct {
	Name string
	Type *Type
	ID   int
	Tags []Tag
	Doc  string
	Tail string // comment behind it
}

type Ext struct {
	Name string
	ID   int
}

type EnumItem struct {
	Name string
	N    int
	Tags []Tag
	Doc  string
}

type Method struct {
	Name   string
	Result string
	Param  string
	PName  string
	ID     int
	Tags   []Tag
	Doc    string
}

// Decl is a declaration: exactly one of the kinds enum, data, server.
type Decl struct {
	Kind    string
	Name    string
	Doc     string
	Tags    []Tag
	Ext     []Ext
	Items   []EnumItem
	Fields  []Field
	Methods []Method
}

type File struct {
	Path     string // relative to the source directory
	Packages map[string]string
	Imports  []string
	Decls    []*Decl
}

type Schema struct{ Files []*File }

// Text renders a file.
func (f *File) Text() string {
	var b strings.Builder
	var langs []string
	for l := range f.Packages {
		langs = append(langs, l)
	}
	sort.Strings(langs)
	for _, l := range langs {
		fmt.Fprintf(&b, "package %s = \"%s\"\n", l, f.Packages[l])
	}
	for _, i := range f.Imports {
		fmt.Fprintf(&b, "import \"%s\"\n", i)
	}
	b.WriteString("\n")
	for _, d := range f.Decls {
		b.WriteString(d.Text())
		b.WriteString("\n")
	}
	return b.String()
}

func tags(b *strings.Builder, ind string, ts []Tag) {
	for _, t := range ts {
		b.WriteString(ind + t.String() + "\n")
	}
}

// doc writes a comment of one or several lines.
func doc(b *strings.Builder, ind, text string) {
	switch {
	case text == "":
	case strings.HasPrefix(text, "/*"):
		b.WriteString(ind + text + "\n")
	default:
		for _, l := range strings.Split(text, "\n") {
			b.WriteString(ind + "//" + l + "\n")
		}
	}
}

var docs = []string{" a comment", " 用户", " [x] \"quoted\"", "no space", " it's of\n two lines (or so", " first\n\n third \"of", "/* a block */", "/* a block\n   of [two lines */",
	"/*\n * a {block\n * of lines\n */", " ends in a backslash \\", " a */ b", " // c", "\ttab\r", " `tick", "/*\r\n dos\r\n line (\r\n*/", "", " one\n two\n three }", " http://x.y/z?a=b&c=%d%%"}

// AddDocs puts comments to what a file declares.
func (f *File) AddDocs(r *Rng) {
	add := func(p *string, n, of int) {
		if *p == "" && r.P(n, of) {
			*p = Pick(r, docs...)
		}
	}
	for _, d := range f.Decls {
		add(&d.Doc, 1, 4)
		for i := range d.Items {
			add(&d.Items[i].Doc, 1, 6)
		}
		for i := range d.Fields {
			add(&d.Fields[i].Doc, 1, 6)
			if r.P(1, 12) {
				d.Fields[i].Tail = Pick(r, " // a tail", " /* a tail */", "//tail (", " // it's")
			}
		}
		for i := range d.Methods {
			add(&d.Methods[i].Doc, 1, 5)
		}
	}
}

// Text renders a declaration.
func (d *Decl) Text() string {
	var b strings.Builder
	doc(&b, "", d.Doc)
	tags(&b, "", d.Tags)
	b.WriteString(d.Kind + " " + d.Name)
	for i, e := range d.Ext {
		if i == 0 {
			b.WriteString(" : ")
		} else {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "%s = %d", e.Name, e.ID)
	}
	b.WriteString(" {\n")
	for _, it := range d.Items {
		doc(&b, "\t", it.Doc)
		tags(&b, "\t", it.Tags)
		fmt.Fprintf(&b, "\t%s = %d\n", it.Name, it.N)
	}
	for _, f := range d.Fields {
		doc(&b, "\t", f.Doc)
		tags(&b, "\t", f.Tags)
		fmt.Fprintf(&b, "\t%s %s = %d%s\n", f.Type, f.Name, f.ID, f.Tail)
	}
	for _, m := range d.Methods {
		doc(&b, "\t", m.Doc)
		tags(&b, "\t", m.Tags)
		pn := m.PName
		if pn == "" {
			pn = "req"
		}
		fmt.Fprintf(&b, "\t%s %s(%s %s) = %d\n", m.Result, m.Name, m.Param, pn, m.ID)
	}
	b.WriteString("}\n")
	return b.String()
}

// Texts renders every file by path.
func (s *Schema) Texts() map[string]string {
	out := map[string]string{}
	for _, f := range s.Files {
		out[f.Path] = f.Text()
	}
	return out
}

// Bases are the built-in types.
var Bases = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string", "date", "decimal"}

func Base(n string) *Type  { return &Type{Kind: "base", Name: n} }
func NBase(n string) *Type { return &Type{Kind: "base", Name: n, Null: true} }
