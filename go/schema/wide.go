package schema

import (
	"fmt"
	"path"
	"strconv"
	"strings"
)

// Wide makes schemas that exercise as much of the compiler as possible for
// every target language. They are valid: they pass the semantic checks and the
// generators accept them. The generated code need not compile.
type Wide struct {
	R        *Rng
	n        int
	enums    []*typeRef
	datas    []*typeRef
	servers  []*typeRef
	formats  []*typeRef // enums whose items carry format tags
	cur      *File
	visible  map[string]bool
	Clash    bool // sources may have outputs of one name
	MaxFiles int
	big      bool // files longer than any buffer
}

type typeRef struct {
	d    *Decl
	file *File
}

var words = []string{"user", "order", "Item", "shop", "book", "Role", "admin", "log", "Price", "city", "Event", "task", "Node", "cart", "Stock"}
var fieldWords = []string{"id", "name", "age", "user_id", "createTime", "phone", "amount", "state", "kind", "ref", "Memo", "score", "flag", "photo", "parent_id", "sort"}

func (w *Wide) name(pre string) string {
	w.n++
	return pre + words[w.R.N(len(words))] + strconv.Itoa(w.n)
}

// Schema returns a random schema.
func (w *Wide) Schema() *Schema {
	r := w.R
	max := w.MaxFiles
	if max == 0 {
		max = 4
	}
	nf := 1 + r.N(max)
	if r.P(1, 40) {
		w.big = true
		nf = 1
	}
	s := &Schema{}
	for i := 0; i < nf; i++ {
		dir := ""
		if r.P(1, 3) {
			dir = Pick(r, "sub/", "mod/a/", "z/")
		}
		f := &File{Path: dir + fmt.Sprintf("%s%d.hbuf", Pick(r, "shop", "user_base", "orders", "common"), i), Packages: map[string]string{}}
		if w.Clash && i > 0 {
			// A name whose output files may be those of another source.
			_, base := path.Split(s.Files[r.N(i)].Path)
			if r.P(1, 3) {
				base = strings.ReplaceAll(base, "user_base", "userBase")
			}
			d := Pick(r, "", "sub/", "mod/a/", "z/")
			for used := true; used; d += "y/" {
				used = false
				for _, o := range s.Files {
					used = used || o.Path == d+base
				}
				if !used {
					break
				}
			}
			f.Path = d + base
		}
		if r.P(9, 10) {
			f.Packages["go"] = Pick(r, "shop", "admin", "com.demo", "base")
			if r.P(1, 4) {
				// The last part is also the last part of another import.
				f.Packages["go"] = Pick(r, "hbuf", "db", "cache", "context", "strings", "json", "a.shop", "b.demo", "rpc")
			}
		}
		if r.P(9, 10) {
			f.Packages["java"] = Pick(r, "com.shop", "com.demo.base", "app")
		}
		for _, o := range s.Files {
			if r.P(2, 3) {
				rel := relPath(path.Dir(f.Path), o.Path)
				f.Imports = append(f.Imports, rel)
			}
		}
		s.Files = append(s.Files, f)
		w.fill(f, s)
		f.AddDocs(r)
	}
	// A file may be imported by an earlier one too; imports are checked per name.
	if nf > 1 && r.P(1, 4) {
		f := s.Files[0]
		f.Imports = append(f.Imports, relPath(path.Dir(f.Path), s.Files[nf-1].Path))
	}
	return s
}

func relPath(from, to string) string {
	up := ""
	for from != "." && from != "" {
		up += "../"
		from = path.Dir(from)
	}
	return up + to
}

func (w *Wide) see(f *File, s *Schema) {
	w.cur = f
	w.visible = map[string]bool{f.Path: true}
	for _, i := range f.Imports {
		w.visible[path.Join(path.Dir(f.Path), i)] = true
	}
}

func (w *Wide) pick(l []*typeRef) *typeRef {
	var c []*typeRef
	for _, t := range l {
		if w.visible[t.file.Path] {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[w.R.N(len(c))]
}

func (w *Wide) fill(f *File, s *Schema) {
	r := w.R
	w.see(f, s)
	n := 1 + r.N(5)
	if w.big {
		n = 10 + r.N(30)
	}
	for i := 0; i < n; i++ {
		switch k := r.N(10); {
		case k < 2:
			w.enum(f)
		case k < 8:
			w.data(f)
		default:
			w.server(f)
		}
	}
}

func (w *Wide) doc() string {
	if w.R.P(1, 3) {
		return Pick(w.R, " a comment", " 用户", " [x] \"quoted\"", " long "+fmt.Sprint(w.R.N(1000)))
	}
	return ""
}

func (w *Wide) langTag() Tag {
	t := T("lang", "en", Pick(w.R, "Name", "State of it"), "zh", Pick(w.R, "名称", "状态"))
	if w.R.P(1, 3) {
		t.KV = append(t.KV, KV{"fr", []string{"Nom"}})
	}
	// Keys that begin alike.
	for _, k := range []string{"es", "zhTW", "ja", "enUS", "fi"} {
		if w.R.P(1, 4) {
			t.KV = append(t.KV, KV{k, []string{"N " + k}})
		}
	}
	return t
}

func (w *Wide) enum(f *File) {
	r := w.R
	d := &Decl{Kind: "enum", Name: w.name("E"), Doc: w.doc()}
	format := r.P(1, 2)
	if r.P(1, 3) {
		d.Tags = append(d.Tags, T("ui", "form", "menu"))
	}
	n := 1 + r.N(4)
	for i := 0; i < n; i++ {
		it := EnumItem{Name: fmt.Sprintf("%s%d", Pick(r, "ok", "Bad", "not_found", "DONE"), i), N: i * 3}
		if format {
			t := Tag{Name: "format"}
			if r.P(1, 2) {
				t.KV = append(t.KV, KV{"null", []string{Pick(r, "true", "false")}})
			}
			if r.P(2, 3) {
				t.KV = append(t.KV, KV{"min", []string{"1"}})
			}
			if r.P(2, 3) {
				t.KV = append(t.KV, KV{"max", []string{"100"}})
			}
			it.Tags = append(it.Tags, t)
		}
		if r.P(1, 3) {
			it.Tags = append(it.Tags, w.langTag())
		}
		d.Items = append(d.Items, it)
	}
	f.Decls = append(f.Decls, d)
	ref := &typeRef{d, f}
	w.enums = append(w.enums, ref)
	if format {
		w.formats = append(w.formats, ref)
	}
}

func (w *Wide) scalar() *Type {
	r := w.R
	if r.P(1, 6) {
		if e := w.pick(w.enums); e != nil {
			return &Type{Kind: "enum", Name: e.d.Name}
		}
	}
	return Base(Bases[r.N(len(Bases))])
}

func (w *Wide) typ() *Type {
	r := w.R
	elem := func() *Type {
		if r.P(1, 5) {
			if d := w.pick(w.datas); d != nil {
				return &Type{Kind: "data", Name: d.d.Name}
			}
		}
		return w.scalar()
	}
	switch k := r.N(10); {
	case k < 6:
		t := elem()
		t.Null = r.P(1, 3)
		return t
	case k < 8:
		e := elem()
		e.Null = r.P(1, 5)
		return &Type{Kind: "array", Elem: e, Null: r.P(1, 3)}
	default:
		e := elem()
		e.Null = r.P(1, 5)
		var key *Type
		if r.P(1, 4) {
			if en := w.pick(w.enums); en != nil {
				key = &Type{Kind: "enum", Name: en.d.Name}
			}
		}
		if key == nil {
			key = Base(Pick(r, "string", "int32", "int64", "uint8", "bool"))
		}
		return &Type{Kind: "map", Elem: e, Key: key, Null: r.P(1, 3)}
	}
}

func (w *Wide) uiTag(t *Type) Tag {
	r := w.R
	u := T("ui", "form", Pick(r, "text", "menu", "switch", "date", "click"))
	if r.P(1, 2) {
		u.KV = append(u.KV, KV{"table", []string{Pick(r, "text", "image", "link")}})
	}
	if r.P(1, 4) {
		u.KV = append(u.KV, KV{"onlyRead", []string{"true"}})
	}
	if r.P(1, 4) {
		u.KV = append(u.KV, KV{"digit", []string{"2"}})
	}
	if r.P(1, 4) {
		u.KV = append(u.KV, KV{"width", []string{"120"}})
	}
	if r.P(1, 4) {
		u.KV = append(u.KV, KV{"index", []string{strconv.Itoa(r.N(9))}})
	}
	if r.P(1, 5) {
		u.KV = append(u.KV, KV{"maxLine", []string{"3"}})
	}
	if r.P(1, 5) {
		u.KV = append(u.KV, KV{"format", []string{"yyyy-MM-dd"}})
	}
	return u
}

func (w *Wide) data(f *File) {
	r := w.R
	if r.P(1, 4) {
		w.table(f)
		return
	}
	d := &Decl{Kind: "data", Name: w.name("d"), Doc: w.doc()}
	used := map[string]bool{}
	for i := 0; i < r.N(3); i++ {
		p := w.pick(w.datas)
		if p == nil || used["ext "+p.d.Name] {
			continue
		}
		used["ext "+p.d.Name] = true
		d.Ext = append(d.Ext, Ext{p.d.Name, len(d.Ext) + 1})
	}
	ui := r.P(1, 4)
	if ui {
		d.Tags = append(d.Tags, Pick(r, T("ui", "form", "true", "table", "true"), T("ui", "form", "true")))
	}
	verify := r.P(1, 4)
	if verify {
		d.Tags = append(d.Tags, Tag{Name: "verify"})
	}
	n := r.N(7)
	for i := 0; i < n; i++ {
		nm := fieldWords[r.N(len(fieldWords))]
		if used[nm] {
			continue
		}
		used[nm] = true
		fd := Field{Name: nm, Type: w.typ(), ID: i, Doc: w.doc()}
		if ui && r.P(2, 3) {
			fd.Tags = append(fd.Tags, w.uiTag(fd.Type))
		}
		if r.P(1, 4) {
			fd.Tags = append(fd.Tags, w.langTag())
		}
		if verify && fd.Type.Kind == "base" && fd.Type.Name != "date" && r.P(1, 2) {
			if e := w.pick(w.formats); e != nil {
				fd.Tags = append(fd.Tags, T("verify", "format", e.d.Name+"."+e.d.Items[r.N(len(e.d.Items))].Name))
			}
		}
		d.Fields = append(d.Fields, fd)
	}
	f.Decls = append(f.Decls, d)
	w.datas = append(w.datas, &typeRef{d, f})
}

func (w *Wide) table(f *File) {
	r := w.R
	t := T("db", "name", fmt.Sprintf("tb_%d", w.n))
	for _, op := range []string{"get", "list", "insert", "inserts", "update", "set"} {
		if r.P(2, 3) {
			t.KV = append(t.KV, KV{op, []string{"self"}})
		}
	}
	for _, op := range []string{"del", "rm", "count"} {
		if r.P(1, 2) {
			t.KV = append(t.KV, KV{op, []string{"true"}})
		}
	}
	if r.P(1, 3) {
		t.KV = append(t.KV, KV{"map", []string{"id:self"}})
	}
	if r.P(1, 3) {
		t.KV = append(t.KV, KV{"fake", []string{"false"}})
	}
	d := &Decl{Kind: "data", Name: w.name("t"), Doc: w.doc(), Tags: []Tag{t}}
	if r.P(1, 3) {
		d.Tags = append(d.Tags, T("cache", "min", "10", "max", "60"))
	}
	d.Fields = append(d.Fields, Field{Name: "id", Type: Base("int64"), ID: 0, Tags: []Tag{T("db", "key", "true")}})
	for i, nm := range []string{"name", "age", "state", "memo"} {
		if r.P(1, 4) {
			continue
		}
		ty := w.scalar()
		ty.Null = r.P(1, 2)
		ft := T("db")
		if r.P(1, 3) {
			ft.KV = append(ft.KV, KV{"where", []string{"AND " + nm + " = ?"}})
		}
		d.Fields = append(d.Fields, Field{Name: nm, Type: ty, ID: i + 1, Tags: []Tag{ft}})
	}
	f.Decls = append(f.Decls, d)
	w.datas = append(w.datas, &typeRef{d, f})
	if r.P(1, 2) {
		// A request type of the table.
		q := &Decl{Kind: "data", Name: w.name("q"), Tags: []Tag{T("db", "table", d.Name)}}
		for _, op := range []string{"get", "list"} {
			if r.P(2, 3) {
				q.Tags[0].KV = append(q.Tags[0].KV, KV{op, []string{d.Name}})
			}
		}
		if r.P(1, 2) {
			q.Tags[0].KV = append(q.Tags[0].KV, KV{"count", []string{"true"}})
		}
		q.Fields = append(q.Fields, Field{Name: "id", Type: NBase("int64"), ID: 0, Tags: []Tag{T("db", "where", "AND id = ?")}})
		if r.P(1, 2) {
			q.Fields = append(q.Fields, Field{Name: "off", Type: Base("int32"), ID: 1, Tags: []Tag{T("db", "offset", "?")}},
				Field{Name: "lim", Type: Base("int32"), ID: 2, Tags: []Tag{T("db", "limit", "?")}})
		}
		f.Decls = append(f.Decls, q)
		w.datas = append(w.datas, &typeRef{q, f})
	}
}

func (w *Wide) server(f *File) {
	r := w.R
	d := &Decl{Kind: "server", Name: w.name("S"), Doc: w.doc()}
	if p := w.pick(w.servers); p != nil && r.P(1, 2) {
		d.Ext = append(d.Ext, Ext{p.d.Name, 1})
	}
	for i := 0; i < 1+r.N(4); i++ {
		p := w.pick(w.datas)
		if p == nil {
			break
		}
		res := "void"
		if q := w.pick(w.datas); q != nil && r.P(3, 4) {
			res = q.d.Name
		}
		m := Method{Name: fmt.Sprintf("%s%d", Pick(r, "get", "Save", "list_all", "drop"), w.n*10+i), Result: res, Param: p.d.Name, ID: i}
		if r.P(1, 4) {
			m.Tags = append(m.Tags, T("tag", "auth", Pick(r, "admin", "user")))
		}
		d.Methods = append(d.Methods, m)
	}
	f.Decls = append(f.Decls, d)
	w.servers = append(w.servers, &typeRef{d, f})
}
