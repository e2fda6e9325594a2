// Package svcgen makes schemas whose generated services the simulator runs,
// together with the description of what they mean.
package svcgen

import (
	"fmt"
	"strconv"
	"strings"

	"vsim/schema"
	"vsim/ss/meta"
)

// Hump is the Go name of an IDL name.
func Hump(n string) string {
	out := ""
	for _, p := range strings.Split(n, "_") {
		if p != "" {
			out += strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return out
}

// Under is the default column name of an IDL name.
func Under(n string) string {
	var b strings.Builder
	for i, c := range n {
		if c >= 'A' && c <= 'Z' {
			if i > 0 && n[i-1] != '_' {
				b.WriteByte('_')
			}
			c += 'a' - 'A'
		}
		b.WriteRune(c)
	}
	return b.String()
}

type dbGen struct {
	r      *schema.Rng
	s      *meta.Schema
	pkg    string
	base   *schema.File
	files  []*schema.File
	enum   string
	addr   string
	cached bool
	nc     int // cached types so far
	turn   int
}

type fieldSpec struct {
	name string
	typ  string
}

var colPool = []fieldSpec{
	{"name", "string"}, {"nick_name", "string"}, {"phone", "string"}, {"cityCode", "string"},
	{"age", "int32"}, {"score", "int64"}, {"amount", "decimal"}, {"createTime", "date"}, {"birth_day", "date"},
	{"state", "enum"}, {"kind", "enum"}, {"active", "bool"}, {"flag", "bool"}, {"level", "int8"}, {"rank", "int16"},
	{"small", "uint8"}, {"port", "uint16"}, {"hits", "uint32"}, {"total", "uint64"}, {"rate", "double"}, {"weight", "float"},
	{"ref_id", "int64"}, {"parentId", "int64"}, {"count", "int32"}, {"stock", "int32"},
}

var jsonPool = []struct {
	name string
	typ  *schema.Type
}{
	{"photos", &schema.Type{Kind: "array", Elem: schema.Base("string")}},
	{"marks", &schema.Type{Kind: "array", Elem: schema.NBase("int32"), Null: true}},
	{"extra", &schema.Type{Kind: "map", Elem: schema.Base("string"), Key: schema.Base("string")}},
	{"addr", nil},
	{"sizes", &schema.Type{Kind: "array", Elem: schema.Base("int64"), Null: true}},
	{"prices", &schema.Type{Kind: "map", Elem: schema.Base("decimal"), Key: schema.Base("int32"), Null: true}},
	{"notes", &schema.Type{Kind: "map", Elem: schema.NBase("string"), Key: schema.Base("string"), Null: true}},
	{"times", &schema.Type{Kind: "array", Elem: schema.NBase("date")}},
	{"bits", &schema.Type{Kind: "array", Elem: schema.Base("bool"), Null: true}},
}

var tablePool = []string{"User", "UserLog", "Book", "Cart", "CartItem", "City", "Account", "Stock"}

// DB makes a schema with tables. Index 0 is fixed in its make-up, so that every
// run has the common shapes.
func DB(r *schema.Rng, i int, cached bool) *meta.Schema {
	g := &dbGen{r: r, pkg: fmt.Sprintf("s%d", i), cached: cached, turn: i}
	g.s = &meta.Schema{Pkg: g.pkg, Files: map[string]string{}}
	basePkg := g.pkg
	if r.P(1, 2) {
		basePkg = g.pkg + "base"
	}
	g.base = &schema.File{Path: g.pkg + "_base.hbuf", Packages: map[string]string{"go": basePkg}}
	g.enum = "Status"
	g.s.Enums = append(g.s.Enums, &meta.Enum{Name: "Status", Items: []int{0, 1, 2, 7}})
	g.base.Decls = append(g.base.Decls, &schema.Decl{Kind: "enum", Name: "Status", Items: []schema.EnumItem{{Name: "None", N: 0}, {Name: "open", N: 1}, {Name: "half_done", N: 2}, {Name: "Closed", N: 7}}})
	g.addr = "Addr"
	g.base.Decls = append(g.base.Decls, &schema.Decl{Kind: "data", Name: "Addr", Fields: []schema.Field{
		{Name: "city", Type: schema.Base("string"), ID: 1}, {Name: "zip_code", Type: schema.NBase("int32"), ID: 2}, {Name: "tags", Type: &schema.Type{Kind: "array", Elem: schema.Base("string")}, ID: 3}}})
	g.s.Datas = append(g.s.Datas, &meta.Data{Type: "Addr", Pkg: basePkg, Fields: []*meta.DF{
		{Field: "city", Go: "City", Type: schema.Base("string")}, {Field: "zip_code", Go: "ZipCode", Type: schema.NBase("int32")},
		{Field: "tags", Go: "Tags", Type: &schema.Type{Kind: "array", Elem: schema.Base("string")}}}})
	// A parent of tables.
	g.base.Decls = append(g.base.Decls, &schema.Decl{Kind: "data", Name: "Entity", Fields: []schema.Field{
		{Name: "id", Type: schema.Base("int64"), ID: 0, Tags: []schema.Tag{schema.T("db", "key", "true")}}}})
	// One with a parent of its own.
	g.base.Decls = append(g.base.Decls, number(&schema.Decl{Kind: "data", Name: "Tracked", Ext: []schema.Ext{{Name: "Entity", ID: 1}}, Fields: []schema.Field{
		{Name: "revision", Type: schema.NBase("int32"), Tags: []schema.Tag{dbTag("name", "rev")}}, {Name: "editedBy", Type: schema.Base("string"), Tags: []schema.Tag{dbTag()}}}}))
	g.base.Decls = append(g.base.Decls, &schema.Decl{Kind: "data", Name: "PageReq", Fields: []schema.Field{
		{Name: "limit", Type: schema.Base("int32"), ID: 0, Tags: []schema.Tag{schema.T("db", "limit", "?")}},
		{Name: "offset", Type: schema.Base("int32"), ID: 1, Tags: []schema.Tag{schema.T("db", "offset", "?")}}}})
	main := &schema.File{Path: g.pkg + ".hbuf", Packages: map[string]string{"go": g.pkg}, Imports: []string{g.base.Path}}
	reqs := &schema.File{Path: g.pkg + "_req.hbuf", Packages: map[string]string{"go": g.pkg}, Imports: []string{g.base.Path, main.Path}}
	if r.P(1, 3) {
		reqs = main
	}
	g.files = []*schema.File{g.base, main}
	if reqs != main {
		g.files = append(g.files, reqs)
	}
	n := 2 + r.N(2)
	first := r.N(len(tablePool))
	if i%2 == 0 {
		first = 0 // User and UserLog, one name the beginning of the other
	}
	for k := 0; k < n; k++ {
		t := g.table(main, tablePool[(first+k)%len(tablePool)], k)
		nq := 2 + r.N(3)
		for q := 0; q < nq; q++ {
			g.query(reqs, t, q)
		}
		if r.P(1, 2) {
			g.groupReq(reqs, t, nq)
		}
		for q := 0; q < 1+r.N(2); q++ {
			g.write(reqs, t, q)
		}
		if r.P(2, 3) {
			g.insert(reqs, t)
		}
		if !g.cached && (k == 0 || r.P(1, 2)) {
			g.purge(reqs, t)
		}
	}
	for _, f := range g.files {
		f.AddDocs(g.r)
		g.s.Files[f.Path] = f.Text()
	}
	return g.s
}

func (g *dbGen) cacheTag(p, of int) (*meta.Cache, []schema.Tag) {
	r := g.r
	if !g.cached || !r.P(p, of) {
		return nil, nil
	}
	switch g.nc++; (g.nc + g.turn) % 7 {
	case 0:
		return &meta.Cache{Min: 7200, Max: 10800}, []schema.Tag{{Name: "cache"}}
	case 1:
		min := 10 + r.N(60)
		if r.P(1, 2) {
			min = 10801 + r.N(3000)
		}
		return &meta.Cache{Min: min, Max: max(min, 10800)}, []schema.Tag{schema.T("cache", "min", strconv.Itoa(min))}
	case 2:
		to := 10900 + r.N(600)
		if r.P(1, 2) {
			to = 30 + r.N(7000)
		}
		return &meta.Cache{Min: min(to, 7200), Max: to}, []schema.Tag{schema.T("cache", "max", strconv.Itoa(to))}
	case 3:
		n := 2 + r.N(100)
		return &meta.Cache{Min: n, Max: n}, []schema.Tag{schema.T("cache", "max", strconv.Itoa(n), "min", strconv.Itoa(n))}
	}
	min := 5 + r.N(100)
	max := min + 1 + r.N(200)
	return &meta.Cache{Min: min, Max: max}, []schema.Tag{schema.T("cache", "min", strconv.Itoa(min), "max", strconv.Itoa(max))}
}

func (g *dbGen) typ(t string, null bool) *schema.Type {
	if t == "enum" {
		return &schema.Type{Kind: "enum", Name: g.enum, Null: null}
	}
	return &schema.Type{Kind: "base", Name: t, Null: null}
}

func dbTag(kv ...string) schema.Tag { return schema.T("db", kv...) }

func (g *dbGen) table(f *schema.File, name string, k int) *meta.Table {
	r := g.r
	t := &meta.Table{Type: name, Soft: !r.P(1, 3)}
	if k == 0 {
		t.Soft = true
	}
	d := &schema.Decl{Kind: "data", Name: name}
	var tag []string
	t.DB = Under(name)
	if r.P(1, 3) {
		t.DB = Pick(r, "t_", "sys_") + t.DB
	}
	tag = append(tag, "name", t.DB)
	if t.DB == Under(name) && r.P(1, 3) {
		tag = nil
	}
	if r.P(1, 4) {
		tag = append(tag, "schema", "shop")
		t.DB = "shop." + t.DB
	}
	if k > 0 && r.P(1, 3) {
		// A table of the same name as the one before, in another database.
		p := g.s.Tables[k-1].DB
		if i := strings.IndexByte(p, '.'); i >= 0 {
			p = p[i+1:]
		}
		for _, where := range []string{Pick(r, "", "shop", "audit"), "audit", "shop", ""} {
			t.DB = strings.TrimPrefix(where+"."+p, ".")
			tag = []string{"name", p}
			if where != "" {
				tag = append(tag, "schema", where)
			}
			clash := false
			for _, o := range g.s.Tables {
				clash = clash || o.DB == t.DB
			}
			if !clash {
				break
			}
		}
	}
	// the key
	inherit := r.P(1, 3)
	if inherit {
		far := r.P(1, 2)
		d.Ext = append(d.Ext, schema.Ext{Name: map[bool]string{true: "Tracked", false: "Entity"}[far], ID: 1})
		t.Key = "id"
		t.Cols = append(t.Cols, &meta.Col{Field: "id", Go: "Id", Name: "id", Type: schema.Base("int64")})
		if r.P(1, 3) {
			d.Fields = append(d.Fields, schema.Field{Name: "id", Type: schema.Base("int64"), Tags: []schema.Tag{dbTag("key", "true")}})
		}
	} else {
		kt := Pick(r, "int64", "int64", "int32", "string")
		c := &meta.Col{Field: "id", Go: "Id", Name: "id", Type: schema.Base(kt)}
		kv := []string{"key", "true"}
		if r.P(1, 3) {
			c.Name = "uid"
			kv = append(kv, "name", "uid")
			if r.P(1, 2) {
				c.Field, c.Go = "uid", "Uid"
				kv = []string{"key", "true"}
			}
		}
		t.Key = c.Name
		t.Cols = append(t.Cols, c)
		d.Fields = append(d.Fields, schema.Field{Name: c.Field, Type: c.Type, Tags: []schema.Tag{dbTag(kv...)}})
	}
	nc := 4 + r.N(5)
	off := r.N(len(colPool))
	used := map[string]bool{}
	for len(t.Cols) < nc {
		p := colPool[(off+r.N(len(colPool)))%len(colPool)]
		if len(t.Cols) < 3 {
			p = []fieldSpec{{"name", "string"}, {"age", "int32"}}[len(t.Cols)-1]
		}
		if used[p.name] {
			continue
		}
		used[p.name] = true
		g.col(t, d, p.name, g.typ(p.typ, r.P(1, 2)), false)
	}
	all := k == 0 && (g.turn == 1 || g.turn == 2)
	if all {
		// every type, optional or not
		for j, n := range append([]string{"enum"}, schema.Bases...) {
			g.col(t, d, fmt.Sprintf("%s_%s", Pick(r, "v", "my", "z2"), n), g.typ(n, (j+g.turn)%2 == 0), false)
		}
	}
	if len(d.Ext) > 0 && d.Ext[0].Name == "Tracked" {
		t.Cols = append(t.Cols, &meta.Col{Field: "revision", Go: "Revision", Name: "rev", Type: schema.NBase("int32")},
			&meta.Col{Field: "editedBy", Go: "EditedBy", Name: "edited_by", Type: schema.Base("string")})
	}
	if !inherit && r.P(1, 3) {
		// the key is not the first field
		p := 1 + r.N(len(t.Cols)-1)
		k, kf := t.Cols[0], d.Fields[0]
		copy(t.Cols, t.Cols[1:p+1])
		copy(d.Fields, d.Fields[1:p+1])
		t.Cols[p], d.Fields[p] = k, kf
	}
	js := []int{r.N(len(jsonPool))}
	if all {
		js = nil
		for i := g.turn % 2; i < len(jsonPool); i += 2 {
			js = append(js, i)
		}
	} else if r.P(1, 3) {
		js = nil
	}
	for _, i := range js {
		p := jsonPool[i]
		ty := p.typ
		if ty == nil {
			ty = &schema.Type{Kind: "data", Name: g.addr, Null: r.P(1, 2)}
		}
		g.col(t, d, p.name, ty, true)
	}
	if r.P(1, 3) {
		// not a column
		d.Fields = append(d.Fields, schema.Field{Name: "note", Type: schema.NBase("string")})
	}
	o := &t.Ops
	o.List, o.Get, o.Insert, o.Set, o.Update = "self", "self", "self", "self", "self"
	o.Count, o.Remove, o.Del = true, true, true
	if r.P(2, 3) {
		o.Inserts = "self"
	}
	o.Map, o.MapKey = "self", t.Col(t.Key).Field
	if r.P(1, 4) {
		for _, c := range t.Cols {
			if c.Name == "name" || c.Name == "age" || c.Name == "cityCode" || c.Name == "ref_id" {
				o.MapKey = c.Field
			}
		}
	}
	if r.P(1, 5) {
		o.Update = "parent"
	}
	if r.P(2, 5) {
		// not every operation
		for _, p := range []*string{&o.List, &o.Get, &o.Set, &o.Update, &o.Inserts, &o.Map} {
			if r.P(1, 3) {
				*p = ""
			}
		}
		for _, p := range []*bool{&o.Count, &o.Remove, &o.Del} {
			if r.P(2, 5) {
				*p = false
			}
		}
		if o.List == "" && o.Get == "" {
			o.Get = "self"
		}
		if o.Map == "" {
			o.MapKey = ""
		}
	}
	tag = append(tag, opsTag(o)...)
	if !t.Soft {
		tag = append(tag, "fake", "false")
	}
	if o.Update == "parent" {
		// only fields with a set tag are written
		for i := range d.Fields {
			c := t.Col(colName(t, d.Fields[i].Name))
			if c != nil && c.Name != t.Key && r.P(2, 3) && schema.Get(d.Fields[i].Tags, "db", "set") == "" {
				d.Fields[i].Tags[0].KV = append(d.Fields[i].Tags[0].KV, schema.KV{K: "set", V: []string{"?"}})
				c.Set = &meta.Set{Kind: "param"}
			}
		}
		any := false
		for _, c := range t.Cols {
			any = any || c.Set != nil
		}
		if !any {
			for i := range d.Fields {
				if c := t.Col(colName(t, d.Fields[i].Name)); c != nil && c.Name != t.Key {
					d.Fields[i].Tags[0].KV = append(d.Fields[i].Tags[0].KV, schema.KV{K: "set", V: []string{"?"}})
					c.Set = &meta.Set{Kind: "param"}
					break
				}
			}
		}
	}
	d.Tags = []schema.Tag{dbTag(tag...)}
	var ct []schema.Tag
	t.Cache, ct = g.cacheTag(1, 1)
	d.Tags = append(d.Tags, ct...)
	f.Decls = append(f.Decls, number(d))
	g.s.Tables = append(g.s.Tables, t)
	return t
}

func colName(t *meta.Table, field string) string {
	for _, c := range t.Cols {
		if c.Field == field {
			return c.Name
		}
	}
	return ""
}

func number(d *schema.Decl) *schema.Decl {
	for i := range d.Fields {
		d.Fields[i].ID = i
	}
	for i := range d.Methods {
		d.Methods[i].ID = i
	}
	return d
}

func opsTag(o *meta.Ops) []string {
	var kv []string
	add := func(k, v string) {
		if v != "" {
			kv = append(kv, k, v)
		}
	}
	add("get", o.Get)
	add("list", o.List)
	if o.Map != "" {
		add("map", o.MapKey+":"+o.Map)
	}
	b := func(x bool) string {
		if x {
			return "true"
		}
		return ""
	}
	add("count", b(o.Count))
	add("insert", o.Insert)
	add("inserts", o.Inserts)
	add("update", o.Update)
	add("set", o.Set)
	add("del", b(o.Del))
	add("rm", b(o.Remove))
	return kv
}

func (g *dbGen) col(t *meta.Table, d *schema.Decl, name string, ty *schema.Type, js bool) {
	r := g.r
	c := &meta.Col{Field: name, Go: Hump(name), Name: Under(name), Type: ty, JSON: js}
	kv := []string{}
	if r.P(1, 5) {
		c.Name = Pick(r, "c_"+Under(name), "c_"+Under(name), "col"+Hump(name), "C_"+Under(name), "c__"+Under(name))
		kv = append(kv, "name", c.Name)
	}
	if js {
		kv = append(kv, "converter", "json")
	}
	if ty.Null && r.P(1, 6) {
		c.Force = true
		kv = append(kv, "force", "true")
	}
	t.Cols = append(t.Cols, c)
	d.Fields = append(d.Fields, schema.Field{Name: name, Type: ty, Tags: []schema.Tag{dbTag(kv...)}})
}

// Pick is schema.Pick.
func Pick[T any](r *schema.Rng, xs ...T) T { return schema.Pick(r, xs...) }

func scalarCols(t *meta.Table) []*meta.Col {
	var out []*meta.Col
	for _, c := range t.Cols {
		if !c.JSON {
			out = append(out, c)
		}
	}
	return out
}

var ops = map[string]string{"eq": "=", "ne": "<>", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}

// cond adds a condition field.
func (g *dbGen) cond(q *meta.Req, d *schema.Decl, t *meta.Table, k int) {
	r := g.r
	cols := scalarCols(t)
	c := cols[r.N(len(cols))]
	if k == 0 && r.P(1, 3) {
		c = t.Col(t.Key)
	}
	// No floats: equality is fuzzy, and the library rounds them in cache keys.
	cl := c.Class()
	for cl == "float" || cl == "double" && g.cached {
		c = cols[r.N(len(cols))]
		cl = c.Class()
	}
	base := *c.Type
	base.Null = false
	f := &meta.RField{Field: fmt.Sprintf("%s_%d", Under(c.Field), k), Type: &base}
	if r.P(1, 4) {
		f.Field = fmt.Sprintf("q%s%d", Hump(c.Field), k)
	}
	f.Go = Hump(f.Field)
	null := r.P(2, 3)
	var where []string
	kind := Pick(r, "eq", "eq", "ne", "cmp", "cmp", "in", "in", "pair", "or", "raw", "two", "isnull", "like", "range")
	switch cl {
	case "bool":
		kind = Pick(r, "eq", "eq", "ne", "isnull")
	case "double":
		kind = Pick(r, "cmp", "pair")
	case "string":
	default:
		if kind == "like" {
			kind = "eq"
		}
	}
	same := func() *meta.Col { // another column of the same class
		for _, o := range cols {
			if o != c && o.Class() == cl {
				return o
			}
		}
		return c
	}
	switch kind {
	case "eq", "ne":
		f.Conds = []meta.Cond{{Kind: kind, Cols: []string{c.Name}}}
		where = []string{"AND " + c.Name + " " + ops[kind] + " ?"}
		base.Null = null
	case "cmp":
		k := Pick(r, "lt", "le", "gt", "ge")
		f.Conds = []meta.Cond{{Kind: k, Cols: []string{c.Name}}}
		where = []string{"AND " + c.Name + " " + ops[k] + " ?"}
		base.Null = null
	case "like":
		f.Conds = []meta.Cond{{Kind: "like", Cols: []string{c.Name}}}
		where = []string{"AND " + c.Name + " LIKE ?"}
		base.Null = null
	case "in":
		e := base
		if r.P(1, 5) {
			e.Null = true
		}
		f.Type = &schema.Type{Kind: "array", Elem: &e, Null: !r.P(1, 4)}
		f.Conds = []meta.Cond{{Kind: "in", Cols: []string{c.Name}}}
		where = []string{"AND " + c.Name + " IN (?)"}
	case "pair":
		e := base
		e.Null = r.P(1, 2)
		f.Type = &schema.Type{Kind: "array", Elem: &e, Null: !r.P(1, 3)}
		f.Conds = []meta.Cond{{Kind: "ge", Cols: []string{c.Name}}, {Kind: "le", Cols: []string{c.Name}}}
		where = []string{"AND " + c.Name + " >= ?", "AND " + c.Name + " <= ?"}
	case "two":
		o := same()
		f.Conds = []meta.Cond{{Kind: "ge", Cols: []string{c.Name}}, {Kind: "ne", Cols: []string{o.Name}}}
		where = []string{"AND " + c.Name + " >= ?", "AND " + o.Name + " <> ?"}
		base.Null = null
	case "or":
		o := same()
		f.Conds = []meta.Cond{{Kind: "or", Cols: []string{c.Name, o.Name}}}
		where = []string{"AND (" + c.Name + " = ? OR " + o.Name + " = ?)"}
		base.Null = null
	case "range":
		// the upper bound is in another field
		ty := base
		a := &meta.RField{Field: fmt.Sprintf("%s_to", f.Field), Type: &ty, Role: "aux"}
		a.Go = Hump(a.Field)
		q.Fields = append(q.Fields, a)
		d.Fields = append(d.Fields, schema.Field{Name: a.Field, Type: a.Type, Tags: []schema.Tag{dbTag("where", "")}})
		f.Conds = []meta.Cond{{Kind: "range", Cols: []string{c.Name}, Other: a.Field}}
		where = []string{"AND " + c.Name + " >= ? AND " + c.Name + " <= ?{" + a.Field + "}"}
		base.Null = null
	case "isnull":
		f.Type = schema.NBase("bool")
		f.Conds = []meta.Cond{{Kind: "isnull", Cols: []string{c.Name}}}
		where = []string{"AND " + c.Name + " IS NULL"}
	case "raw":
		// the column's name comes from another field
		a := &meta.RField{Field: fmt.Sprintf("col_%d", k), Type: schema.Base("string"), Role: "aux"}
		a.Go = Hump(a.Field)
		q.Fields = append(q.Fields, a)
		d.Fields = append(d.Fields, schema.Field{Name: a.Field, Type: a.Type, Tags: []schema.Tag{dbTag("where", "")}})
		f.Conds = []meta.Cond{{Kind: "raweq", Cols: []string{c.Name, same().Name}, Other: a.Field}}
		where = []string{"AND ${" + a.Field + "} = ?"}
		base.Null = null
	}
	tag := dbTag()
	tag.KV = append(tag.KV, schema.KV{K: "where", V: where})
	q.Fields = append(q.Fields, f)
	d.Fields = append(d.Fields, schema.Field{Name: f.Field, Type: f.Type, Tags: []schema.Tag{tag}})
}

func (g *dbGen) newReq(t *meta.Table, pre string, k int) (*meta.Req, *schema.Decl) {
	q := &meta.Req{Type: fmt.Sprintf("%s%s%d", t.Type, pre, k), Table: t.Type}
	return q, &schema.Decl{Kind: "data", Name: q.Type}
}

func (g *dbGen) done(f *schema.File, q *meta.Req, d *schema.Decl, t *meta.Table) {
	if n := len(d.Fields) / 2; n > 0 && g.r.P(1, 3) {
		// the first fields are inherited, maybe from afar
		p := &schema.Decl{Kind: "data", Name: q.Type + "Base", Fields: append([]schema.Field{}, d.Fields[:n]...)}
		again := p.Fields[g.r.N(n)]
		d.Fields = append([]schema.Field{}, d.Fields[n:]...)
		d.Ext = append(d.Ext, schema.Ext{Name: p.Name, ID: len(d.Ext) + 1})
		if n > 1 && g.r.P(1, 2) {
			pp := &schema.Decl{Kind: "data", Name: q.Type + "Root", Fields: append([]schema.Field{}, p.Fields[:n/2]...)}
			p.Fields = append([]schema.Field{}, p.Fields[n/2:]...)
			p.Ext = append(p.Ext, schema.Ext{Name: pp.Name, ID: 1})
			f.Decls = append(f.Decls, number(pp))
		}
		f.Decls = append(f.Decls, number(p))
		if g.r.P(1, 3) {
			d.Fields = append(d.Fields, again)
		}
	}
	d.Tags = []schema.Tag{dbTag(append([]string{"table", t.Type}, opsTag(&q.Ops)...)...)}
	if t.Cache != nil {
		var ct []schema.Tag
		q.Cache, ct = g.cacheTag(3, 4)
		d.Tags = append(d.Tags, ct...)
	}
	f.Decls = append(f.Decls, number(d))
	g.s.Reqs = append(g.s.Reqs, q)
}

// own adds a column of the request type itself.
func (g *dbGen) own(q *meta.Req, d *schema.Decl, c *meta.Col) {
	f := &meta.RField{Field: c.Field, Go: c.Go, Type: c.Type, Col: c.Name}
	kv := []string{"name", c.Name}
	switch {
	case c.Class() == "int" && c.Type.Kind == "base" && c.Type.Null && g.r.P(1, 3):
		f.Zero = true
		kv = append(kv, "get", "IFNULL(?, 0)")
	case g.r.P(1, 6):
		kv = append(kv, "get", "?")
	}
	if c.JSON {
		kv = append(kv, "converter", "json")
	}
	q.Fields = append(q.Fields, f)
	d.Fields = append(d.Fields, schema.Field{Name: f.Field, Type: f.Type, Tags: []schema.Tag{dbTag(kv...)}})
}

func (g *dbGen) query(f *schema.File, t *meta.Table, k int) {
	r := g.r
	q, d := g.newReq(t, Pick(r, "Req", "Query", "GetReq"), k)
	n := 1 + r.N(4)
	for i := 0; i < n; i++ {
		g.cond(q, d, t, i)
	}
	o := &q.Ops
	self := r.P(1, 3)
	mode := "parent"
	if self {
		mode = "self"
		// own columns, the key first
		g.own(q, d, t.Col(t.Key))
		for _, c := range t.Cols {
			if c.Name != t.Key && r.P(1, 2) {
				g.own(q, d, c)
			}
		}
	}
	if r.P(1, 2) {
		od := &meta.RField{Field: "order", Go: "Order", Type: schema.NBase("string"), Role: "order"}
		if r.P(1, 3) {
			od.Type = schema.Base("string")
		}
		cs := scalarCols(t)
		c := cs[r.N(len(cs))]
		if cl := c.Class(); cl == "bool" || cl == "float" || r.P(1, 2) {
			c = t.Col(t.Key)
		}
		od.Order = []string{c.Name}
		text := c.Name + " $"
		if c.Name != t.Key && r.P(1, 2) {
			od.Order = []string{c.Name, t.Key}
			text = c.Name + " $, " + t.Key + " $"
		}
		q.Fields = append(q.Fields, od)
		d.Fields = append(d.Fields, schema.Field{Name: "order", Type: od.Type, Tags: []schema.Tag{dbTag("order", text)}})
	}
	page := r.N(3)
	switch {
	case page == 1 && len(d.Ext) == 0 && r.P(1, 2):
		// inherited paging
		d.Ext = append(d.Ext, schema.Ext{Name: "PageReq", ID: 1})
		q.Fields = append(q.Fields, &meta.RField{Field: "limit", Go: "Limit", Type: schema.Base("int32"), Role: "limit"},
			&meta.RField{Field: "offset", Go: "Offset", Type: schema.Base("int32"), Role: "offset"})
	case page >= 1:
		it := schema.Base(Pick(r, "int32", "int64"))
		q.Fields = append(q.Fields, &meta.RField{Field: "size", Go: "Size", Type: it, Role: "limit"})
		d.Fields = append(d.Fields, schema.Field{Name: "size", Type: it, Tags: []schema.Tag{dbTag("limit", "?")}})
		if page == 2 {
			q.Fields = append(q.Fields, &meta.RField{Field: "start", Go: "Start", Type: it, Role: "offset"})
			d.Fields = append(d.Fields, schema.Field{Name: "start", Type: it, Tags: []schema.Tag{dbTag("offset", "?")}})
		}
	}
	o.List = mode
	o.Count = r.P(1, 2)
	if r.P(1, 2) {
		o.Map, o.MapKey = mode, t.Col(t.Key).Field
	}
	if r.P(1, 2) {
		o.Get = mode
	}
	if r.P(1, 5) {
		o.Del = page == 0
	}
	g.done(f, q, d, t)
}

// groupReq makes a request that reads one object for each group of rows.
func (g *dbGen) groupReq(f *schema.File, t *meta.Table, k int) {
	r := g.r
	var by, num []*meta.Col
	for _, c := range scalarCols(t) {
		switch cl := c.Class(); {
		case !c.Type.Null && cl != "float" && cl != "double" && c.Name != t.Key:
			by = append(by, c)
		case cl == "int" && c.Type.Kind == "base":
			num = append(num, c)
		}
	}
	if len(by) == 0 {
		return
	}
	q, d := g.newReq(t, "Stat", k)
	g.cond(q, d, t, 0)
	n := 1 + r.N(min(2, len(by)))
	first := r.N(len(by))
	var order *meta.Col
	for i := 0; i < n; i++ {
		c := by[(first+i)%len(by)]
		order = c
		q.Fields = append(q.Fields, &meta.RField{Field: c.Field, Go: c.Go, Type: c.Type, Col: c.Name, Group: true})
		d.Fields = append(d.Fields, schema.Field{Name: c.Field, Type: c.Type, Tags: []schema.Tag{dbTag("name", c.Name, "group", c.Name, "get", "?")}})
	}
	for _, c := range num {
		if r.P(1, 3) {
			continue
		}
		a := Pick(r, "max", "min", "count")
		get := strings.ToUpper(a) + "(?)"
		if a == "count" {
			if c.Type.Name != "int64" {
				a, get = "max", "MAX(?)"
			} else {
				get = "COUNT(1)"
			}
		}
		q.Fields = append(q.Fields, &meta.RField{Field: c.Field, Go: c.Go, Type: c.Type, Col: c.Name, Agg: a})
		d.Fields = append(d.Fields, schema.Field{Name: c.Field, Type: c.Type, Tags: []schema.Tag{dbTag("name", c.Name, "get", get)}})
	}
	if r.P(1, 2) {
		q.Fields = append(q.Fields, &meta.RField{Field: "order", Go: "Order", Type: schema.NBase("string"), Role: "order", Order: []string{order.Name}})
		d.Fields = append(d.Fields, schema.Field{Name: "order", Type: schema.NBase("string"), Tags: []schema.Tag{dbTag("order", order.Name+" $")}})
	}
	if r.P(1, 3) {
		q.Fields = append(q.Fields, &meta.RField{Field: "size", Go: "Size", Type: schema.Base("int32"), Role: "limit"})
		d.Fields = append(d.Fields, schema.Field{Name: "size", Type: schema.Base("int32"), Tags: []schema.Tag{dbTag("limit", "?")}})
	}
	q.Ops.List = "self"
	if r.P(1, 2) {
		q.Ops.Get = "self"
	}
	g.done(f, q, d, t)
}

func (g *dbGen) set(q *meta.Req, d *schema.Decl, c *meta.Col, s *meta.Set, null bool) {
	r := g.r
	ty := *c.Type
	ty.Null = null
	f := &meta.RField{Field: c.Field, Go: c.Go, Type: &ty, Col: c.Name, Set: s}
	if ty.Null && r.P(1, 6) {
		f.Force = true
	}
	if r.P(1, 3) {
		f.Field = "new_" + Under(c.Field)
		f.Go = Hump(f.Field)
	}
	var kv []string
	if Under(f.Field) != c.Name || r.P(1, 3) {
		kv = append(kv, "name", c.Name)
	}
	switch s.Kind {
	case "param":
		kv = append(kv, "set", "?")
	case "add":
		kv = append(kv, "set", c.Name+" + ?")
	case "inc":
		kv = append(kv, "set", fmt.Sprintf("%s + %d", c.Name, s.Const))
	case "addother":
		kv = append(kv, "set", c.Name+" + ?{"+s.Other+"}")
	}
	if c.JSON {
		kv = append(kv, "converter", "json")
	}
	if f.Force {
		kv = append(kv, "force", "true")
	}
	q.Fields = append(q.Fields, f)
	d.Fields = append(d.Fields, schema.Field{Name: f.Field, Type: f.Type, Tags: []schema.Tag{dbTag(kv...)}})
}

func (g *dbGen) write(f *schema.File, t *meta.Table, k int) {
	r := g.r
	q, d := g.newReq(t, Pick(r, "Update", "SetReq", "Change"), k)
	n := 1 + r.N(2)
	for i := 0; i < n; i++ {
		g.cond(q, d, t, i)
	}
	o := &q.Ops
	var viaTable []*meta.Col
	for _, c := range t.Cols {
		if c.Set != nil {
			viaTable = append(viaTable, c)
		}
	}
	if len(viaTable) > 0 && r.P(1, 2) {
		// The table's own set tags say what is written.
		for _, c := range viaTable {
			q.Fields = append(q.Fields, &meta.RField{Field: c.Field, Go: c.Go, Type: c.Type, Col: c.Name, Set: c.Set, Force: c.Force})
			d.Fields = append(d.Fields, schema.Field{Name: c.Field, Type: c.Type})
		}
		o.Update, o.Set = "parent", "parent"
		o.Remove = r.P(1, 3)
		g.done(f, q, d, t)
		return
	}
	used := map[string]bool{t.Key: true}
	for i := 0; i < 1+r.N(3); i++ {
		c := t.Cols[r.N(len(t.Cols))]
		if used[c.Name] {
			continue
		}
		used[c.Name] = true
		s := &meta.Set{Kind: "param"}
		null := c.Type.Null
		if c.Type.Kind == "base" && (c.Type.Name == "int32" || c.Type.Name == "int64") && r.P(2, 3) {
			s.Kind = "add"
			switch r.N(6) {
			case 0:
				s.Kind, s.Const = "inc", 1+r.N(3)
			case 1:
				s.Kind, s.Other = "addother", fmt.Sprintf("delta_%d", i)
				ty := *c.Type
				ty.Null = false
				a := &meta.RField{Field: s.Other, Go: Hump(s.Other), Type: &ty, Role: "aux"}
				q.Fields = append(q.Fields, a)
				d.Fields = append(d.Fields, schema.Field{Name: a.Field, Type: a.Type, Tags: []schema.Tag{dbTag("where", "")}})
			}
			null = c.Type.Null && r.P(1, 2)
		} else if !c.JSON && r.P(1, 3) && c.Type.Kind == "base" {
			null = true // optional change of a column that is always set
		}
		g.set(q, d, c, s, null)
	}
	has := false
	for _, x := range q.Fields {
		has = has || x.Set != nil
	}
	if !has {
		c := t.Col(colName(t, "age"))
		g.set(q, d, c, &meta.Set{Kind: "add"}, c.Type.Null)
	}
	o.Update = "self"
	// Set writes nulls: only where no column that is always set would get one.
	ok := true
	for _, x := range q.Fields {
		if x.Set != nil && x.Type.Null && !t.Col(x.Col).Type.Null {
			ok = false
		}
	}
	if ok {
		o.Set = "self"
	}
	for _, x := range q.Fields {
		if x.Force && !t.Col(x.Col).Type.Null {
			x.Force = false
			for i := range d.Fields {
				if d.Fields[i].Name == x.Field {
					kv := d.Fields[i].Tags[0].KV
					d.Fields[i].Tags[0].KV = kv[:len(kv)-1]
				}
			}
		}
	}
	o.Del = r.P(1, 3)
	o.Remove = r.P(1, 3)
	g.done(f, q, d, t)
}

func (g *dbGen) insert(f *schema.File, t *meta.Table) {
	q, d := g.newReq(t, "Add", 0)
	for _, c := range t.Cols {
		if c.Type.Null && !c.JSON && g.r.P(1, 4) {
			continue
		}
		g.set(q, d, c, &meta.Set{Kind: "param"}, c.Type.Null)
	}
	q.Ops.Insert = "self"
	g.done(f, q, d, t)
}

// purge makes a request that deletes at most so many of the rows it addresses.
func (g *dbGen) purge(f *schema.File, t *meta.Table) {
	q, d := g.newReq(t, "Purge", 0)
	g.cond(q, d, t, 0)
	g.page(q, d)
	q.Ops.Del, q.Ops.Remove = true, g.r.P(1, 2)
	if !t.Soft || g.r.P(1, 3) {
		q.Ops.Remove = true
		q.Ops.Del = g.r.P(1, 2)
	}
	g.done(f, q, d, t)
}

// page limits how many rows a request is about.
func (g *dbGen) page(q *meta.Req, d *schema.Decl) {
	it := schema.Base(Pick(g.r, "int32", "int64"))
	q.Fields = append(q.Fields, &meta.RField{Field: "size", Go: "Size", Type: it, Role: "limit"})
	d.Fields = append(d.Fields, schema.Field{Name: "size", Type: it, Tags: []schema.Tag{dbTag("limit", "?")}})
}
