package svcgen

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"vsim/schema"
	"vsim/ss/meta"
)

type svcGen struct {
	r     *schema.Rng
	s     *meta.Schema
	pkgs  []string        // base and main package
	bare  map[string]bool // names of methods in use
	files []*schema.File
	enums []int // package of each enum
	n     int
	turn  int
	opt   Opt
	wides []string // types that have no method yet
}

// Opt says what else a schema with services may contain.
type Opt struct {
	NoZero bool // enums without an item for zero
	Keys   bool // maps with keys that only some languages have
	Of     int  // number of schemas that share all shapes of types
}

// Services makes a schema with services and the data they exchange.
func Services(r *schema.Rng, i int, opt Opt) *meta.Schema {
	g := &svcGen{r: r, turn: i, opt: opt}
	pkg := fmt.Sprintf("r%d", i)
	g.s = &meta.Schema{Pkg: pkg, Files: map[string]string{}}
	base := pkg
	if r.P(1, 2) || i == 0 {
		base = pkg + "base"
	}
	g.pkgs = []string{base, pkg}
	g.bare = map[string]bool{}
	fb := &schema.File{Path: pkg + "_base.hbuf", Packages: map[string]string{"go": base}}
	fm := &schema.File{Path: pkg + ".hbuf", Packages: map[string]string{"go": pkg}, Imports: []string{fb.Path}}
	g.files = []*schema.File{fb, fm}
	for k, f := range g.files {
		for n := 0; n < 1+r.N(2); n++ {
			g.enum(f, k)
		}
		for n := 0; n < 3+r.N(3); n++ {
			g.data(f, k)
		}
	}
	if opt.Of > 0 {
		g.wide(fb)
	}
	g.verified(fb)
	g.server(fb, 0)
	g.server(fb, 0)
	g.server(fm, 1)
	g.server(fm, 1)
	g.binding(fm)
	g.respell()
	for _, f := range g.files {
		f.AddDocs(g.r)
		g.s.Files[f.Path] = f.Text()
	}
	return g.s
}

func (g *svcGen) name(pool ...string) string {
	g.n++
	if b := Pick(g.r, bareTypes...); !g.bare["."+b] && g.r.P(1, 4) {
		g.bare["."+b] = true
		return b
	}
	return fmt.Sprintf("%s%d", pool[g.r.N(len(pool))], g.n)
}

var bareTypes = []string{"Error", "Result", "Request", "Response", "Record", "Event", "Data", "Context", "Item", "List", "Option", "Server", "Client", "Map", "Set", "Node", "User", "Json", "Hbuf", "Rpc", "Promise", "Object", "Type", "Time", "H", "A", "V2", "HTTP", "Name"}

func (g *svcGen) enum(f *schema.File, k int) {
	e := &meta.Enum{Name: g.name("Status", "Kind", "Level")}
	d := &schema.Decl{Kind: "enum", Name: e.Name}
	first := 0
	if g.opt.NoZero && g.r.P(1, 2) {
		first = 1 + g.r.N(9)
	}
	for i, n := range []string{"None", "open", "half_way", "Done"} {
		v := first + i*(1+g.n%3)
		e.Items = append(e.Items, v)
		d.Items = append(d.Items, schema.EnumItem{Name: n, N: v})
	}
	f.Decls = append(f.Decls, d)
	g.s.Enums = append(g.s.Enums, e)
	g.enums = append(g.enums, k)
}

// typ makes a random field type.
func (g *svcGen) typ(k int, self string) *schema.Type {
	r := g.r
	scalar := func(null bool) *schema.Type {
		switch r.N(8) {
		case 0:
			for range 5 {
				n := r.N(len(g.s.Enums))
				if g.enums[n] <= k {
					return &schema.Type{Kind: "enum", Name: g.s.Enums[n].Name, Null: null}
				}
			}
		case 1:
			if ds := g.visible(k); len(ds) > 0 {
				return &schema.Type{Kind: "data", Name: ds[r.N(len(ds))].Type, Null: null}
			}
		}
		return &schema.Type{Kind: "base", Name: schema.Bases[r.N(len(schema.Bases))], Null: null}
	}
	switch r.N(10) {
	case 0, 1:
		return &schema.Type{Kind: "array", Elem: scalar(r.P(1, 3)), Null: r.P(1, 3)}
	case 2:
		key := &schema.Type{Kind: "base", Name: Pick(r, "string", "int32", "int64", "uint16", "uint64")}
		if g.opt.Keys && r.P(1, 2) {
			key.Name = Pick(r, "bool", "date", "decimal", "int8", "double")
		}
		if r.P(1, 6) {
			for range 5 {
				if n := r.N(len(g.s.Enums)); g.enums[n] <= k {
					key = &schema.Type{Kind: "enum", Name: g.s.Enums[n].Name}
				}
			}
		}
		return &schema.Type{Kind: "map", Elem: scalar(r.P(1, 3)), Key: key, Null: r.P(1, 3)}
	case 3:
		if self != "" {
			if r.P(1, 2) {
				return &schema.Type{Kind: "data", Name: self, Null: true}
			}
			return &schema.Type{Kind: "array", Elem: &schema.Type{Kind: "data", Name: self, Null: r.P(1, 2)}}
		}
	}
	return scalar(r.P(1, 2))
}

var bareFields = []string{"id", "name", "code", "msg", "result", "type", "class", "default", "in", "map", "func", "json", "temp", "ret", "length", "new", "value", "key", "item", "val", "i", "h", "g", "b", "err", "error", "ctx", "status", "hbuf", "this", "null", "t", "T_id", "Long", "Date", "keys", "forEach", "list", "k", "v", "e", "a", "aB", "x1", "prototype", "record", "from", "is_null"}

var fieldPool = []string{"id", "name", "user_id", "userName", "createTime", "photo_url", "amount", "data", "items", "flag", "Memo", "kind", "ext_info", "sortNo", "a", "value", "userID", "HTTPCode", "x_Y", "is_2fa"}

func (g *svcGen) field(k int, self string, ty *schema.Type) *meta.DF {
	g.n++
	n := fmt.Sprintf("%s%s%d", fieldPool[g.r.N(len(fieldPool))], Pick(g.r, "", "", "", "_", "_v", "No"), g.n)
	if b := Pick(g.r, bareFields...); !g.bare["."+Hump(b)] && g.r.P(1, 3) {
		g.bare["."+Hump(b)] = true
		n = b
	}
	if ty == nil {
		ty = g.typ(k, self)
	}
	return &meta.DF{Field: n, Go: Hump(n), Type: ty, From: self}
}

func (g *svcGen) data(f *schema.File, k int) *meta.Data {
	r := g.r
	m := &meta.Data{Type: g.name("User", "OrderInfo", "Item", "GetReq", "PageRes"), Pkg: g.pkgs[k]}
	d := &schema.Decl{Kind: "data", Name: m.Type}
	if len(g.s.Datas) > 0 && r.P(1, 2) {
		// parents without a common ancestor
		seen := map[string]bool{}
		for range 1 + r.N(2) {
			p := g.s.Datas[r.N(len(g.s.Datas))]
			clash := false
			for _, x := range p.Fields {
				clash = clash || seen[x.From]
			}
			if seen[p.Type] || clash {
				continue
			}
			for _, x := range p.Fields {
				seen[x.From] = true
			}
			seen[p.Type] = true
			m.Ext = append(m.Ext, p.Type)
			d.Ext = append(d.Ext, schema.Ext{Name: p.Type, ID: len(d.Ext) + 1})
			m.Fields = append(m.Fields, p.Fields...)
		}
	}
	for range 1 + r.N(6) {
		x := g.field(k, m.Type, nil)
		m.Fields = append(m.Fields, x)
		d.Fields = append(d.Fields, schema.Field{Name: x.Field, Type: x.Type})
	}
	if len(d.Ext) > 0 && r.P(1, 3) {
		// an inherited field is declared again
		x := m.Fields[r.N(len(m.Fields)-len(d.Fields))]
		d.Fields = append(d.Fields, schema.Field{Name: x.Field, Type: x.Type})
	}
	f.Decls = append(f.Decls, number(d))
	g.s.Datas = append(g.s.Datas, m)
	return m
}

// wide adds data with this schema's share of all shapes of field types.
func (g *svcGen) wide(f *schema.File) {
	var elems []schema.Type
	for _, n := range schema.Bases {
		elems = append(elems, schema.Type{Kind: "base", Name: n})
	}
	elems = append(elems, schema.Type{Kind: "enum", Name: g.s.Enums[0].Name}, schema.Type{Kind: "data", Name: g.s.Datas[0].Type})
	names := []string{"string", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "enum"}
	if g.opt.Keys {
		names = append(names, "bool", "date", "decimal", "float", "double")
	}
	var all []*schema.Type
	for i, e := range elems {
		for form := range 10 {
			e := e
			e.Null = form%2 == 1
			t := &e
			switch {
			case form >= 6:
				key := schema.Base(names[(i*4+form)%len(names)])
				if key.Name == "enum" {
					key = &schema.Type{Kind: "enum", Name: g.s.Enums[0].Name}
				}
				t = &schema.Type{Kind: "map", Key: key, Elem: t, Null: form >= 8}
			case form >= 2:
				t = &schema.Type{Kind: "array", Elem: t, Null: form >= 4}
			}
			all = append(all, t)
		}
	}
	var mine []*schema.Type
	for j, t := range all {
		if (j+j/10)%g.opt.Of == g.turn {
			mine = append(mine, t)
		}
	}
	for len(mine) > 0 {
		n := min(len(mine), 7)
		m := &meta.Data{Type: g.name("Wide", "Full"), Pkg: g.pkgs[0]}
		d := &schema.Decl{Kind: "data", Name: m.Type}
		for _, t := range mine[:n] {
			x := g.field(0, m.Type, t)
			m.Fields = append(m.Fields, x)
			d.Fields = append(d.Fields, schema.Field{Name: x.Field, Type: x.Type})
		}
		mine = mine[n:]
		f.Decls = append(f.Decls, number(d))
		g.s.Datas = append(g.s.Datas, m)
		g.wides = append(g.wides, m.Type)
	}
}

func (g *svcGen) visible(k int) []*meta.Data {
	var out []*meta.Data
	for _, d := range g.s.Datas {
		if k == 1 || d.Pkg == g.pkgs[0] && g.of(d.Type) == 0 {
			out = append(out, d)
		}
	}
	return out
}

// of tells in which file a type is declared.
func (g *svcGen) of(typ string) int {
	for k, f := range g.files {
		for _, d := range f.Decls {
			if d.Name == typ {
				return k
			}
		}
	}
	return -1
}

var methodPool = []string{"getUser", "GetList", "set_name", "Remove", "createOrder", "Ping", "find_all", "Login"}

var bareNames = []string{"get", "delete", "new", "default", "list", "type", "Close", "call", "in", "export", "func", "map", "Go", "ping", "find_all_by_id", "HTTPGet", "a", "B", "get_2", "verify", "set", "do", "with", "switch", "range", "var", "error", "string_list", "v2_list", "URL"}

func (g *svcGen) method(k int, s *meta.Server, d *schema.Decl) {
	r := g.r
	ds := g.visible(k)
	g.n++
	n := fmt.Sprintf("%s%d", methodPool[r.N(len(methodPool))], g.n)
	if b := Pick(r, bareNames...); !g.bare[b] && r.P(1, 2) {
		g.bare[b] = true
		n = b
	}
	m := &meta.Method{Name: n, Go: Hump(n), Wire: Under(n), From: s.Type, Param: ds[r.N(len(ds))].Type}
	if !r.P(1, 4) {
		m.Result = ds[r.N(len(ds))].Type
	}
	if len(g.wides) > 0 {
		m.Param, m.Result = g.wides[0], g.wides[0]
		g.wides = g.wides[1:]
	}
	x := schema.Method{Name: n, Param: m.Param, Result: m.Result}
	if m.Result == "" {
		x.Result = "void"
	}
	if r.P(1, 3) {
		x.PName = g.pname()
	}
	x.Tags = g.tags(m)
	s.Methods = append(s.Methods, m)
	d.Methods = append(d.Methods, x)
}

// pname names the parameter of a method.
func (g *svcGen) pname() string {
	if g.r.P(1, 3) {
		return Pick(g.r, "req", "request", "param", "body", "in_req", "Req_", "_")
	}
	if g.r.P(1, 4) {
		return g.pkgs[g.r.N(len(g.pkgs))]
	}
	return Pick(g.r, "in", "ctx", "r", "s", "p", "ret", "err", "reps", "type", "func", "range", "map", "json", "rpc", "hbuf", "context", "erro", "manage", "client", "function",
		"class", "default", "new", "this", "arguments", "h", "nil", "null", "error", "buf", "var", "i", "g", "user", "Type", "IN", "_in", "len", "true", "names", "invoke", "verify", "ok", "router", "val")
}

// tags gives a method tags for the context.
func (g *svcGen) tags(m *meta.Method) []schema.Tag {
	r := g.r
	m.Tags = nil
	if r.P(1, 2) {
		m.Tags = map[string]string{}
		t := schema.Tag{Name: "tag"}
		for _, k := range []string{"auth", "level", "path"} {
			if r.P(1, 2) {
				m.Tags[k] = Pick(r, "true", "admin", "2", "a/b")
				t.KV = append(t.KV, schema.KV{K: k, V: []string{m.Tags[k]}})
			}
		}
		if len(t.KV) > 0 {
			return []schema.Tag{t}
		}
	}
	return nil
}

func (g *svcGen) server(f *schema.File, k int) *meta.Server {
	r := g.r
	n := g.name("UserServer", "Order_server", "Shop", "AuthService")
	s := &meta.Server{Type: Hump(n), Pkg: g.pkgs[k], Name: Under(n)}
	d := &schema.Decl{Kind: "server", Name: n}
	if n != s.Type {
		// Names of types are taken as they are.
		d.Name, s.Name = s.Type, Under(s.Type)
	}
	if len(g.s.Servers) > 0 && r.P(2, 3) {
		seen := map[string]bool{}
		for range 1 + r.N(2) {
			p := g.s.Servers[r.N(len(g.s.Servers))]
			clash := seen[p.Type]
			for _, m := range p.Methods {
				clash = clash || seen[m.From]
			}
			if clash {
				continue
			}
			seen[p.Type] = true
			for _, m := range p.Methods {
				seen[m.From] = true
			}
			s.Ext = append(s.Ext, p.Type)
			d.Ext = append(d.Ext, schema.Ext{Name: p.Type, ID: len(d.Ext) + 1})
			s.Methods = append(s.Methods, p.Methods...)
		}
	}
	if n := len(s.Methods); n > 0 && r.P(1, 2) {
		// an inherited method is declared again, with other tags
		p := r.N(n)
		m := *s.Methods[p]
		s.Methods[p] = &m
		x := schema.Method{Name: m.Name, Param: m.Param, Result: m.Result}
		if m.Result == "" {
			x.Result = "void"
		}
		x.Tags = g.tags(&m)
		d.Methods = append(d.Methods, x)
	}
	for range 1 + r.N(4) {
		g.method(k, s, d)
	}
	for len(g.wides) > 0 && len(d.Methods) < 6 {
		g.method(k, s, d)
	}
	f.Decls = append(f.Decls, number(d))
	g.s.Servers = append(g.s.Servers, s)
	return s
}

// verified adds formats and data with rules.
func (g *svcGen) verified(f *schema.File) {
	r := g.r
	e := &schema.Decl{Kind: "enum", Name: "Code"}
	me := &meta.Enum{Name: "Code"}
	ip := func(n float64) *float64 { return &n }
	rules := []Named{
		{"AgeRange", meta.Rule{Min: ip(1), Max: ip(100)}},
		{"NameLength", meta.Rule{Min: ip(2), Max: ip(8)}},
		{"Digits", meta.Rule{Reg: "^[0-9]+$"}},
		{"MayMiss", meta.Rule{Null: true, Max: ip(5)}},
		{"AtLeast", meta.Rule{Min: ip(3)}},
		{"Price", meta.Rule{Min: ip(0.5), Max: ip(99.75)}},
		{"When", meta.Rule{Min: ip(946684800000), Max: ip(1700000000000)}},
		{"Any", meta.Rule{}},
		{"AtMost", meta.Rule{Max: ip(50)}},
		{"Word", meta.Rule{Null: true, Min: ip(2), Reg: "^[a-z_]*$"}},
		{"Pin", meta.Rule{Min: ip(3), Max: ip(6), Reg: "^[0-9a-f]+$"}},
		{"Short", meta.Rule{Max: ip(7), Reg: "^[0-9a-z]*$"}},
		{"Optional", meta.Rule{Null: true, Min: ip(2), Max: ip(90)}},
	}
	num := func(n *float64, date bool) string {
		if date {
			return time.UnixMilli(int64(*n)).UTC().Format("2006-01-02T15:04:05Z")
		}
		return strconv.FormatFloat(*n, 'f', -1, 64)
	}
	for i := range rules {
		rules[i].Rule.Code = 100 + i
		t := schema.Tag{Name: "format"}
		x := rules[i].Rule
		if x.Null {
			t.KV = append(t.KV, schema.KV{K: "null", V: []string{"true"}})
		}
		if x.Min != nil {
			t.KV = append(t.KV, schema.KV{K: "min", V: []string{num(x.Min, rules[i].Name == "When")}})
		}
		if x.Max != nil {
			t.KV = append(t.KV, schema.KV{K: "max", V: []string{num(x.Max, rules[i].Name == "When")}})
		}
		if x.Reg != "" {
			t.KV = append(t.KV, schema.KV{K: "reg", V: []string{x.Reg}})
		}
		e.Items = append(e.Items, schema.EnumItem{Name: rules[i].Name, N: x.Code, Tags: []schema.Tag{t}})
		me.Items = append(me.Items, x.Code)
	}
	f.Decls = append(f.Decls, e)
	g.s.Enums = append(g.s.Enums, me)
	g.enums = append(g.enums, 0)
	for i := 0; i < 2; i++ {
		m := &meta.Data{Type: g.name("LoginReq", "EditReq"), Pkg: g.pkgs[0]}
		d := &schema.Decl{Kind: "data", Name: m.Type}
		add := func(ty *schema.Type, ns ...Named) {
			x := g.field(0, m.Type, ty)
			t := schema.Tag{Name: "verify", KV: []schema.KV{{K: "format"}}}
			for _, n := range ns {
				x.Rules = append(x.Rules, n.Rule)
				t.KV[0].V = append(t.KV[0].V, "Code."+n.Name)
			}
			m.Fields = append(m.Fields, x)
			d.Fields = append(d.Fields, schema.Field{Name: x.Field, Type: ty, Tags: []schema.Tag{t}})
		}
		add(&schema.Type{Kind: "base", Name: "int32", Null: r.P(1, 2)}, rules[0])
		add(&schema.Type{Kind: "base", Name: "string", Null: r.P(1, 2)}, rules[1])
		if r.P(1, 2) {
			add(schema.Base("string"), rules[2])
		}
		add(schema.NBase("string"), rules[3])
		// One of each sort in the first type, some in the others.
		for k, sort := range []string{"int64", "decimal", "date", "enum", "double", "uint8", "two", "uint64", "array", "float", "pin", "three", "optional"} {
			if i > 0 && !r.P(1, 2) {
				continue
			}
			null := (k+i+g.turn)%2 == 0
			switch sort {
			case "pin":
				add(&schema.Type{Kind: "base", Name: "string", Null: null}, rules[10+(i+g.turn)%2])
			case "three":
				add(&schema.Type{Kind: "base", Name: "string", Null: null}, rules[3], rules[9], rules[10+(i+g.turn+1)%2])
			case "optional":
				add(&schema.Type{Kind: "base", Name: Pick(r, "decimal", "int32", "int64", "double"), Null: true}, rules[12])
			case "two":
				add(&schema.Type{Kind: "base", Name: "string", Null: null}, rules[9], rules[3])
			case "enum":
				add(&schema.Type{Kind: "enum", Name: g.s.Enums[0].Name, Null: null}, rules[7])
			case "decimal", "double", "float":
				add(&schema.Type{Kind: "base", Name: sort, Null: null}, rules[[]int{5, 8, 4}[(k+i+r.N(2))%3]])
			case "date":
				add(&schema.Type{Kind: "base", Name: sort, Null: null}, rules[6])
			case "array":
				add(&schema.Type{Kind: "array", Elem: schema.Base("string"), Null: null}, rules[7])
			default:
				add(&schema.Type{Kind: "base", Name: sort, Null: null}, rules[[]int{0, 4, 8}[r.N(3)]])
			}
		}
		x := g.field(0, m.Type, nil)
		m.Fields = append(m.Fields, x)
		d.Fields = append(d.Fields, schema.Field{Name: x.Field, Type: x.Type})
		f.Decls = append(f.Decls, number(d))
		g.s.Datas = append(g.s.Datas, m)
	}
}

// Named is a rule and its item.
type Named struct {
	Name string
	Rule meta.Rule
}

// binding adds a service whose methods are bound to services of the imported file.
func (g *svcGen) binding(f *schema.File) {
	r := g.r
	n := g.name("Gate", "AdminServer")
	s := &meta.Server{Type: n, Pkg: g.pkgs[1], Name: Under(n)}
	d := &schema.Decl{Kind: "server", Name: n}
	ds := &schema.Decl{}
	_ = ds
	var targets []*meta.Server
	for _, t := range g.s.Servers {
		if g.of(t.Type) == 0 {
			targets = append(targets, t)
		}
	}
	heir := func(of string, verify bool) *meta.Data {
		p := g.s.Data(of)
		m := &meta.Data{Type: g.name("Gate") + Pick(r, "Req", "Res"), Pkg: g.pkgs[1], Ext: []string{of}, Verify: verify}
		dd := &schema.Decl{Kind: "data", Name: m.Type, Ext: []schema.Ext{{Name: of, ID: 1}}}
		if r.P(1, 4) {
			// another parent, before or after
			seen := map[string]bool{of: true}
			for _, x := range p.Fields {
				seen[x.From] = true
			}
			o := g.s.Datas[r.N(len(g.s.Datas))]
			clash := seen[o.Type]
			for _, x := range o.Fields {
				clash = clash || seen[x.From]
			}
			for _, e := range p.Ext {
				clash = clash || e == o.Type
			}
			for _, x := range o.Fields {
				clash = clash || len(x.Rules) > 0
			}
			if !clash {
				m.Fields = append(m.Fields, o.Fields...)
				e := schema.Ext{Name: o.Type, ID: 2}
				if r.P(1, 2) {
					dd.Ext = append(dd.Ext, e)
					m.Ext = append(m.Ext, o.Type)
				} else {
					dd.Ext = append([]schema.Ext{{Name: o.Type, ID: 1}}, schema.Ext{Name: of, ID: 2})
					m.Ext = []string{o.Type, of}
				}
			}
		}
		if verify {
			dd.Tags = append(dd.Tags, schema.Tag{Name: "verify"})
		}
		m.Fields = append(m.Fields, p.Fields...)
		if r.P(1, 2) {
			x := g.field(1, m.Type, schema.NBase("string"))
			m.Fields = append(m.Fields, x)
			dd.Fields = append(dd.Fields, schema.Field{Name: x.Field, Type: x.Type})
		}
		f.Decls = append(f.Decls, number(dd))
		g.s.Datas = append(g.s.Datas, m)
		return m
	}
	hasRules := func(n string) bool {
		for _, x := range g.s.Data(n).Fields {
			if len(x.Rules) > 0 {
				return true
			}
		}
		return false
	}
	// A service that takes verified requests.
	var vt *meta.Server
	for _, t := range targets {
		for _, m := range t.Methods {
			if m.From == t.Type && hasRules(m.Param) {
				vt = t
			}
		}
	}
	if vt == nil {
		vt = &meta.Server{Type: g.name("Checked"), Pkg: g.pkgs[0]}
		vt.Name = Under(vt.Type)
		vd := &schema.Decl{Kind: "server", Name: vt.Type}
		for _, x := range g.s.Datas {
			if hasRules(x.Type) {
				g.n++
				mn := fmt.Sprintf("Check%d", g.n)
				m := &meta.Method{Name: mn, Go: mn, Wire: Under(mn), From: vt.Type, Param: x.Type}
				res := "void"
				if r.P(1, 2) {
					m.Result = x.Type
					res = x.Type
				}
				vt.Methods = append(vt.Methods, m)
				vd.Methods = append(vd.Methods, schema.Method{Name: mn, Param: x.Type, Result: res})
			}
		}
		g.files[0].Decls = append(g.files[0].Decls, number(vd))
		g.s.Servers = append(g.s.Servers, vt)
		targets = append(targets, vt)
	}
	done := 0
	for _, t := range targets {
		for _, m := range t.Methods {
			if m.From != t.Type || done >= 6 || t != vt && r.P(1, 3) {
				continue
			}
			done++
			p := heir(m.Param, hasRules(m.Param) && !r.P(1, 4))
			if r.P(1, 5) {
				p = heir(p.Type, p.Verify)
			}
			x := schema.Method{Param: p.Type, Result: "void"}
			g.n++
			x.Name = fmt.Sprintf("%s%d", Pick(r, "fetch", "Forward", "do_it"), g.n)
			bm := &meta.Method{Name: x.Name, Go: Hump(x.Name), Wire: Under(x.Name), From: n, Param: p.Type, Bind: &meta.Bind{Server: t.Type, Method: m.Go, Param: m.Param, Result: m.Result, Verify: p.Verify}}
			if m.Result != "" && !r.P(1, 6) {
				res := heir(m.Result, false)
				// The result holds nothing but the bound result.
				bm.Result, x.Result = res.Type, res.Type
			} else if m.Result == "" && r.P(1, 6) {
				res := g.s.Datas[r.N(len(g.s.Datas))].Type
				bm.Result, x.Result = res, res
			}
			if r.P(1, 3) {
				x.PName = g.pname()
			}
			x.Tags = []schema.Tag{schema.T("bind", "value", t.Type+"."+m.Name)}
			s.Methods = append(s.Methods, bm)
			d.Methods = append(d.Methods, x)
		}
	}
	if r.P(1, 2) {
		g.method(1, s, d)
	}
	f.Decls = append(f.Decls, number(d))
	g.s.Servers = append(g.s.Servers, s)
	if r.P(1, 2) {
		// A service that inherits the bound methods.
		n := g.name("Portal", "Desk")
		h := &meta.Server{Type: n, Pkg: g.pkgs[1], Name: Under(n), Ext: []string{s.Type}, Methods: append([]*meta.Method{}, s.Methods...)}
		hd := &schema.Decl{Kind: "server", Name: n, Ext: []schema.Ext{{Name: s.Type, ID: 1}}}
		g.method(1, h, hd)
		f.Decls = append(f.Decls, number(hd))
		g.s.Servers = append(g.s.Servers, h)
	}
}

// respell writes some names of types another way: generated code names a type
// in one way however the schema writes it.
func (g *svcGen) respell() {
	as := map[string]string{}
	for _, f := range g.files {
		for _, d := range f.Decls {
			if !g.r.P(1, 4) {
				continue
			}
			n := Under(d.Name)
			if g.r.P(1, 2) {
				n = strings.ToLower(d.Name[:1]) + d.Name[1:]
			}
			if Hump(n) == d.Name && Under(n) == Under(d.Name) && n != "data" && n != "server" {
				as[d.Name] = n
			}
		}
	}
	spell := func(n string) string {
		if x, ok := as[n]; ok {
			return x
		}
		return n
	}
	var typ func(t *schema.Type) *schema.Type
	typ = func(t *schema.Type) *schema.Type {
		if t == nil {
			return nil
		}
		x := *t
		x.Elem, x.Key = typ(t.Elem), typ(t.Key)
		if x.Kind == "enum" || x.Kind == "data" {
			x.Name = spell(x.Name)
		}
		return &x
	}
	tags := func(ts []schema.Tag) {
		for _, t := range ts {
			for i := range t.KV {
				for j, v := range t.KV[i].V {
					if a, b, ok := strings.Cut(v, "."); ok && (t.Name == "verify" || t.Name == "bind") {
						t.KV[i].V[j] = spell(a) + "." + b
					}
				}
			}
		}
	}
	for _, f := range g.files {
		for _, d := range f.Decls {
			d.Name = spell(d.Name)
			for i := range d.Ext {
				d.Ext[i].Name = spell(d.Ext[i].Name)
			}
			for i := range d.Fields {
				d.Fields[i].Type = typ(d.Fields[i].Type)
				tags(d.Fields[i].Tags)
			}
			for i := range d.Methods {
				m := &d.Methods[i]
				m.Param, m.Result = spell(m.Param), spell(m.Result)
				tags(m.Tags)
			}
		}
	}
}
