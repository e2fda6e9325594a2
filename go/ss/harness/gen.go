package main

import (
	"fmt"

	"vsim/schema"
	"vsim/ss/meta"
)

// G makes random cases.
type G struct {
	r    *schema.Rng
	c    *Case
	sc   *meta.Schema
	seq  int
	many int // most rows of a bulk insert
}

func pick[T any](r *schema.Rng, xs ...T) T { return schema.Pick(r, xs...) }

// newG chooses one of the schemas that pass a test.
func newG(r *schema.Rng, c *Case, ok func(*meta.Schema) bool) *G {
	var l []*meta.Schema
	for _, s := range theMeta.Schemas {
		if ok == nil || ok(s) {
			l = append(l, s)
		}
	}
	if len(l) == 0 {
		panic("no schema to choose")
	}
	g := &G{r: r, c: c, sc: l[r.N(len(l))]}
	c.Pkg = g.sc.Pkg
	c.Rand = int64(r.N(1000)) + 1
	c.Nodes = 1
	return g
}

func (g *G) sched(conc bool) {
	g.c.Sched.Seed = g.r.U64() >> 16
	if conc {
		g.c.Sched.Kind = pick(g.r, "random", "random", "sticky", "pct")
		if g.c.Sched.Kind == "pct" {
			g.c.Sched.Depth = 1 + g.r.N(4)
		}
	}
	if g.r.P(1, 4) {
		g.c.Sched.Lat = pick(g.r, 10, 1000, 50000)
	}
}

var keyPool = []string{"1", "2", "3", "4", "5", "6"}

// scalar makes an argument of a scalar type from few values, so that they meet.
func (g *G) scalar(t *schema.Type) any {
	r := g.r
	if t.Kind == "enum" {
		return pick(r, "0", "1", "2", "7")
	}
	switch t.Name {
	case "bool":
		return pick(r, "true", "false")
	case "string":
		return pick(r, "a", "b", "a", "b", "ab", "A", "a b", "x'y", "50%", "a_b", "", "ä", "?", "b\\", "null", "0")
	case "date":
		return pick(r, "946684800000", "1700000000000", "1700000001000", "1700003600000")
	case "decimal":
		return pick(r, "0", "1.5", "1.50", "-2.25", "100", "1.05")
	case "double", "float":
		return pick(r, "0", "1.5", "-2.25", "0.5", "1024")
	}
	if r.P(1, 12) {
		lim := intRange[t.Name]
		if t.Name == "uint64" {
			return pick(r, "9223372036854775807", "0")
		}
		return lim[r.N(2)]
	}
	if t.Name[0] == 'u' {
		return pick(r, "0", "1", "2", "3", "5", "10")
	}
	return pick(r, "0", "1", "2", "3", "5", "-1", "10")
}

func (g *G) key(t *meta.Table) any {
	k := pick(g.r, keyPool...)
	if t.Col(t.Key).Class() == "string" {
		return "k" + k
	}
	return k
}

// value makes an argument for a column.
func (g *G) value(t *meta.Table, c *meta.Col) any {
	if c.Name == t.Key {
		return g.key(t)
	}
	return g.valueOf(c.Type, c.JSON)
}

func (g *G) valueOf(t *schema.Type, js bool) any {
	if t.Null && g.r.P(1, 3) {
		return nil
	}
	if js || t.Kind == "array" || t.Kind == "map" || t.Kind == "data" {
		return fmt.Sprintf("#%d", g.r.N(12))
	}
	return g.scalar(t)
}

// row makes the arguments of a whole row by Go field names.
func (g *G) row(t *meta.Table) map[string]any {
	m := map[string]any{}
	for _, c := range t.Cols {
		if v := g.value(t, c); v != nil {
			m[c.Go] = v
		}
	}
	return m
}

// init fills the tables.
func (g *G) init(max int) {
	g.c.Init = map[string][]map[string]any{}
	for _, t := range g.sc.Tables {
		n := g.r.N(max + 1)
		var rows []map[string]any
		used := map[any]bool{}
		for i := 0; i < n; i++ {
			row := g.row(t)
			k := row[t.Col(t.Key).Go]
			if used[k] {
				continue
			}
			used[k] = true
			if t.Soft && g.r.P(1, 6) {
				row["deleted"] = "1"
			}
			rows = append(rows, row)
		}
		if len(rows) > 0 {
			g.c.Init[t.Type] = rows
		}
	}
}

// colType is the type a condition's values have: that of the column, keys from the pool.
func (g *G) condValue(t *meta.Table, cd meta.Cond, ft *schema.Type) any {
	if cd.Kind == "like" {
		return pick(g.r, "a%", "%b", "a_b", "%", "a", "_", "", "%'%", "k_")
	}
	if len(cd.Cols) > 0 && cd.Cols[0] == t.Key {
		return g.key(t)
	}
	return g.scalar(ft)
}

// args fills a request.
func (g *G) args(q *meta.Req) map[string]any {
	t := g.sc.Table(q.Table)
	m := map[string]any{}
	// Often few conditions, so that something matches.
	sparse := g.r.P(1, 2)
	for _, f := range q.Fields {
		switch {
		case f.Role == "limit" && q.Ops.Writes():
			m[f.Go] = pick(g.r, "0", "1", "2", "100")
		case f.Role == "limit":
			m[f.Go] = pick(g.r, "0", "1", "2", "3", "10", "100")
		case f.Role == "offset":
			if g.r.P(2, 3) {
				m[f.Go] = pick(g.r, "0", "1", "2", "3")
			}
		case f.Role == "order":
			if g.r.P(4, 5) {
				m[f.Go] = pick(g.r, "ASC", "DESC", "ASC", "DESC", "asc", "", "id")
			}
		case f.Role == "aux":
		case len(f.Conds) > 0:
			if f.Conds[0].Kind == "raweq" {
				for _, a := range q.Fields {
					if a.Field == f.Conds[0].Other {
						m[a.Go] = pick(g.r, f.Conds[0].Cols...)
					}
				}
			}
			if f.Conds[0].Kind == "range" {
				for _, a := range q.Fields {
					if a.Field == f.Conds[0].Other {
						m[a.Go] = g.condValue(t, f.Conds[0], f.Type)
					}
				}
			}
			if f.Type.Null && (sparse && g.r.P(2, 3) || g.r.P(1, 3)) {
				continue
			}
			if f.Type.Kind == "array" {
				n := g.r.N(4)
				if f.Conds[0].Kind != "in" {
					n = g.r.N(3)
				} else if n == 0 && !g.r.P(1, 5) {
					n = 1 + g.r.N(3)
				}
				l := []any{}
				for i := 0; i < n; i++ {
					if f.Type.Elem.Null && g.r.P(1, 4) {
						l = append(l, nil)
						continue
					}
					l = append(l, g.condValue(t, f.Conds[min(i, len(f.Conds)-1)], f.Type.Elem))
				}
				m[f.Go] = l
				continue
			}
			m[f.Go] = g.condValue(t, f.Conds[0], f.Type)
		case f.Set != nil:
			if f.Set.Kind == "addother" {
				for _, a := range q.Fields {
					if a.Field == f.Set.Other {
						m[a.Go] = g.scalar(a.Type)
					}
				}
			}
			if f.Set.Kind == "param" && f.Col == t.Key {
				m[f.Go] = g.key(t)
				continue
			}
			if v := g.valueOf(f.Type, structuredType(f.Type)); v != nil {
				m[f.Go] = v
			}
		default:
			// own columns: what is in them must not matter
			if g.r.P(1, 3) {
				if v := g.valueOf(f.Type, structuredType(f.Type)); v != nil {
					m[f.Go] = v
				}
			}
		}
	}
	return m
}

func structuredType(t *schema.Type) bool {
	return t.Kind == "array" || t.Kind == "map" || t.Kind == "data"
}

// kinds lists the operations of a type.
func kinds(o *meta.Ops) []string {
	var l []string
	for _, x := range []struct {
		k  string
		on bool
	}{{"get", o.Get != ""}, {"list", o.List != ""}, {"map", o.Map != ""}, {"count", o.Count}, {"insert", o.Insert != ""}, {"inserts", o.Inserts != ""},
		{"update", o.Update != ""}, {"set", o.Set != ""}, {"del", o.Del}, {"rm", o.Remove}} {
		if x.on {
			l = append(l, x.k)
		}
	}
	return l
}

type choice struct {
	typ, kind string
	tab       *meta.Table
	req       *meta.Req
}

// choices lists all operations of the schema that pass a test.
func (g *G) choices(ok func(x choice) bool) []choice {
	var out []choice
	add := func(x choice) {
		if ok == nil || ok(x) {
			out = append(out, x)
		}
	}
	for _, t := range g.sc.Tables {
		for _, k := range kinds(&t.Ops) {
			add(choice{t.Type, k, t, nil})
		}
	}
	for _, q := range g.sc.Reqs {
		for _, k := range kinds(&q.Ops) {
			add(choice{q.Type, k, g.sc.Table(q.Table), q})
		}
	}
	return out
}

// op makes an operation from a choice.
func (g *G) op(x choice) *Op {
	o := &Op{Kind: x.kind, Type: x.typ, Node: g.r.N(g.c.Nodes)}
	if x.req != nil {
		o.Args = g.args(x.req)
		return o
	}
	switch x.kind {
	case "inserts":
		n := g.r.N(4)
		used := map[any]bool{}
		for i := 0; i < n; i++ {
			row := g.row(x.tab)
			k := row[x.tab.Col(x.tab.Key).Go]
			if used[k] && !g.r.P(1, 5) {
				continue
			}
			used[k] = true
			o.Rows = append(o.Rows, row)
		}
		if g.r.P(1, 3) {
			o.Args = g.row(x.tab)
		}
		if g.many > 0 && g.r.P(1, 8) {
			o.Many = 3 + g.r.N(min(g.many, 40))
			if g.r.P(1, 8) {
				o.Many = pick(g.r, 40, 101, 130, 257, 520, 1040)
			}
			o.Many = min(o.Many, g.many)
		}
	default:
		o.Args = g.row(x.tab)
	}
	return o
}

// pickOp chooses evenly over kinds first, then types.
func (g *G) pickOp(l []choice) *Op {
	byKind := map[string][]choice{}
	for _, x := range l {
		byKind[x.kind] = append(byKind[x.kind], x)
	}
	if g.r.P(1, 2) {
		ks := sortedKeys(byKind)
		l = byKind[ks[g.r.N(len(ks))]]
	}
	return g.op(l[g.r.N(len(l))])
}

// fault adds a fault to an operation.
func (g *G) fault(o *Op, within int, kinds ...string) {
	f := Fault{N: g.r.N(within), Kind: pick(g.r, kinds...)}
	if f.Kind == "slow" {
		f.Arg = pick(g.r, 5, 50, 200, 1500)
	}
	o.Faults = append(o.Faults, f)
}
