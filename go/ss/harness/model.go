package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"vsim/schema"
	"vsim/ss/meta"
)

// Row is a row as the model sees it: column name to value.
type Row map[string]Val

// State is what the tables hold, by name in the database.
type State map[string][]Row

// snapshot reads the committed content of the database.
func (d *SimDB) snapshot() State {
	st := State{}
	for _, n := range d.names {
		st[n] = d.tables[n].model(d.tables[n].rows)
	}
	return st
}

// model turns stored rows into what they mean.
func (t *DBTable) model(rows [][]Val) []Row {
	out := make([]Row, 0, len(rows))
	for _, r := range rows {
		m := Row{}
		for i, c := range t.cols {
			v := r[i]
			if jt, ok := v.(JT); ok {
				v = decode(c.gt, jt)
			}
			if c.name == "delete_time" && t.soft && v != nil {
				v = MS(1)
			}
			m[c.name] = v
		}
		out = append(out, m)
	}
	return out
}

func fmtRow(r Row) string { return fmtFields(r) }

// text writes a state down, rows sorted.
func (st State) text() string {
	var ns []string
	for n := range st {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var b strings.Builder
	for _, n := range ns {
		b.WriteString(n + ":\n")
		var l []string
		for _, r := range st[n] {
			l = append(l, "  "+fmtRow(r)+"\n")
		}
		sort.Strings(l)
		for _, x := range l {
			b.WriteString(x)
		}
	}
	return b.String()
}

// diff shows where two states differ.
func (st State) diff(o State) string {
	a, b := strings.Split(st.text(), "\n"), strings.Split(o.text(), "\n")
	count := map[string]int{}
	for _, x := range a {
		count[x]++
	}
	var out []string
	for _, x := range b {
		count[x]--
	}
	tab := ""
	seen := map[string]bool{}
	for _, x := range append(a, b...) {
		if strings.HasSuffix(x, ":") && !strings.HasPrefix(x, " ") {
			tab = x
			continue
		}
		if seen[tab+x] || count[x] == 0 {
			continue
		}
		seen[tab+x] = true
		if count[x] > 0 {
			out = append(out, "  expected "+tab+x)
		} else {
			out = append(out, "  found    "+tab+x)
		}
	}
	return strings.Join(out, "\n")
}

// Call is an operation with its arguments.
type Call struct {
	kind string
	sc   *meta.Schema
	tab  *meta.Table
	req  *meta.Req // nil: the table's own type
	v    reflect.Value
	rows []reflect.Value
	f    map[string]Val
}

// Outcome is what an operation gave.
type Outcome struct {
	err   error
	panic string
	gone  bool // the node crashed
	list  []map[string]Val
	one   map[string]Val // get; nil: nothing
	m     map[string]map[string]Val
	n     int64 // count of rows
}

func (o *Outcome) text() string {
	switch {
	case o.gone:
		return "crashed"
	case o.panic != "":
		return "panic: " + o.panic
	case o.err != nil:
		return "error: " + clip(o.err.Error(), 200)
	case o.list != nil:
		var l []string
		for _, x := range o.list {
			l = append(l, "{"+fmtFields(x)+"}")
		}
		return "[" + strings.Join(l, ", ") + "]"
	case o.m != nil:
		var l []string
		for k, x := range o.m {
			l = append(l, k+": {"+fmtFields(x)+"}")
		}
		sort.Strings(l)
		return "map[" + strings.Join(l, ", ") + "]"
	case o.one != nil:
		return "{" + fmtFields(o.one) + "}"
	}
	return fmt.Sprint(o.n)
}

func isRead(kind string) bool {
	return kind == "get" || kind == "list" || kind == "map" || kind == "count"
}

var methodOf = map[string]string{"get": "DbGet", "list": "DbList", "map": "DbMap", "count": "DbCount", "insert": "DbInsert", "inserts": "DbInsertList", "update": "DbUpdate", "set": "DbSet", "del": "DbDel", "rm": "DbRemove"}

// modeOf is the mode an operation has in the tags of its type.
func (c *Call) modeOf() string {
	o := &c.tab.Ops
	if c.req != nil {
		o = &c.req.Ops
	}
	switch c.kind {
	case "get":
		return o.Get
	case "list":
		return o.List
	case "map":
		return o.Map
	case "update":
		return o.Update
	case "set":
		return o.Set
	case "insert":
		return o.Insert
	}
	return "self"
}

func (c *Call) mapKey() string {
	if c.req != nil {
		return c.req.Ops.MapKey
	}
	return c.tab.Ops.MapKey
}

// field finds the Go field.
func (c *Call) field(n string) reflect.Value {
	v := c.v.FieldByName(n)
	if !v.IsValid() {
		panic("no field " + n + " in " + c.v.Type().String())
	}
	return v
}

func cmpOK(kind string, a, b Val) bool {
	if a == nil || b == nil {
		return false
	}
	if kind == "like" {
		return like(text(a), text(b))
	}
	x := compare(a, b)
	switch kind {
	case "eq":
		return x == 0
	case "ne":
		return x != 0
	case "lt":
		return x < 0
	case "le":
		return x <= 0
	case "gt":
		return x > 0
	case "ge":
		return x >= 0
	}
	panic("condition " + kind)
}

// matches says whether the conditions of the call address a row; bad if the
// conditions make no statement at all.
func (c *Call) matches(row Row) (ok, bad bool) {
	if c.req == nil {
		switch c.kind {
		case "list", "map", "count":
			return true, false
		}
		key := c.tab.Col(c.tab.Key)
		return cmpOK("eq", row[key.Name], c.f[key.Go]), false
	}
	ok = true
	for _, f := range c.req.Fields {
		if len(f.Conds) == 0 {
			continue
		}
		v := c.field(f.Go)
		if f.Type.Kind == "array" {
			n := v.Len()
			if n == 0 && f.Type.Null {
				continue
			}
			if f.Conds[0].Kind == "in" {
				if n == 0 {
					bad = true
					continue
				}
				hit := false
				for i := 0; i < n; i++ {
					if cmpOK("eq", row[f.Conds[0].Cols[0]], canon(v.Index(i))) {
						hit = true
					}
				}
				ok = ok && hit
				continue
			}
			for i, cd := range f.Conds {
				if i >= n {
					continue
				}
				x := canon(v.Index(i))
				if x == nil {
					continue
				}
				ok = ok && cmpOK(cd.Kind, row[cd.Cols[0]], x)
			}
			continue
		}
		x := canon(v)
		if x == nil {
			continue
		}
		for _, cd := range f.Conds {
			switch cd.Kind {
			case "isnull":
				ok = ok && row[cd.Cols[0]] == nil
			case "or":
				ok = ok && (cmpOK("eq", row[cd.Cols[0]], x) || cmpOK("eq", row[cd.Cols[1]], x))
			case "raweq":
				col, _ := c.aux(cd.Other).(string)
				ok = ok && cmpOK("eq", row[col], x)
			case "range":
				ok = ok && cmpOK("ge", row[cd.Cols[0]], x) && cmpOK("le", row[cd.Cols[0]], c.aux(cd.Other))
			default:
				ok = ok && cmpOK(cd.Kind, row[cd.Cols[0]], x)
			}
		}
	}
	return ok, bad
}

// aux is the value of another field of the request.
func (c *Call) aux(name string) Val {
	for _, f := range c.req.Fields {
		if f.Field == name {
			return canon(c.field(f.Go))
		}
	}
	panic("no field " + name)
}

func (c *Call) role(r string) (*meta.RField, bool) {
	if c.req == nil {
		return nil, false
	}
	for _, f := range c.req.Fields {
		if f.Role == r {
			return f, true
		}
	}
	return nil, false
}

// change says what a write assigns: column to function of the old value.
type assign struct {
	col *meta.Col
	to  func(old Val) (Val, bool) // false: out of range
}

func constant(v Val) func(Val) (Val, bool) { return func(Val) (Val, bool) { return v, true } }

func plus(col *meta.Col, n Val) func(Val) (Val, bool) {
	return func(old Val) (Val, bool) {
		if old == nil || n == nil {
			return nil, true
		}
		a, b := old.(int64), n.(int64)
		s := a + b
		if (s > a) != (b > 0) && b != 0 {
			return nil, false
		}
		if col.Type.Name == "int32" && (s > math.MaxInt32 || s < math.MinInt32) {
			return nil, false
		}
		return s, true
	}
}

// assigns lists what the update or set assigns.
func (c *Call) assigns() []assign {
	var out []assign
	set := c.kind == "set"
	if c.req == nil {
		for _, col := range c.tab.Cols {
			if c.modeOf() == "parent" && col.Set == nil {
				continue
			}
			v := c.f[col.Go]
			if !set && col.Type.Null && c.field(col.Go).IsZero() && !col.Force {
				continue
			}
			out = append(out, assign{col, constant(v)})
		}
		return out
	}
	for _, f := range c.req.Fields {
		if f.Set == nil {
			continue
		}
		col := c.tab.Col(f.Col)
		v := c.f[f.Go]
		if f.Type.Null && c.field(f.Go).IsZero() && !set && !f.Force {
			continue
		}
		switch f.Set.Kind {
		case "param":
			out = append(out, assign{col, constant(v)})
		case "add":
			out = append(out, assign{col, plus(col, v)})
		case "inc":
			out = append(out, assign{col, plus(col, int64(f.Set.Const))})
		case "addother":
			out = append(out, assign{col, plus(col, c.aux(f.Set.Other))})
		default:
			panic("set " + f.Set.Kind)
		}
	}
	return out
}

// Effect is what a call does to a state.
type Effect struct {
	next State
	n    int64
	fail string  // must fail, and why
	alts []State // other states it may lead to
}

func (st State) with(tab string, rows []Row) State {
	out := State{}
	for k, v := range st {
		out[k] = v
	}
	out[tab] = rows
	return out
}

func (c *Call) newRow(f map[string]Val, v reflect.Value) Row {
	row := Row{}
	for _, col := range c.tab.Cols {
		if c.req == nil {
			row[col.Name] = f[col.Go]
			continue
		}
		row[col.Name] = nil
		if col.Class() == "json" {
			gt := Types[c.sc.Pkg+"."+c.tab.Type]
			sf, _ := gt.FieldByName(col.Go)
			row[col.Name] = decode(sf.Type, "null")
		}
	}
	if c.req != nil {
		for _, x := range c.req.Fields {
			if x.Set != nil {
				row[x.Col] = f[x.Go]
			}
		}
	}
	if c.tab.Soft {
		row["delete_time"] = nil
	}
	return row
}

// write computes the effect of a write.
func (c *Call) write(st State) Effect {
	rows := st[c.tab.DB]
	e := Effect{next: st}
	add := func(out []Row, row Row) ([]Row, bool) {
		for _, col := range c.tab.Cols {
			if !col.Type.Null && col.Class() != "json" && row[col.Name] == nil {
				e.fail = "column " + col.Name + " must not be null"
				return nil, false
			}
		}
		for _, r := range out {
			if compareNull(r[c.tab.Key], row[c.tab.Key]) == 0 {
				e.fail = "duplicate key " + fmtVal(row[c.tab.Key])
				return nil, false
			}
		}
		return append(out, row), true
	}
	switch c.kind {
	case "insert":
		out, ok := add(append([]Row{}, rows...), c.newRow(c.f, c.v))
		if ok {
			e.next, e.n = st.with(c.tab.DB, out), 1
		}
		return e
	case "inserts":
		out := append([]Row{}, rows...)
		for _, v := range c.rows {
			var ok bool
			if out, ok = add(out, c.newRow(fields(v), v)); !ok {
				return e
			}
		}
		e.next, e.n = st.with(c.tab.DB, out), int64(len(c.rows))
		return e
	}
	var as []assign
	if c.kind == "update" || c.kind == "set" {
		as = c.assigns()
		if len(as) == 0 {
			e.fail = "nothing to set"
			return e
		}
	}
	if len(rows) == 0 {
		if _, bad := c.matches(Row{}); bad {
			e.fail = "empty IN list"
		}
		return e
	}
	var hits []int
	for i, r := range rows {
		ok, bad := c.matches(r)
		if bad {
			e.fail = "empty IN list"
			return e
		}
		if ok {
			hits = append(hits, i)
		}
	}
	if l, ok := c.role("limit"); ok && (c.kind == "del" || c.kind == "rm") {
		if n := int(canon(c.field(l.Go)).(int64)); n < len(hits) {
			var next []State
			choose(hits, n, func(h []int) { x := c.change(st, h, as); next = append(next, x.next); e.n = x.n })
			e.next, e.alts = next[0], next[1:]
			return e
		}
	}
	return c.change(st, hits, as)
}

// choose gives every selection of n of some indices.
func choose(from []int, n int, use func([]int)) {
	var rec func(i int, sel []int)
	rec = func(i int, sel []int) {
		if len(sel) == n {
			use(sel)
			return
		}
		if i < len(from) {
			rec(i+1, append(sel[:len(sel):len(sel)], from[i]))
			rec(i+1, sel)
		}
	}
	rec(0, nil)
}

// change gives the state after a write that changes the rows with some indices.
func (c *Call) change(st State, hits []int, as []assign) (e Effect) {
	e.next = st
	rows := st[c.tab.DB]
	var out []Row
	for i, r := range rows {
		if len(hits) == 0 || hits[0] != i {
			out = append(out, r)
			continue
		}
		hits = hits[1:]
		e.n++
		switch {
		case c.kind == "rm" || c.kind == "del" && !c.tab.Soft:
			continue
		}
		row := Row{}
		for k, v := range r {
			row[k] = v
		}
		if c.kind == "del" {
			row["delete_time"] = MS(1)
		}
		for _, a := range as {
			v, ok := a.to(row[a.col.Name])
			if !ok {
				e.fail = "out of range"
				return e
			}
			if v == nil && !a.col.Type.Null {
				e.fail = "column " + a.col.Name + " must not be null"
				return e
			}
			row[a.col.Name] = v
		}
		out = append(out, row)
	}
	if out == nil {
		out = []Row{}
	}
	seen := map[string]bool{}
	for _, r := range out {
		k := fmtVal(r[c.tab.Key])
		if seen[k] {
			return Effect{next: st, fail: "duplicate key"}
		}
		seen[k] = true
	}
	e.next = st.with(c.tab.DB, out)
	return e
}

var zeroOf = map[reflect.Type]map[string]Val{}

func zeroFields(t reflect.Type) map[string]Val {
	z := zeroOf[t]
	if z == nil {
		z = fields(reflect.New(t).Elem())
		zeroOf[t] = z
	}
	return z
}

// project gives the object a row is read as.
func (c *Call) project(row Row) map[string]Val {
	typ := c.tab.Type
	self := c.req != nil && c.modeOf() == "self"
	if self && c.kind == "get" {
		typ = c.req.Type
	}
	z := zeroFields(Types[c.sc.Pkg+"."+typ])
	out := make(map[string]Val, len(z))
	for k, v := range z {
		out[k] = v
	}
	put := func(f string, v Val) {
		if v != nil {
			out[f] = v
		}
	}
	if self {
		for _, f := range c.req.Fields {
			v := row[f.Col]
			if f.Zero && v == nil {
				v = int64(0)
			}
			switch {
			case f.Col == "" || f.Set != nil:
			case c.kind == "get":
				put(f.Go, v)
			default: // lists and maps hold the table's objects
				put(c.tab.Col(f.Col).Go, v)
			}
		}
		return out
	}
	for _, col := range c.tab.Cols {
		put(col.Go, row[col.Name])
	}
	return out
}

// broken says whether a row has a null where its object cannot have one.
func (c *Call) broken(row Row) bool {
	for _, col := range c.tab.Cols {
		if c.req != nil && c.modeOf() == "self" && !c.selects(col.Name) {
			continue
		}
		if row[col.Name] == nil && strict(col) {
			return true
		}
	}
	return false
}

// strict says whether an object cannot have a null for a column (the hbuf
// types read it as zero).
func strict(c *meta.Col) bool {
	if c.Type.Null || c.Type.Kind != "base" || c.JSON {
		return false
	}
	switch c.Type.Name {
	case "int8", "int16", "int32", "uint8", "uint16", "uint32", "bool", "string":
		return true
	}
	return false
}

// selects says whether a request of its own columns has a column.
func (c *Call) selects(col string) bool {
	for _, f := range c.req.Fields {
		if f.Col == col && f.Set == nil && f.Agg == "" {
			return true
		}
	}
	return false
}

// live are the rows the read is about; bad if the request cannot be asked.
func (c *Call) live(st State) (out []Row, bad bool) {
	for _, r := range st[c.tab.DB] {
		ok, b := c.matches(r)
		if b {
			return nil, true
		}
		if ok && !(c.tab.Soft && r["delete_time"] != nil) {
			out = append(out, r)
		}
	}
	if len(st[c.tab.DB]) == 0 {
		_, bad = c.matches(Row{})
	}
	return c.grouped(out), bad
}

// grouped makes one row of each group, if the request groups.
func (c *Call) grouped(rows []Row) []Row {
	group := false
	if c.req != nil {
		for _, f := range c.req.Fields {
			group = group || f.Group
		}
	}
	if !group {
		return rows
	}
	out := []Row{}
	byKey := map[string]Row{}
	for _, r := range rows {
		k := ""
		for _, f := range c.req.Fields {
			if f.Group {
				k += fmtVal(r[f.Col]) + "|"
			}
		}
		g := byKey[k]
		if g == nil {
			g = Row{}
			byKey[k] = g
			out = append(out, g)
			for _, f := range c.req.Fields {
				if f.Group {
					g[f.Col] = r[f.Col]
				}
				if f.Agg == "count" {
					g[f.Col] = int64(0)
				}
			}
		}
		for _, f := range c.req.Fields {
			v := r[f.Col]
			switch {
			case f.Agg == "":
			case f.Agg == "count":
				g[f.Col] = g[f.Col].(int64) + 1
			case v == nil:
			case g[f.Col] == nil, f.Agg == "max" && compare(v, g[f.Col]) > 0, f.Agg == "min" && compare(v, g[f.Col]) < 0:
				g[f.Col] = v
			}
		}
	}
	return out
}

// groups orders rows as requested: rows within a group may come in any order.
func (c *Call) groups(rows []Row) [][]Row {
	f, ok := c.role("order")
	dir := ""
	if ok {
		dir, _ = canon(c.field(f.Go)).(string)
	}
	if dir != "ASC" && dir != "DESC" {
		if len(rows) == 0 {
			return nil
		}
		return [][]Row{rows}
	}
	rows = append([]Row{}, rows...)
	cmp := func(a, b Row) int {
		for _, col := range f.Order {
			x := compareNull(a[col], b[col])
			if dir == "DESC" {
				x = -x
			}
			if x != 0 {
				return x
			}
		}
		return 0
	}
	sort.SliceStable(rows, func(i, j int) bool { return cmp(rows[i], rows[j]) < 0 })
	var out [][]Row
	for i, r := range rows {
		if i == 0 || cmp(rows[i-1], r) != 0 {
			out = append(out, nil)
		}
		out[len(out)-1] = append(out[len(out)-1], r)
	}
	return out
}

func (c *Call) window(n int) (from, to int) {
	from, to = 0, n
	if f, ok := c.role("limit"); ok {
		l := int(canon(c.field(f.Go)).(int64))
		if o, ok := c.role("offset"); ok {
			from = int(canon(c.field(o.Go)).(int64))
		}
		if from > n {
			from = n
		}
		if from+l < n {
			to = from + l
		}
	}
	return from, to
}

// read says why an outcome is not what reading the state gives, or "".
func (c *Call) read(st State, o *Outcome) string {
	rows, bad := c.live(st)
	if bad {
		if o.err == nil {
			return "an empty list of alternatives matched something"
		}
		return ""
	}
	if o.err != nil {
		for _, r := range rows {
			if c.kind != "count" && c.broken(r) {
				return "" // and be it that this row was not asked for
			}
		}
		return "failed: " + clip(o.err.Error(), 300)
	}
	proj := func(r Row) string {
		if c.broken(r) {
			return "unreadable: " + fmtRow(r)
		}
		return fmtFields(c.project(r))
	}
	show := func(rs []Row) string {
		var l []string
		for _, r := range rs {
			l = append(l, "{"+proj(r)+"}")
		}
		return "[" + strings.Join(l, ", ") + "]"
	}
	switch c.kind {
	case "count":
		if o.n != int64(len(rows)) {
			return fmt.Sprintf("counts %d, there are %d", o.n, len(rows))
		}
	case "get":
		g := c.groups(rows)
		if len(g) == 0 {
			if o.one != nil {
				return "finds {" + fmtFields(o.one) + "}, there is none"
			}
			return ""
		}
		if o.one == nil {
			return "finds nothing, expected one of " + show(g[0])
		}
		for _, r := range g[0] {
			if !c.broken(r) && proj(r) == fmtFields(o.one) {
				return ""
			}
		}
		return "finds {" + fmtFields(o.one) + "}, expected one of " + show(g[0])
	case "list":
		g := c.groups(rows)
		from, to := c.window(len(rows))
		if len(o.list) != to-from {
			return fmt.Sprintf("lists %d rows, expected %d: %s; matching: %s", len(o.list), to-from, o.text(), show(rows))
		}
		at := 0
		for _, grp := range g {
			have := map[string]int{}
			for _, r := range grp {
				have[proj(r)]++
			}
			for i := 0; i < len(grp); i++ {
				if p := at + i; p >= from && p < to {
					x := fmtFields(o.list[p-from])
					if have[x] == 0 {
						return fmt.Sprintf("row %d of the list is {%s}, expected one of %s; list: %s", p-from, x, show(grp), o.text())
					}
					have[x]--
				}
			}
			at += len(grp)
		}
	case "map":
		key := c.tab.Col(colOfField(c.tab, c.mapKey()))
		zero := zeroVal(key)
		keyOf := func(r Row) string {
			if r[key.Name] == nil {
				return fmtVal(zero)
			}
			return fmtVal(r[key.Name])
		}
		byKey := map[string][]Row{}
		for _, r := range rows {
			byKey[keyOf(r)] = append(byKey[keyOf(r)], r)
		}
		for k, x := range o.m {
			ok := false
			for _, r := range byKey[k] {
				ok = ok || proj(r) == fmtFields(x)
			}
			if !ok {
				return fmt.Sprintf("the map has {%s} for %s, expected one of %s", fmtFields(x), k, show(byKey[k]))
			}
		}
		from, to := c.window(len(rows))
		if from == 0 && to == len(rows) {
			if len(o.m) != len(byKey) {
				return fmt.Sprintf("the map has %d keys, expected %d: %s; matching: %s", len(o.m), len(byKey), o.text(), show(rows))
			}
			return ""
		}
		unique := len(byKey) == len(rows)
		if unique && len(o.m) != to-from {
			return fmt.Sprintf("the map has %d keys, expected %d: %s", len(o.m), to-from, o.text())
		}
		if len(o.m) > to-from {
			return fmt.Sprintf("the map has %d keys, expected at most %d: %s", len(o.m), to-from, o.text())
		}
		at := 0
		for _, grp := range c.groups(rows) {
			in, full := at < to && at+len(grp) > from, at >= from && at+len(grp) <= to
			for _, r := range grp {
				x, have := o.m[keyOf(r)]
				if full && !have {
					return fmt.Sprintf("the map lacks {%s}", proj(r))
				}
				if !in && have && unique {
					return fmt.Sprintf("the map has {%s}, which is not on the page", fmtFields(x))
				}
			}
			at += len(grp)
		}
	}
	return ""
}

func colOfField(t *meta.Table, f string) string {
	for _, c := range t.Cols {
		if c.Field == f {
			return c.Name
		}
	}
	return ""
}

func zeroVal(c *meta.Col) Val {
	switch c.Class() {
	case "string":
		return ""
	case "date":
		return MS(-62135596800000)
	case "decimal":
		return Dec("0")
	case "double", "float":
		return float64(0)
	}
	return int64(0)
}

// apply checks the outcome of a call that met no fault against a state and
// gives the state after it.
func (c *Call) apply(st State, o *Outcome) (State, string) {
	if o.panic != "" {
		return st, "panics: " + o.panic
	}
	if isRead(c.kind) {
		return st, c.read(st, o)
	}
	e := c.write(st)
	if e.fail != "" {
		if o.err == nil {
			return e.next, "succeeds although it must fail: " + e.fail
		}
		return st, ""
	}
	if o.err != nil {
		return st, "failed: " + clip(o.err.Error(), 300)
	}
	if o.n != e.n {
		return e.next, fmt.Sprintf("says it changed %d rows, it addresses %d", o.n, e.n)
	}
	return e.next, ""
}

func equalStates(a, b State) bool { return a.text() == b.text() }

var _ = schema.Base
