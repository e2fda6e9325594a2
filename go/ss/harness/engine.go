package main

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"

	"vsim/schema"
	"vsim/ss/meta"
)

// DBCol is a column of the simulated database.
type DBCol struct {
	name  string
	class string
	typ   string
	null  bool
	gt    reflect.Type // Go type of a structured column
}

// DBTable is a table of the simulated database.
type DBTable struct {
	name  string
	cols  []*DBCol
	key   int
	soft  bool
	rows  [][]Val
	owner *dbTx
	ver   int
	hist  []version
	t     *meta.Table
}

// version is a state a table had from some time on.
type version struct {
	at   time.Time
	rows [][]Val
}

func (t *DBTable) colIndex(n string) int {
	for i, c := range t.cols {
		if strings.EqualFold(c.name, n) {
			return i
		}
	}
	return -1
}

// SimDB is the simulated database server.
type SimDB struct {
	s       *Sim
	r       *schema.Rng
	tables  map[string]*DBTable
	names   []string
	history bool
	onWrite func(op *OpRun, t *DBTable) // before a statement changes a table
	execs   int
	txs     int
}

// NewSimDB makes a database with the tables of a schema.
func NewSimDB(s *Sim, sc *meta.Schema) *SimDB {
	d := &SimDB{s: s, r: schema.NewRng(s.cfg.Seed ^ 0xdb), tables: map[string]*DBTable{}}
	for _, t := range sc.Tables {
		x := &DBTable{name: t.DB, soft: t.Soft, t: t}
		gt := Types[sc.Pkg+"."+t.Type]
		for i, c := range t.Cols {
			col := &DBCol{name: c.Name, class: c.Class(), typ: c.Type.Name, null: c.Type.Null}
			if c.Type.Kind == "enum" {
				col.typ = "int32"
			}
			if col.class == "json" {
				col.null = false
				f, ok := gt.FieldByName(c.Go)
				if !ok {
					panic("no field " + c.Go + " in " + gt.String())
				}
				col.gt = f.Type
			}
			if c.Name == t.Key {
				x.key = i
				col.null = false
			}
			x.cols = append(x.cols, col)
		}
		if t.Soft {
			x.cols = append(x.cols, &DBCol{name: "delete_time", class: "date", typ: "date", null: true})
		}
		d.tables[t.DB] = x
		d.names = append(d.names, t.DB)
	}
	sort.Strings(d.names)
	return d
}

func cloneRows(rows [][]Val) [][]Val {
	out := make([][]Val, len(rows))
	for i, r := range rows {
		out[i] = append([]Val{}, r...)
	}
	return out
}

// install makes rows the committed content of a table.
func (d *SimDB) install(t *DBTable, rows [][]Val) {
	t.rows = rows
	t.ver++
	if d.history {
		t.hist = append(t.hist, version{time.Now(), rows})
	}
}

// dbTx is a transaction; the tables it touched are its own until it ends.
type dbTx struct {
	id     int
	shadow map[*DBTable][][]Val
	dirty  map[*DBTable]bool
	waits  *DBTable
	name   string
}

func (d *SimDB) end(tx *dbTx, commit bool) {
	for _, n := range d.names {
		t := d.tables[n]
		if t.owner != tx {
			continue
		}
		if commit && tx.dirty[t] {
			d.install(t, tx.shadow[t])
		}
		t.owner = nil
	}
	tx.shadow = nil
}

// deadlocked says whether waiting for a table would never end.
func (d *SimDB) deadlocked(tx *dbTx, t *DBTable) bool {
	seen := 0
	for t != nil && t.owner != nil && seen < 20 {
		if t.owner == tx {
			return seen > 0
		}
		t = t.owner.waits
		seen++
	}
	return false
}

// simDriver is the database/sql driver.
type simDriver struct{}

func init() { sql.Register("simdb", simDriver{}) }

var errGone = errors.New("connection is gone")

type simConn struct {
	d    *SimDB
	node *Node
	dead bool
	tx   *dbTx
}

func (simDriver) Open(dsn string) (driver.Conn, error) {
	s := curSim
	if s == nil || s.kill {
		return nil, errGone
	}
	name, _, _ := strings.Cut(dsn, ":")
	var node *Node
	for _, n := range s.nodes {
		if n.name == name {
			node = n
		}
	}
	if node == nil {
		return nil, errGone
	}
	if f := s.Point("db connect", nil, "err slow crash"); f != nil {
		if f.Kind == "err" {
			s.cur.op.dfault = true
		}
		return nil, fmt.Errorf("dial tcp: connection refused (%s)", f.Kind)
	}
	c := &simConn{d: s.db, node: node}
	node.conns = append(node.conns, c)
	return c, nil
}

func (c *simConn) IsValid() bool { return !c.dead }

func (c *simConn) Close() error {
	c.lose()
	return nil
}

// lose is what the server does when a connection ends.
func (c *simConn) lose() {
	c.dead = true
	if c.tx != nil {
		c.d.end(c.tx, false)
		c.tx = nil
	}
}

var stmtCache = map[string]*Stmt{}

func (c *simConn) Prepare(q string) (driver.Stmt, error) {
	st := stmtCache[q]
	if st == nil {
		var err error
		st, err = parseSQL(q)
		if err != nil {
			c.d.s.logf("sql error: %s: %v", q, err)
			return nil, err
		}
		stmtCache[q] = st
	}
	return &simStmt{c, st, q}, nil
}

func (c *simConn) Begin() (driver.Tx, error) {
	s := c.d.s
	if c.dead {
		return nil, driver.ErrBadConn
	}
	if f := s.Point("db begin", nil, "err badconn slow crash"); f != nil {
		switch f.Kind {
		case "gone":
			return nil, errGone
		case "badconn":
			c.lose()
			return nil, driver.ErrBadConn
		}
		s.cur.op.dfault = true
		return nil, errors.New("begin failed")
	}
	if c.tx != nil {
		return nil, errors.New("already in a transaction")
	}
	c.d.txs++
	c.tx = &dbTx{id: c.d.txs, shadow: map[*DBTable][][]Val{}, dirty: map[*DBTable]bool{}}
	return &simTx{c, c.tx}, nil
}

type simTx struct {
	c  *simConn
	tx *dbTx
}

func (t *simTx) Commit() error {
	c := t.c
	s := c.d.s
	if f := s.Point("db commit", nil, "err lost slow crash crashafter"); f != nil {
		switch f.Kind {
		case "gone":
			return errGone
		case "err":
			s.cur.op.dfault = true
			if c.tx != nil {
				c.d.end(c.tx, false)
				c.tx = nil
			}
			return errors.New("commit failed")
		case "lost", "crashafter":
			s.cur.op.dfault = true
			if c.tx == t.tx && c.tx != nil {
				c.d.end(c.tx, true)
				c.tx = nil
			}
			if f.Kind == "crashafter" {
				s.crashCur()
				return errGone
			}
			c.dead = true
			return errors.New("connection lost during commit")
		}
	}
	if c.dead || c.tx != t.tx || c.tx == nil {
		return errors.New("connection lost, transaction rolled back")
	}
	c.d.end(c.tx, true)
	c.tx = nil
	return nil
}

func (t *simTx) Rollback() error {
	c := t.c
	if f := c.d.s.Point("db rollback", nil, "err slow crash"); f != nil {
		if f.Kind == "gone" {
			return errGone
		}
		c.d.s.cur.op.dfault = true
		c.lose()
		return errors.New("connection lost during rollback")
	}
	if c.tx == t.tx && c.tx != nil {
		c.d.end(c.tx, false)
		c.tx = nil
	}
	return nil
}

type simStmt struct {
	c  *simConn
	st *Stmt
	q  string
}

func (s *simStmt) Close() error  { return nil }
func (s *simStmt) NumInput() int { return s.st.params }

type simResult int64

func (r simResult) LastInsertId() (int64, error) { return 0, nil }
func (r simResult) RowsAffected() (int64, error) { return int64(r), nil }

func (s *simStmt) Exec(args []driver.Value) (driver.Result, error) {
	n, _, err := s.c.exec(s.st, s.q, args)
	if err != nil {
		return nil, err
	}
	return simResult(n), nil
}

func (s *simStmt) Query(args []driver.Value) (driver.Rows, error) {
	_, rows, err := s.c.exec(s.st, s.q, args)
	if err != nil {
		return nil, err
	}
	if rows == nil {
		return nil, errors.New("the statement returns no rows")
	}
	rows.text = len(args) == 0
	return rows, nil
}

type simRows struct {
	names []string
	rows  [][]Val
	pos   int
	text  bool
}

func (r *simRows) Columns() []string { return r.names }
func (r *simRows) Close() error      { return nil }
func (r *simRows) Next(dest []driver.Value) error {
	if r.pos >= len(r.rows) {
		return io.EOF
	}
	for i, v := range r.rows[r.pos] {
		switch x := v.(type) {
		case nil:
			dest[i] = nil
		case MS:
			dest[i] = time.UnixMilli(int64(x)).UTC()
		case int64:
			dest[i] = x
			if r.text {
				dest[i] = []byte(fmt.Sprint(x))
			}
		case float64:
			dest[i] = x
			if r.text {
				dest[i] = []byte(fmt.Sprint(x))
			}
		default:
			dest[i] = []byte(text(v))
		}
	}
	r.pos++
	return nil
}

func toArg(v driver.Value) Val {
	switch x := v.(type) {
	case bool:
		return truth(x)
	case []byte:
		if x == nil {
			return nil
		}
		return string(x)
	case time.Time:
		return MS(x.UnixMilli())
	}
	return v
}

// exec runs one statement: one request to the server.
func (c *simConn) exec(st *Stmt, q string, dargs []driver.Value) (int64, *simRows, error) {
	d, s := c.d, c.d.s
	if c.dead {
		return 0, nil, driver.ErrBadConn
	}
	t := d.tables[st.table]
	write := st.kind != "select"
	var ready func() bool
	if t != nil && (c.tx != nil || write) {
		tx := c.tx
		if tx != nil {
			if t.owner != tx && d.deadlocked(tx, t) {
				s.logf("db deadlock")
				d.end(tx, false)
				c.tx = nil
				if s.cur != nil && s.cur.op != nil {
					s.cur.op.dfault = true
					s.fired["db deadlock"]++
				}
				return 0, nil, dbErr(1213, "Deadlock found when trying to get lock; try restarting transaction")
			}
			tx.waits = t
		}
		ready = func() bool { return t.owner == nil || tx != nil && t.owner == tx || c.dead }
	}
	f := s.Point("db "+st.kind+" "+st.table, ready, "err badconn lost slow crash crashafter")
	if c.tx != nil {
		c.tx.waits = nil
	}
	if f != nil {
		switch f.Kind {
		case "gone":
			return 0, nil, errGone
		case "err":
			s.cur.op.dfault = true
			return 0, nil, dbErr(1205, "server trouble")
		case "badconn":
			s.cur.op.dfault = s.cur.op.dfault || c.tx != nil
			c.lose()
			return 0, nil, driver.ErrBadConn
		}
	}
	if c.dead {
		return 0, nil, driver.ErrBadConn
	}
	var args []Val
	for _, a := range dargs {
		args = append(args, toArg(a))
	}
	d.execs++
	var op *OpRun
	if s.cur != nil {
		op = s.cur.op
	}
	if op != nil {
		if op.queries == nil {
			op.queries = map[string]int{}
		}
		op.queries[st.table]++
	}
	n, rows, err := c.run(st, args, op)
	s.logf("sql %s %s -> %d %v", q, fmtVals(args), n, err)
	if f != nil && (f.Kind == "lost" || f.Kind == "crashafter") {
		op.dfault = true
		if f.Kind == "crashafter" {
			s.crashCur()
			return 0, nil, errGone
		}
		c.lose()
		return 0, nil, errors.New("invalid connection: answer lost")
	}
	return n, rows, err
}

func fmtVals(vs []Val) string {
	var out []string
	for _, v := range vs {
		out = append(out, fmtVal(v))
	}
	return "[" + strings.Join(out, " ") + "]"
}

// run executes a statement on the tables.
func (c *simConn) run(st *Stmt, args []Val, op *OpRun) (int64, *simRows, error) {
	d := c.d
	t := d.tables[st.table]
	if t == nil {
		return 0, nil, dbErr(1146, "Table '%s' doesn't exist", st.table)
	}
	rows := t.rows
	if c.tx != nil {
		if t.owner == nil {
			t.owner = c.tx
			c.tx.shadow[t] = t.rows
		}
		rows = c.tx.shadow[t]
	}
	if st.kind == "select" {
		r, err := d.query(t, rows, st, args)
		return 0, r, err
	}
	if d.onWrite != nil {
		d.onWrite(op, t)
	}
	n, out, err := d.modify(t, rows, st, args)
	if err != nil {
		return 0, nil, err
	}
	if out != nil {
		if c.tx != nil {
			c.tx.shadow[t] = out
			c.tx.dirty[t] = true
		} else {
			d.install(t, out)
		}
	}
	return n, nil, nil
}

func (d *SimDB) check(t *DBTable, es ...*Expr) error {
	for _, e := range es {
		if e == nil {
			continue
		}
		if e.op == "col" && t.colIndex(e.name) < 0 {
			return dbErr(1054, "Unknown column '%s' in '%s'", e.name, t.name)
		}
		if err := d.check(t, e.args...); err != nil {
			return err
		}
	}
	return nil
}

func limits(en *sqlEnv, st *Stmt) (from, n int, err error) {
	num := func(e *Expr, dflt int) (int, error) {
		if e == nil {
			return dflt, nil
		}
		v, err := en.eval(e)
		if err != nil {
			return 0, err
		}
		x, ok := v.(int64)
		if !ok || x < 0 {
			return 0, dbErr(1064, "bad LIMIT %v", v)
		}
		if x > 1<<30 {
			x = 1 << 30
		}
		return int(x), nil
	}
	if from, err = num(st.offset, 0); err != nil {
		return
	}
	n, err = num(st.limit, 1<<30)
	return
}

func aggregate(e *Expr) bool {
	if e.op != "func" {
		return false
	}
	switch e.name {
	case "count", "max", "min", "sum":
		return true
	}
	return false
}

// before compares the values of the ORDER BY expressions.
func (st *Stmt) before(a, b []Val) bool {
	for x, o := range st.order {
		c := compareNull(a[x], b[x])
		if o.desc {
			c = -c
		}
		if c != 0 {
			return c < 0
		}
	}
	return false
}

// grouped answers queries with aggregates.
func (d *SimDB) grouped(t *DBTable, sel [][]Val, what []*Expr, st *Stmt, en *sqlEnv, from, n int, out *simRows) (*simRows, error) {
	inGroup := map[string]bool{}
	for _, g := range st.group {
		inGroup[g.name] = true
	}
	for _, w := range what {
		if w.op == "col" && !inGroup[w.name] {
			return nil, dbErr(1055, "'%s' isn't in GROUP BY", w.name)
		}
	}
	var order []string
	rows := map[string][][]Val{}
	if len(st.group) == 0 {
		order, rows[""] = []string{""}, sel
	} else {
		for _, r := range sel {
			en.row = r
			k := ""
			for _, g := range st.group {
				v, err := en.eval(g)
				if err != nil {
					return nil, err
				}
				k += fmtVal(v) + "|"
			}
			if _, ok := rows[k]; !ok {
				order = append(order, k)
			}
			rows[k] = append(rows[k], r)
		}
	}
	type line struct{ key, row []Val }
	var lines []line
	for _, k := range order {
		var l line
		for _, o := range st.order {
			if len(st.group) == 0 {
				l.key = append(l.key, nil)
				continue
			}
			en.row = rows[k][0]
			v, err := en.eval(o.e)
			if err != nil {
				return nil, err
			}
			l.key = append(l.key, v)
		}
		for _, w := range what {
			if !aggregate(w) {
				if len(rows[k]) > 0 {
					en.row = rows[k][0]
				}
				v, err := en.eval(w)
				if err != nil {
					return nil, err
				}
				l.row = append(l.row, v)
				continue
			}
			var vals []Val
			for _, r := range rows[k] {
				if w.args[0].op == "star" {
					vals = append(vals, int64(1))
					continue
				}
				en.row = r
				v, err := en.eval(w.args[0])
				if err != nil {
					return nil, err
				}
				if v != nil {
					vals = append(vals, v)
				}
			}
			v, err := aggregated(w.name, vals)
			if err != nil {
				return nil, err
			}
			l.row = append(l.row, v)
		}
		lines = append(lines, l)
	}
	sort.SliceStable(lines, func(i, j int) bool { return st.before(lines[i].key, lines[j].key) })
	for i, l := range lines {
		if i >= from && i < from+n {
			out.rows = append(out.rows, l.row)
		}
	}
	return out, nil
}

func aggregated(f string, vals []Val) (Val, error) {
	if f == "count" {
		return int64(len(vals)), nil
	}
	var best Val
	for i, v := range vals {
		switch {
		case i == 0:
			best = v
		case f == "max" && compare(v, best) > 0, f == "min" && compare(v, best) < 0:
			best = v
		case f == "sum":
			a, ok1 := toRat(best)
			b, ok2 := toRat(v)
			if !ok1 || !ok2 {
				return nil, dbErr(1292, "Truncated incorrect number")
			}
			var err error
			if best, err = ratVal(a.Add(a, b), best, v); err != nil {
				return nil, err
			}
		}
	}
	return best, nil
}

func (d *SimDB) query(t *DBTable, rows [][]Val, st *Stmt, args []Val) (*simRows, error) {
	out := &simRows{}
	en := &sqlEnv{tab: t, args: args, now: time.Now()}
	var what []*Expr
	count := false
	for _, w := range st.what {
		if w.op == "star" {
			for _, c := range t.cols {
				what = append(what, &Expr{op: "col", name: c.name})
				out.names = append(out.names, c.name)
			}
			continue
		}
		count = count || aggregate(w)
		what = append(what, w)
		out.names = append(out.names, w.name)
	}
	for _, w := range what {
		if aggregate(w) {
			if len(w.args) != 1 {
				return nil, dbErr(1064, "syntax error in %s", w.name)
			}
			if w.args[0].op != "star" {
				if err := d.check(t, w.args[0]); err != nil {
					return nil, err
				}
			}
			continue
		}
		if err := d.check(t, w); err != nil {
			return nil, err
		}
	}
	if err := d.check(t, st.where); err != nil {
		return nil, err
	}
	for _, o := range st.order {
		if err := d.check(t, o.e); err != nil {
			return nil, err
		}
	}
	for _, g := range st.group {
		if err := d.check(t, g); err != nil {
			return nil, err
		}
	}
	from, n, err := limits(en, st)
	if err != nil {
		return nil, err
	}
	var sel [][]Val
	for _, r := range rows {
		en.row = r
		if st.where != nil {
			v, err := en.eval(st.where)
			if err != nil {
				return nil, err
			}
			if !isTrue(v) {
				continue
			}
		}
		sel = append(sel, r)
	}
	// No order but the one asked for.
	for i := len(sel) - 1; i > 0; i-- {
		j := d.r.N(i + 1)
		sel[i], sel[j] = sel[j], sel[i]
	}
	if count || len(st.group) > 0 {
		return d.grouped(t, sel, what, st, en, from, n, out)
	}
	if len(st.order) > 0 {
		keys := map[*Val][]Val{}
		for _, r := range sel {
			en.row = r
			var k []Val
			for _, o := range st.order {
				v, err := en.eval(o.e)
				if err != nil {
					return nil, err
				}
				k = append(k, v)
			}
			keys[&r[0]] = k
		}
		sort.SliceStable(sel, func(i, j int) bool { return st.before(keys[&sel[i][0]], keys[&sel[j][0]]) })
	}
	for i, r := range sel {
		if i < from || i >= from+n {
			continue
		}
		en.row = r
		var row []Val
		for _, w := range what {
			v, err := en.eval(w)
			if err != nil {
				return nil, err
			}
			row = append(row, v)
		}
		out.rows = append(out.rows, row)
	}
	return out, nil
}

func compareNull(a, b Val) int {
	switch {
	case a == nil && b == nil:
		return 0
	case a == nil:
		return -1
	case b == nil:
		return 1
	}
	return compare(a, b)
}

// modify computes what a table holds after a statement.
func (d *SimDB) modify(t *DBTable, rows [][]Val, st *Stmt, args []Val) (int64, [][]Val, error) {
	en := &sqlEnv{tab: t, args: args, now: time.Now()}
	var idx []int
	seen := map[int]bool{}
	for _, n := range st.names {
		i := t.colIndex(n)
		if i < 0 {
			return 0, nil, dbErr(1054, "Unknown column '%s' in 'field list'", n)
		}
		if seen[i] && st.kind == "insert" {
			return 0, nil, dbErr(1110, "Column '%s' specified twice", n)
		}
		seen[i] = true
		idx = append(idx, i)
	}
	switch st.kind {
	case "insert":
		out := append([][]Val{}, rows...)
		var count int64
		for _, src := range st.rows {
			row := make([]Val, len(t.cols))
			en.row = nil
			for k, e := range src {
				if err := d.check(t, e); err != nil {
					return 0, nil, err
				}
				en.row = row
				v, err := en.eval(e)
				if err == nil {
					v, err = coerce(t.cols[idx[k]], v)
				}
				if err != nil {
					return 0, nil, err
				}
				row[idx[k]] = v
			}
			for i, c := range t.cols {
				if seen[i] {
					continue
				}
				if c.class == "json" {
					row[i] = JT("null")
				} else if !c.null {
					return 0, nil, dbErr(1364, "Field '%s' doesn't have a default value", c.name)
				}
			}
			dup := -1
			for i, r := range out {
				if compare(r[t.key], row[t.key]) == 0 {
					dup = i
				}
			}
			if dup >= 0 {
				switch {
				case st.replace:
					out[dup] = row
					count += 2
				case len(st.dupCols) > 0:
					en2 := &sqlEnv{tab: t, row: append([]Val{}, out[dup]...), insert: row, args: args, now: en.now}
					for k, n := range st.dupCols {
						i := t.colIndex(n)
						if i < 0 {
							return 0, nil, dbErr(1054, "Unknown column '%s'", n)
						}
						v, err := en2.eval(st.dupVals[k])
						if err == nil {
							v, err = coerce(t.cols[i], v)
						}
						if err != nil {
							return 0, nil, err
						}
						en2.row[i] = v
					}
					out[dup] = en2.row
					count += 2
				case st.ignore:
				default:
					return 0, nil, dbErr(1062, "Duplicate entry '%v' for key 'PRIMARY'", row[t.key])
				}
				continue
			}
			out = append(out, row)
			count++
		}
		return count, out, nil
	}
	if err := d.check(t, st.where); err != nil {
		return 0, nil, err
	}
	if err := d.check(t, st.what...); err != nil {
		return 0, nil, err
	}
	_, lim, err := limits(en, st)
	if err != nil {
		return 0, nil, err
	}
	var out [][]Val
	var n int64
	for _, r := range rows {
		en.row = r
		hit := int(n) < lim
		if hit && st.where != nil {
			v, err := en.eval(st.where)
			if err != nil {
				return 0, nil, err
			}
			hit = isTrue(v)
		}
		if !hit {
			out = append(out, r)
			continue
		}
		n++
		if st.kind == "delete" {
			continue
		}
		row := append([]Val{}, r...)
		// MySQL assigns from left to right.
		for k, e := range st.what {
			en.row = row
			v, err := en.eval(e)
			if err == nil {
				v, err = coerce(t.cols[idx[k]], v)
			}
			if err != nil {
				return 0, nil, err
			}
			row[idx[k]] = v
		}
		out = append(out, row)
	}
	if out == nil {
		out = [][]Val{}
	}
	keys := map[string]bool{}
	for _, r := range out {
		k := fmtVal(r[t.key])
		if keys[k] {
			return 0, nil, dbErr(1062, "Duplicate entry '%v' for key 'PRIMARY'", r[t.key])
		}
		keys[k] = true
	}
	return n, out, nil
}

var intRange = map[string][2]string{
	"int8": {"-128", "127"}, "int16": {"-32768", "32767"}, "int32": {"-2147483648", "2147483647"}, "int64": {"-9223372036854775808", "9223372036854775807"},
	"uint8": {"0", "255"}, "uint16": {"0", "65535"}, "uint32": {"0", "4294967295"}, "uint64": {"0", "18446744073709551615"}, "bool": {"-128", "127"},
}

// coerce makes a value fit a column.
func coerce(c *DBCol, v Val) (Val, error) {
	if v == nil {
		if !c.null {
			return nil, dbErr(1048, "Column '%s' cannot be null", c.name)
		}
		return nil, nil
	}
	wrong := dbErr(1366, "Incorrect value '%v' for column '%s'", v, c.name)
	switch c.class {
	case "int", "bool":
		r, ok := toRat(v)
		if _, date := v.(MS); !ok || date {
			return nil, wrong
		}
		if !r.IsInt() {
			f, _ := r.Float64()
			r.SetInt64(int64(math.Round(f)))
		}
		lim := intRange[c.typ]
		lo, _ := new(big.Rat).SetString(lim[0])
		hi, _ := new(big.Rat).SetString(lim[1])
		if r.Cmp(lo) < 0 || r.Cmp(hi) > 0 {
			return nil, dbErr(1264, "Out of range value for column '%s'", c.name)
		}
		return r.Num().Int64(), nil
	case "string":
		return text(v), nil
	case "date":
		switch x := v.(type) {
		case MS:
			return x, nil
		case string:
			for _, l := range []string{"2006-01-02 15:04:05.999", "2006-01-02"} {
				if t, err := time.Parse(l, x); err == nil {
					return MS(t.UnixMilli()), nil
				}
			}
		}
		return nil, dbErr(1292, "Incorrect datetime value: '%v' for column '%s'", v, c.name)
	case "decimal":
		if _, ok := toRat(v); !ok {
			return nil, wrong
		}
		return mkDec(text(v)), nil
	case "double", "float":
		r, ok := toRat(v)
		if !ok {
			return nil, wrong
		}
		f, _ := r.Float64()
		if c.class == "float" {
			f = float64(float32(f))
		}
		return f, nil
	case "json":
		x := text(v)
		if !json.Valid([]byte(x)) {
			return nil, dbErr(3140, "Invalid JSON text: '%s' for column '%s'", x, c.name)
		}
		return JT(x), nil
	}
	return nil, wrong
}
