package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
	"runtime/debug"

	"vsim/schema"
	"vsim/ss/meta"
)

// Types are the generated data types by schema and name.
var Types = map[string]reflect.Type{}

// Handler is what the implementations of services call.
type Handler func(ctx context.Context, service, method string, req any) (any, error)

// Service is what the harness needs of a generated service.
type Service struct {
	Client   func(c rpc.Client) any
	Router   func(s any) rpc.ServerRouter
	Impl     func(h Handler) any
	Get      func(ctx context.Context) any
	Default  func() any
	NotFound func() any
	Is       func(x any) bool
}

// Services are the generated services by schema and name.
var Services = map[string]*Service{}

// Op is one operation of a client.
type Op struct {
	ID     int              `json:"id"`
	Node   int              `json:"node,omitempty"`
	Kind   string           `json:"kind"`
	Type   string           `json:"type,omitempty"`
	Args   map[string]any   `json:"args,omitempty"`
	Rows   []map[string]any `json:"rows,omitempty"`
	Ops    []*Op            `json:"ops,omitempty"` // of a transaction
	End    string           `json:"end,omitempty"` // commit or rollback
	N      int              `json:"n,omitempty"`
	Many   int              `json:"many,omitempty"` // further rows of a bulk insert
	Faults []Fault          `json:"faults,omitempty"`
	Method string           `json:"method,omitempty"`
}

// Case is one simulated history, complete.
type Case struct {
	Prop    string                      `json:"prop"`
	Kind    string                      `json:"kind"`
	Pkg     string                      `json:"pkg"`
	Init    map[string][]map[string]any `json:"init,omitempty"`
	Clients [][]*Op                     `json:"clients"`
	Nodes   int                         `json:"nodes,omitempty"`
	Sched   Sched                       `json:"sched"`
	Rand    int64                       `json:"rand,omitempty"`
}

// Hist is what became of an operation.
type Hist struct {
	op     *Op
	client int
	call   int // position of the call and the return in the history
	ret    int
	start  time.Time
	end    time.Time
	out    *Outcome
	c      *Call
	run    *OpRun
	sub    []*Hist
	ended  string // how a transaction ended
	cerr   error  // error of begin, commit or rollback
	pre    State
	post   State
	skip   bool
	shown  map[string][]string // cache entries seen before the table was changed
}

// World is a running case.
type World struct {
	*Sim
	c    *Case
	sc   *meta.Schema
	hist []*Hist
	seq  int
	node []*Node
	t    *testing.T
}

var theMeta *meta.Meta

func schemaOf(pkg string) *meta.Schema {
	for _, s := range theMeta.Schemas {
		if s.Pkg == pkg {
			return s
		}
	}
	panic("no schema " + pkg)
}

// newCall builds the call an operation stands for.
func newCall(sc *meta.Schema, op *Op) *Call {
	c := &Call{kind: op.Kind, sc: sc, tab: sc.Table(op.Type)}
	if c.tab == nil {
		c.req = sc.Req(op.Type)
		if c.req == nil {
			panic("no type " + op.Type)
		}
		c.tab = sc.Table(c.req.Table)
	}
	t := Types[sc.Pkg+"."+op.Type]
	c.v = reflect.New(t).Elem()
	setFields(c.v, op.Args)
	for _, r := range op.Rows {
		v := reflect.New(t)
		setFields(v.Elem(), r)
		c.rows = append(c.rows, v)
	}
	for i := 0; i < op.Many; i++ {
		v := reflect.New(t)
		if len(op.Rows) > 0 {
			setFields(v.Elem(), op.Rows[0])
		}
		k := c.tab.Col(c.tab.Key)
		n := fmt.Sprint(1000 + i)
		if k.Class() == "string" {
			n = "k" + n
		}
		setFields(v.Elem(), map[string]any{k.Go: n})
		c.rows = append(c.rows, v)
	}
	c.f = fields(c.v)
	return c
}

func setFields(v reflect.Value, args map[string]any) {
	for k, a := range args {
		f := v.FieldByName(k)
		if !f.IsValid() {
			panic("no field " + k + " in " + v.Type().String())
		}
		setArg(f, a)
	}
}

// invoke calls the generated method.
func (c *Call) invoke(ctx context.Context) (o *Outcome) {
	o = &Outcome{}
	defer func() {
		if e := recover(); e != nil {
			o.panic = fmt.Sprintf("%v\n%s", e, frames(string(debug.Stack())))
		}
	}()
	m := c.v.MethodByName(methodOf[c.kind])
	if !m.IsValid() {
		o.panic = "there is no method " + methodOf[c.kind] + " of " + c.v.Type().String()
		return o
	}
	in := []reflect.Value{reflect.ValueOf(ctx)}
	if c.kind == "inserts" {
		l := reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(c.v.Type())), 0, len(c.rows))
		for _, r := range c.rows {
			l = reflect.Append(l, r)
		}
		in = append(in, l)
	}
	out := m.Call(in)
	if e, _ := out[len(out)-1].Interface().(error); e != nil && !(reflect.ValueOf(e).Kind() == reflect.Pointer && reflect.ValueOf(e).IsNil()) {
		o.err = e
		return o
	}
	switch c.kind {
	case "list":
		o.list = []map[string]Val{}
		for i := 0; i < out[0].Len(); i++ {
			o.list = append(o.list, fields(out[0].Index(i)))
		}
	case "map":
		o.m = map[string]map[string]Val{}
		it := out[0].MapRange()
		for it.Next() {
			o.m[fmtVal(canon(it.Key()))] = fields(it.Value())
		}
	case "get":
		if !out[0].IsNil() {
			o.one = fields(out[0])
		}
	default:
		o.n = out[0].Int()
	}
	return o
}

// node returns the node with an index, started anew if it crashed.
func (w *World) getNode(i int) *Node {
	i %= len(w.node)
	if w.node[i].dead {
		w.node[i] = w.newNode(i)
	}
	return w.node[i]
}

func (w *World) tick() int { w.seq++; return w.seq }

// do runs an operation in the running task.
func (w *World) do(t *Task, client int, op *Op) *Hist {
	h := &Hist{op: op, client: client, call: w.tick(), start: time.Now(), run: &OpRun{faults: op.Faults}}
	w.hist = append(w.hist, h)
	n := w.getNode(op.Node)
	t.node, t.op = n, h.run
	ctx, done := n.ctx()
	w.mix(fmt.Sprintf("op %d", op.ID))
	switch op.Kind {
	case "tx":
		w.tx(ctx, h, op)
	default:
		h.c = newCall(w.sc, op)
		h.out = h.c.invoke(ctx)
	}
	if h.run.crashed || n.dead {
		h.run.crashed = true
		h.out = &Outcome{gone: true}
	}
	h.ret, h.end = w.tick(), time.Now()
	done()
	w.logf("%s: %s -> %s", t.name, op.text(), h.out.text())
	t.op, t.node = nil, nil
	// let the connections go back
	w.pause("", time.Time{}, nil)
	return h
}

// tx runs the operations of a transaction.
func (w *World) tx(ctx context.Context, h *Hist, op *Op) {
	h.out = &Outcome{}
	tx, err := db.Begin(ctx)
	if err != nil && !isNilErr(err) {
		h.cerr, h.ended, h.out.err = err, "begin failed", err
		return
	}
	end := op.End
	for _, o := range op.Ops {
		s := &Hist{op: o, c: newCall(w.sc, o), call: w.tick(), start: time.Now(), run: h.run}
		before := h.run.dfault
		s.out = s.c.invoke(ctx)
		s.skip = h.run.dfault != before
		s.ret, s.end = w.tick(), time.Now()
		h.sub = append(h.sub, s)
		w.logf("  in transaction: %s -> %s", o.text(), s.out.text())
		if s.out.panic != "" {
			h.out.panic = s.out.panic
			end = "rollback"
			break
		}
		if s.out.err != nil {
			end = "rollback"
			break
		}
		if h.run.crashed {
			return
		}
	}
	h.ended = end
	if end == "commit" {
		err = tx.Commit()
	} else {
		err = tx.Rollback()
	}
	if err != nil && !isNilErr(err) {
		h.cerr = err
		h.out.err = err
	}
}

func isNilErr(e error) bool {
	v := reflect.ValueOf(e)
	return v.Kind() == reflect.Pointer && v.IsNil()
}

func (o *Op) text() string {
	b, _ := json.Marshal(o.Args)
	s := fmt.Sprintf("#%d %s %s", o.ID, o.Kind, o.Type)
	if o.Method != "" {
		s += "." + o.Method
	}
	if len(o.Args) > 0 {
		s += string(b)
	}
	if len(o.Rows) > 0 {
		b, _ = json.Marshal(o.Rows)
		s += string(b)
	}
	if o.Many != 0 {
		s += fmt.Sprintf(" and %d rows more", o.Many)
	}
	if o.N != 0 {
		s += fmt.Sprintf(" n=%d", o.N)
	}
	if len(o.Ops) > 0 {
		s += fmt.Sprintf(" (%d operations, %s)", len(o.Ops), o.End)
	}
	return s
}

// totals over all runs of a worker
var (
	Runs       int
	SimNS      int64
	StepsTotal int64
	FiredTotal = map[string]int{}
	Hashes     = map[uint64]bool{}
	Probes     = map[string]int{}
	digest     uint64
	lastRec    []int
	lastTrace  []string
)

// simulate runs a case in a bubble of its own.
func simulate(c *Case, body func(w *World)) *World { return simulateWith(c, nil, body) }

func simulateWith(c *Case, setup, body func(w *World)) (w *World) {
	defer func() {
		// The bubble cannot end if something the library left behind blocks.
		if e := recover(); e != nil {
			if w == nil {
				panic(e)
			}
			if w.trouble == "" {
				w.trouble = fmt.Sprintf("%v", e)
			}
		}
		curSim = nil
	}()
	synctest.Test(curT, func(t *testing.T) {
		rand.Seed(c.Rand)
		w = &World{Sim: NewSim(c.Sched), c: c, sc: schemaOf(c.Pkg), t: t}
		curSim = w.Sim
		w.db = NewSimDB(w.Sim, w.sc)
		w.redis = NewSimRedis(w.Sim)
		if setup != nil {
			setup(w)
		}
		w.fillDB()
		for i := 0; i < max(1, c.Nodes); i++ {
			w.node = append(w.node, w.newNode(i))
		}
		body(w)
		w.Run()
		SimNS += int64(time.Since(w.start))
		w.shutdown()
		synctest.Wait()
	})
	Runs++
	StepsTotal += int64(w.steps)
	for k, n := range w.fired {
		FiredTotal[k] += n
	}
	h := w.hash
	Hashes[h] = true
	digest = (digest ^ h) * 1099511628211
	lastRec, lastTrace = w.rec, w.trace
	for _, t := range w.tasks {
		if t.panics != "" && w.trouble == "" {
			w.trouble = "panic in the harness: " + t.panics
		}
	}
	if strings.HasPrefix(w.trouble, "panic in the harness") {
		panic(w.trouble + "\n" + strings.Join(w.trace, "\n"))
	}
	return w
}

// fillDB stores the rows the case starts with.
func (w *World) fillDB() {
	var ns []string
	for n := range w.c.Init {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		tab := w.sc.Table(n)
		t := w.db.tables[tab.DB]
		gt := Types[w.sc.Pkg+"."+n]
		var rows [][]Val
		seen := map[string]bool{}
		for _, r := range w.c.Init[n] {
			if row := storeRow(t, gt, r); !seen[fmtVal(row[t.key])] {
				seen[fmtVal(row[t.key])] = true
				rows = append(rows, row)
			}
		}
		t.rows = rows
	}
	if w.db.history {
		for _, n := range w.db.names {
			w.db.install(w.db.tables[n], w.db.tables[n].rows)
		}
	}
}

// storeRow makes a stored row of a case's arguments, by Go field names and "deleted".
func storeRow(t *DBTable, gt reflect.Type, args map[string]any) []Val {
	v := reflect.New(gt).Elem()
	a := map[string]any{}
	for k, x := range args {
		if k != "deleted" && k != "broken" {
			a[k] = x
		}
	}
	setFields(v, a)
	row := make([]Val, len(t.cols))
	for i, c := range t.t.Cols {
		f := v.FieldByName(c.Go)
		if c.Class() == "json" {
			b, err := json.Marshal(f.Interface())
			if err != nil {
				panic(err)
			}
			row[i] = JT(b)
			continue
		}
		row[i] = canon(f)
		if c.Go == args["broken"] {
			row[i] = nil // no generated code wrote that
		}
	}
	if t.soft {
		row[len(row)-1] = nil
		if args["deleted"] != nil {
			row[len(row)-1] = MS(946684800000)
		}
	}
	return row
}

var curT *testing.T

var _ = schema.Base
