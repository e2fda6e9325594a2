package main

import (
	"encoding/json"
	"fmt"
	"time"

	"vsim/schema"
	"vsim/ss/meta"
)

func init() {
	props["C14"] = &prop{gen: genFresh, judge: judgeFresh}
	props["C15"] = &prop{gen: genAge, judge: judgeAge}
	props["C16"] = &prop{gen: genMix, judge: judgeMix}
	props["C17"] = &prop{gen: genCacheTrouble, judge: judgeCacheTrouble}
	props["C18"] = &prop{gen: genRecover, judge: judgeRecover}
}

func isCached(s *meta.Schema) bool {
	for _, t := range s.Tables {
		if t.Cache == nil {
			return false
		}
	}
	return len(s.Tables) > 0
}

// cacheOf is the cache setting reads of a type have.
func (c *Call) cacheOf() *meta.Cache {
	if c.req != nil {
		return c.req.Cache
	}
	return c.tab.Cache
}

func (x choice) cache() *meta.Cache {
	if x.req != nil {
		return x.req.Cache
	}
	return x.tab.Cache
}

func isEnv(kind string) bool {
	switch kind {
	case "sleep", "flush", "evict", "restart", "down", "up", "edit":
		return true
	}
	return false
}

// env does what no client does.
func (w *World) env(op *Op) {
	w.mix(fmt.Sprintf("env %d", op.ID))
	switch op.Kind {
	case "sleep":
		w.Sleep(time.Duration(op.N) * time.Millisecond)
	case "flush":
		w.redis.flush()
	case "evict":
		w.redis.evict()
	case "restart":
		w.redis.restart()
	case "down":
		w.redis.down = true
	case "up":
		w.redis.down = false
	case "edit":
		w.edit(op)
	}
	w.logf("%s", op.text())
}

// edit changes a row behind the back of the generated code: n rows with the
// same key are replaced, deleted if N is 1.
func (w *World) edit(op *Op) {
	tab := w.sc.Table(op.Type)
	t := w.db.tables[tab.DB]
	if t.owner != nil {
		return
	}
	row := storeRow(t, Types[w.sc.Pkg+"."+op.Type], op.Args)
	var out [][]Val
	found := false
	for _, r := range t.rows {
		if compareNull(r[t.key], row[t.key]) != 0 {
			out = append(out, r)
			continue
		}
		found = true
		if op.N != 1 {
			out = append(out, row)
		}
	}
	if !found {
		out = append(out, row)
	}
	w.db.install(t, out)
}

// together runs operations at the same time, each in a task of its own, and
// waits for them; the running task must be the driver.
func (w *World) together(phase int, ops []*Op) []*Hist {
	var hs []*Hist
	if len(ops) == 1 && isEnv(ops[0].Kind) {
		w.env(ops[0])
		return nil
	}
	left := 0
	out := make([]*Hist, len(ops))
	for i, op := range ops {
		if isEnv(op.Kind) {
			w.env(op)
			continue
		}
		left++
		w.Go(fmt.Sprintf("p%d.%d", phase, i), func(t *Task) {
			defer func() { left-- }()
			out[i] = w.do(t, i, op)
		})
	}
	w.pause("phase", time.Time{}, func() bool { return left == 0 })
	for _, h := range out {
		if h != nil {
			hs = append(hs, h)
		}
	}
	return hs
}

var cacheFaults = []string{"refuse", "reset", "lostreply", "rerr", "foreign", "foreign", "evict", "flush", "restart"}
var anyFaults = []string{"refuse", "reset", "lostreply", "rerr", "foreign", "foreign", "evict", "flush", "restart", "err", "badconn", "lost", "crash", "crashafter", "slow"}

// readPool makes a few reads, to be asked again and again: most of them are
// like another one but for one argument.
func (g *G) readPool(n int, ok func(x choice) bool) []*Op {
	l := g.choices(func(x choice) bool { return isRead(x.kind) && (ok == nil || ok(x)) })
	var out []*Op
	if len(l) == 0 {
		return nil
	}
	for len(out) < n {
		if len(out) > 0 && g.r.P(2, 3) {
			if o := g.variant(out[g.r.N(len(out))], l); o != nil {
				out = append(out, o)
				continue
			}
		}
		out = append(out, g.pickOp(l))
	}
	return out
}

// variant changes one thing about a read.
func (g *G) variant(o *Op, l []choice) *Op {
	v := copyOp(o)
	var x *choice
	var other []choice
	for i := range l {
		if l[i].typ == o.Type && l[i].kind == o.Kind {
			x = &l[i]
		} else if l[i].typ == o.Type {
			other = append(other, l[i])
		}
	}
	if x == nil {
		return nil
	}
	if len(other) > 0 && g.r.P(1, 4) {
		v.Kind = other[g.r.N(len(other))].kind
		return v
	}
	fresh := g.op(*x)
	if len(fresh.Args) == 0 {
		return nil
	}
	ks := sortedKeys(fresh.Args)
	k := ks[g.r.N(len(ks))]
	if v.Args == nil {
		v.Args = map[string]any{}
	}
	v.Args[k] = fresh.Args[k]
	if a, is := v.Args[k].([]any); is && len(a) > 1 && g.r.P(1, 2) {
		v.Args[k] = append(append([]any{}, a[1:]...), a[0])
	}
	return v
}

func copyOp(o *Op) *Op {
	b, _ := json.Marshal(o)
	v := &Op{}
	json.Unmarshal(b, v)
	return v
}

func (g *G) again(pool []*Op) *Op {
	o := copyOp(pool[g.r.N(len(pool))])
	o.Node = g.r.N(g.c.Nodes)
	o.Faults = nil
	return o
}

func sameQuery(a, b *Op) bool {
	x, _ := json.Marshal(a.Args)
	y, _ := json.Marshal(b.Args)
	return a.Type == b.Type && a.Kind == b.Kind && string(x) == string(y)
}

func (g *G) sleep(cs []*meta.Cache) *Op {
	r := g.r
	if len(cs) == 0 || r.P(1, 3) {
		return &Op{Kind: "sleep", N: pick(r, 50, 1000, 5000, 60000)}
	}
	c := cs[r.N(len(cs))]
	return &Op{Kind: "sleep", N: pick(r, c.Min*1000-500, c.Min*500, c.Max*500, c.Max*1000+1000, c.Max*1000+3000, (c.Min+c.Max)*500)}
}

func caches(l []choice) []*meta.Cache {
	var out []*meta.Cache
	for _, x := range l {
		if c := x.cache(); c != nil {
			out = append(out, c)
		}
	}
	return out
}

// C14: phases of reads and phases of writes.

func genFresh(r *schema.Rng, c *Case) {
	g := newG(r, c, isCached)
	c.Kind = "phases"
	c.Nodes = 1 + r.N(3)
	g.sched(true)
	g.init(4)
	l := g.focus(nil)
	tab := l[0].tab
	if r.P(1, 5) {
		l = g.choices(nil)
		tab = nil
	}
	var ws []choice
	for _, x := range l {
		if !isRead(x.kind) {
			ws = append(ws, x)
		}
	}
	pool := g.readPool(2+r.N(4), func(x choice) bool { return tab == nil || x.tab == tab })
	faulty := r.P(2, 3)
	n := 4 + r.N(9)
	for i := 0; i < n; i++ {
		var ops []*Op
		switch k := r.N(10); {
		case k == 0:
			ops = append(ops, g.sleep(caches(l)))
		case k == 1 && r.P(1, 2):
			ops = append(ops, &Op{Kind: pick(r, "flush", "evict", "restart")})
		case k < 4:
			for j := 0; j <= r.N(3); j++ {
				o := g.pickOp(ws)
				if faulty && r.P(1, 3) {
					g.fault(o, 6, anyFaults...)
				}
				ops = append(ops, o)
			}
		default:
			for j := 0; j <= r.N(4); j++ {
				o := g.again(pool)
				if faulty && r.P(1, 4) {
					g.fault(o, 8, anyFaults...)
				}
				ops = append(ops, o)
			}
		}
		c.Clients = append(c.Clients, ops)
	}
	// A plain read at the end.
	for _, o := range pool {
		o.Node = r.N(c.Nodes)
		c.Clients = append(c.Clients, []*Op{copyOp(o)})
	}
}

func judgeFresh(c *Case) Verdict {
	var viol *Viol
	useful := map[string]bool{}
	w := simulate(c, func(w *World) {
		w.Go("driver", func(t *Task) {
			wrote := false
			for p, ops := range c.Clients {
				if len(ops) == 0 || w.kill {
					continue
				}
				st := w.db.snapshot()
				hs := w.together(p, ops)
				for _, h := range hs {
					if h.out.panic != "" && !h.run.crashed {
						viol = &Viol{Key: "an operation panics", Msg: h.op.text() + " panics: " + h.out.panic}
						return
					}
					if !isRead(h.op.Kind) {
						if h.run.crashed {
							useful["write crashed"] = true
						}
						wrote = true
						continue
					}
					if h.out.gone || h.out.err != nil && (h.run.dfault || badconns(h.run) > 1) {
						useful["read failed"] = true
						continue
					}
					if h.out.err != nil && h.run.rfault {
						continue // not this property's matter
					}
					if why := h.c.read(st, h.out); why != "" {
						viol = &Viol{Key: "stale or wrong read", Msg: fmt.Sprintf("%s %s\nrows in the database:\n%s\nhistory:\n%s", h.op.text(), why, st.text(), w.story())}
						return
					}
					if len(h.run.queries) == 0 && wrote {
						useful["hit after a write"] = true
					}
				}
			}
		})
	})
	if viol == nil && w.trouble != "" {
		viol = &Viol{Key: "run does not end", Msg: w.trouble + "\nhistory:\n" + w.story()}
	}
	for k := range useful {
		Probes[k]++
	}
	return Verdict{Viol: viol, Useful: len(useful) > 0, Label: labelOf(useful)}
}

// C15: clients at the same time, with time passing.

func genAge(r *schema.Rng, c *Case) {
	g := newG(r, c, isCached)
	c.Nodes = 1 + r.N(3)
	g.init(4)
	l := g.focus(nil)
	tab := l[0].tab
	var ws []choice
	for _, x := range l {
		if !isRead(x.kind) {
			ws = append(ws, x)
		}
	}
	edit := func() *Op {
		o := &Op{Kind: "edit", Type: tab.Type, Args: g.row(tab)}
		if r.P(1, 3) {
			o.N = 1
		}
		return o
	}
	if r.P(1, 2) {
		c.Kind = "lifetime"
		c.Sched.Seed = r.U64() >> 16
		if r.P(1, 4) {
			c.Sched.Lat = pick(r, 10, 1000, 50000)
		}
		pool := g.readPool(2, func(x choice) bool { return x.tab == tab && x.cache() != nil })
		if pool == nil {
			pool = g.readPool(2, func(x choice) bool { return x.tab == tab })
		}
		var ops []*Op
		for i := 0; i < 3+r.N(4); i++ {
			if r.P(1, 3) {
				ops = append(ops, &Op{Kind: "flush"})
			}
			o := g.again(pool)
			var cc *meta.Cache
			for _, x := range l {
				if x.typ == o.Type && x.kind == o.Kind {
					cc = x.cache()
				}
			}
			ops = append(ops, o)
			if r.P(2, 3) {
				ops = append(ops, edit())
			}
			if cc != nil {
				ops = append(ops, &Op{Kind: "sleep", N: pick(r, cc.Min*1000-200, cc.Min*1000-500, cc.Max*1000+1000, cc.Max*1000+100, (cc.Min+cc.Max)*500, cc.Min*500)})
			}
			o2 := copyOp(o)
			o2.Node = r.N(c.Nodes)
			ops = append(ops, o2)
		}
		c.Clients = [][]*Op{ops}
		return
	}
	c.Kind = "concurrent"
	g.sched(true)
	pool := g.readPool(1+r.N(3), func(x choice) bool { return x.tab == tab })
	cs := caches(l)
	faulty := r.P(1, 2)
	for i := 0; i < 2+r.N(3); i++ {
		var ops []*Op
		for k := 0; k < 2+r.N(5); k++ {
			switch r.N(8) {
			case 0, 1:
				o := g.pickOp(ws)
				if faulty && r.P(1, 3) {
					g.fault(o, 6, anyFaults...)
				}
				ops = append(ops, o)
			case 2, 3:
				ops = append(ops, g.sleep(cs))
			case 4:
				if r.P(1, 2) {
					ops = append(ops, edit())
				}
			default:
				o := g.again(pool)
				if faulty && r.P(1, 4) {
					g.fault(o, 8, anyFaults...)
				}
				ops = append(ops, o)
			}
		}
		c.Clients = append(c.Clients, ops)
	}
}

func judgeAge(c *Case) Verdict {
	useful := map[string]bool{}
	w := simulateWith(c, func(w *World) { w.db.history = true }, func(w *World) {
		for i, ops := range c.Clients {
			if len(ops) == 0 {
				continue
			}
			w.Go(fmt.Sprintf("client%d", i), func(t *Task) {
				for _, op := range ops {
					if w.kill {
						return
					}
					if isEnv(op.Kind) {
						w.env(op)
						h := &Hist{op: op, client: i, call: w.tick(), start: time.Now(), end: time.Now(), out: &Outcome{}, run: &OpRun{}}
						h.ret = w.tick()
						w.hist = append(w.hist, h)
						continue
					}
					w.do(t, i, op)
				}
			})
		}
	})
	if w.trouble != "" {
		return Verdict{Viol: &Viol{Key: "operations do not end", Msg: w.trouble + "\nhistory:\n" + w.story()}}
	}
	slack := time.Duration(0)
	for _, h := range w.hist {
		if h.c != nil && isRead(h.op.Kind) && h.end.Sub(h.start) > slack {
			slack = h.end.Sub(h.start)
		}
	}
	for i, h := range w.hist {
		if h.c == nil {
			continue
		}
		if h.out.panic != "" && !h.run.crashed {
			return Verdict{Viol: &Viol{Key: "an operation panics", Msg: h.op.text() + " panics: " + h.out.panic}}
		}
		if !isRead(h.op.Kind) || h.out.gone || h.out.err != nil && h.faulted() {
			continue
		}
		max := time.Duration(0)
		cc := h.c.cacheOf()
		from := h.start
		if cc != nil {
			max = time.Duration(cc.Max) * time.Second
			from = h.start.Add(-max - slack)
		}
		hist := w.db.tables[h.c.tab.DB].hist
		ok, why := false, ""
		n := 0
		for k, v := range hist {
			if v.at.After(h.end) || k+1 < len(hist) && hist[k+1].at.Before(from) {
				continue
			}
			n++
			if why = h.c.read(State{h.c.tab.DB: w.db.tables[h.c.tab.DB].model(v.rows)}, h.out); why == "" {
				ok = true
				break
			}
		}
		if !ok {
			key := "result older than the cache may keep it"
			if cc == nil {
				key = "result without cache is not current"
			}
			return Verdict{Viol: &Viol{Key: key, Msg: fmt.Sprintf("%s returned %s, which none of the %d states the table had in the %v before it (and while it ran) gives; last one: %s\nhistory:\n%s", h.op.text(), clip(h.out.text(), 400), n, h.end.Sub(from), why, w.timed())}}
		}
		hit := len(h.run.queries) == 0 && h.out.err == nil
		if hit && len(hist) > 1 {
			useful["hit"] = true
		}
		if c.Kind != "lifetime" || cc == nil || i == 0 {
			continue
		}
		// The same query before, answered by the database and kept.
		for k := i - 1; k >= 0; k-- {
			o := w.hist[k]
			if o.op.Kind == "flush" {
				break
			}
			if o.c == nil || !isRead(o.op.Kind) || !sameQuery(o.op, h.op) {
				continue
			}
			if o.out.err != nil || len(o.run.queries) == 0 {
				break
			}
			if h.end.Sub(o.start) < time.Duration(cc.Min)*time.Second {
				useful["within the minimum"] = true
				if !hit {
					return Verdict{Viol: &Viol{Key: "cached result dropped early", Msg: fmt.Sprintf("%s asked the database %v after the same query was answered, the cache time is at least %d s\nhistory:\n%s", h.op.text(), h.end.Sub(o.start), cc.Min, w.timed())}}
				}
			}
			break
		}
		// Anything asked like this before, answered by the database.
		for k := i - 1; k >= 0; k-- {
			o := w.hist[k]
			if o.c == nil || o.op.Type != h.op.Type || o.op.Kind != h.op.Kind || len(o.run.queries) == 0 {
				continue
			}
			if h.start.Sub(o.end) > max {
				useful["past the maximum"] = true
				if hit {
					return Verdict{Viol: &Viol{Key: "cached result kept too long", Msg: fmt.Sprintf("%s was answered from the cache %v after the last result was stored, the cache time is at most %d s\nhistory:\n%s", h.op.text(), h.start.Sub(o.end), cc.Max, w.timed())}}
				}
			}
			break
		}
	}
	for k := range useful {
		Probes[k]++
	}
	return Verdict{Useful: len(useful) > 0, Label: labelOf(useful)}
}

func (w *World) timed() string {
	s := ""
	for _, h := range w.hist {
		src := ""
		if h.c != nil && isRead(h.op.Kind) {
			src = " (from the cache)"
			if len(h.run.queries) > 0 {
				src = " (from the database)"
			}
		}
		s += fmt.Sprintf("  %.3f-%.3f s client %d node %d: %s -> %s%s\n", h.start.Sub(w.start).Seconds(), h.end.Sub(w.start).Seconds(), h.client, h.op.Node, h.op.text(), clip(h.out.text(), 300), src)
	}
	return s
}

// C16: many queries that are almost the same.

func genMix(r *schema.Rng, c *Case) {
	g := newG(r, c, isCached)
	c.Kind = "phases"
	c.Nodes = 1 + r.N(3)
	g.sched(true)
	g.init(5)
	var focus *meta.Table
	if r.P(1, 2) {
		focus = g.sc.Tables[r.N(len(g.sc.Tables))]
	}
	pool := g.readPool(3+r.N(6), func(x choice) bool { return (focus == nil || x.tab == focus) && (x.cache() != nil || r.P(1, 4)) })
	if pool == nil {
		pool = g.readPool(3, nil)
	}
	ws := g.choices(func(x choice) bool { return !isRead(x.kind) && x.tab != focus })
	for i := 0; i < 3+r.N(7); i++ {
		var ops []*Op
		switch {
		case r.P(1, 4) && len(ws) > 0:
			ops = append(ops, g.pickOp(ws))
		case r.P(1, 3):
			// the whole pool one after the other
			for _, o := range pool {
				v := copyOp(o)
				v.Node = r.N(c.Nodes)
				c.Clients = append(c.Clients, []*Op{v})
			}
			continue
		default:
			for j := 0; j <= r.N(5); j++ {
				ops = append(ops, g.again(pool))
			}
		}
		c.Clients = append(c.Clients, ops)
	}
}

func judgeMix(c *Case) Verdict {
	var viol *Viol
	useful := map[string]bool{}
	type stored struct {
		op  *Op
		tab string
		end time.Time
		min int
	}
	w := simulate(c, func(w *World) {
		w.Go("driver", func(t *Task) {
			var kept []stored // alone with their table when they ran
			otherWrite := false
			for p, ops := range c.Clients {
				if len(ops) == 0 || w.kill {
					continue
				}
				st := w.db.snapshot()
				hs := w.together(p, ops)
				count := map[string]int{}
				for _, h := range hs {
					if h.c != nil {
						count[h.c.tab.DB]++
					}
				}
				for _, h := range hs {
					if h.out.panic != "" {
						viol = &Viol{Key: "an operation panics", Msg: h.op.text() + " panics: " + h.out.panic}
						return
					}
					if !isRead(h.op.Kind) {
						var k []stored
						for _, x := range kept {
							if x.tab != h.c.tab.DB {
								k = append(k, x)
							}
						}
						kept = k
						otherWrite = true
						continue
					}
					if why := h.c.read(st, h.out); why != "" {
						src := "the cache"
						if len(h.run.queries) > 0 {
							src = "the database"
						}
						viol = &Viol{Key: "wrong answer from " + src, Msg: fmt.Sprintf("%s %s\nrows in the database:\n%s\nhistory:\n%s", h.op.text(), why, st.text(), w.story())}
						return
					}
					hit := len(h.run.queries) == 0 && h.out.err == nil
					if hit {
						useful["hit "+h.op.Kind] = true
					}
					known := false
					for _, x := range kept {
						if x.tab == h.c.tab.DB && sameQuery(x.op, h.op) && h.end.Sub(x.end) < time.Duration(x.min-1)*time.Second {
							known = true
							if !hit {
								viol = &Viol{Key: "cached result lost without reason", Msg: fmt.Sprintf("%s asked the database although its result was stored %v ago and nothing changed the table\nhistory:\n%s", h.op.text(), h.end.Sub(x.end), w.story())}
								return
							}
							if otherWrite {
								useful["kept across a write to another table"] = true
							}
						}
					}
					if cc := h.c.cacheOf(); cc != nil && h.out.err == nil && !hit && count[h.c.tab.DB] == 1 && !known {
						kept = append(kept, stored{h.op, h.c.tab.DB, h.start, cc.Min})
					}
				}
			}
		})
	})
	if viol == nil && w.trouble != "" {
		viol = &Viol{Key: "run does not end", Msg: w.trouble + "\nhistory:\n" + w.story()}
	}
	for k := range useful {
		Probes[k]++
	}
	return Verdict{Viol: viol, Useful: len(useful) > 0, Label: labelOf(useful)}
}

// C17: cache trouble at any command.

func genCacheTrouble(r *schema.Rng, c *Case) {
	g := newG(r, c, isCached)
	c.Kind = "sequential"
	c.Nodes = 1 + r.N(2)
	g.sched(false)
	g.init(4)
	l := g.focus(nil)
	tab := l[0].tab
	var ws []choice
	for _, x := range l {
		if !isRead(x.kind) {
			ws = append(ws, x)
		}
	}
	pool := g.readPool(2+r.N(3), func(x choice) bool { return x.tab == tab && (x.cache() != nil || r.P(1, 3)) })
	if pool == nil {
		pool = g.readPool(2, func(x choice) bool { return x.tab == tab })
	}
	var ops []*Op
	for i := 0; i < 4+r.N(10); i++ {
		switch r.N(9) {
		case 0:
			ops = append(ops, &Op{Kind: pick(r, "down", "up", "up", "restart", "sleep"), N: 200})
		case 1, 2, 3:
			o := g.pickOp(ws)
			if r.P(1, 2) {
				for k := 0; k <= r.N(2); k++ {
					g.fault(o, 6, cacheFaults...)
				}
			}
			ops = append(ops, o)
		default:
			o := g.again(pool)
			if r.P(1, 2) {
				for k := 0; k <= r.N(2); k++ {
					g.fault(o, 8, cacheFaults...)
				}
			}
			ops = append(ops, o)
		}
	}
	c.Clients = [][]*Op{ops}
}

func judgeCacheTrouble(c *Case) Verdict {
	var viol *Viol
	useful := map[string]bool{}
	w := simulate(c, func(w *World) {
		var left []string
		w.db.onWrite = func(op *OpRun, t *DBTable) {
			left = append(left, w.redis.entries(t.name)...)
		}
		w.Go("client", func(t *Task) {
			for _, op := range c.Clients[0] {
				if w.kill {
					return
				}
				if isEnv(op.Kind) {
					w.env(op)
					continue
				}
				st := w.db.snapshot()
				left = nil
				down := w.redis.down
				h := w.do(t, 0, op)
				post := w.db.snapshot()
				report := func(key, f string, a ...any) {
					viol = &Viol{Key: key, Msg: fmt.Sprintf(f, a...) + "\nhistory:\n" + w.story()}
				}
				trouble := h.run.rfault || down
				if h.out.panic != "" {
					report("an operation panics", "%s panics: %s", op.text(), h.out.panic)
					return
				}
				if isRead(op.Kind) {
					if why := h.c.read(st, h.out); why != "" {
						key := "wrong read"
						if h.out.err != nil {
							key = "read fails"
						}
						report(key, "%s %s\nrows in the database:\n%s", op.text(), why, st.text())
						return
					}
					if trouble && h.c.cacheOf() != nil {
						useful["read in trouble"] = true
					}
					continue
				}
				if len(left) > 0 {
					report("write without invalidation", "%s changes the table while %d cached results of it are there: %v", op.text(), len(left), left)
					return
				}
				if h.out.err != nil {
					if !equalStates(st, post) {
						report("failed write has an effect", "%s failed (%v) but changed the table:\n%s", op.text(), h.out.err, st.diff(post))
						return
					}
					if !trouble {
						if _, why := h.c.apply(st, h.out); why != "" {
							report("write fails without cache trouble", "%s %s\nrows before:\n%s", op.text(), why, st.text())
							return
						}
					} else {
						useful["write refused"] = true
					}
					continue
				}
				next, why := h.c.apply(st, h.out)
				if why == "" && !equalStates(next, post) {
					why = "changes the table otherwise than it says:\n" + next.diff(post)
				}
				if why != "" {
					report("wrong write", "%s %s\nrows before:\n%s", op.text(), why, st.text())
					return
				}
				if trouble {
					useful["write in trouble"] = true
				}
			}
		})
	})
	if viol == nil && w.trouble != "" {
		viol = &Viol{Key: "run does not end", Msg: w.trouble + "\nhistory:\n" + w.story()}
	}
	for k := range useful {
		Probes[k]++
	}
	return Verdict{Viol: viol, Useful: len(useful) > 0, Label: labelOf(useful)}
}

// C18: trouble, then quiet.

func genRecover(r *schema.Rng, c *Case) {
	g := newG(r, c, isCached)
	c.Kind = "recovery"
	c.Nodes = 1 + r.N(3)
	g.sched(true)
	g.init(4)
	l := g.focus(nil)
	tab := l[0].tab
	var ws []choice
	for _, x := range l {
		if !isRead(x.kind) {
			ws = append(ws, x)
		}
	}
	pool := g.readPool(2+r.N(2), func(x choice) bool { return x.tab == tab && x.cache() != nil })
	if pool == nil {
		pool = g.readPool(2, func(x choice) bool { return x.tab == tab })
	}
	for i := 0; i < 1+r.N(5); i++ {
		var ops []*Op
		kinds := anyFaults
		if r.P(1, 3) {
			kinds = []string{"err", "lost", "badconn", "slow"} // no trouble with the cache
		}
		if r.P(1, 10) {
			c.Clients = append(c.Clients, []*Op{{Kind: pick(r, "down", "up", "restart")}})
		}
		for j := 0; j <= r.N(4); j++ {
			var o *Op
			if r.P(1, 2) {
				o = g.pickOp(ws)
			} else {
				o = g.again(pool)
			}
			if r.P(1, 2) {
				g.fault(o, 7, kinds...)
			}
			ops = append(ops, o)
		}
		c.Clients = append(c.Clients, ops)
	}
	c.Clients = append(c.Clients, []*Op{{Kind: "up"}}, []*Op{{Kind: "sleep", N: 300}}) // pooled connections that broke time out
	q := pool[r.N(len(pool))]
	for i := 0; i < 4; i++ {
		o := copyOp(q)
		o.Node = r.N(c.Nodes)
		o.Method = "quiet"
		c.Clients = append(c.Clients, []*Op{o})
	}
}

func judgeRecover(c *Case) Verdict {
	var viol *Viol
	useful := map[string]bool{}
	w := simulate(c, func(w *World) {
		w.Go("driver", func(t *Task) {
			quiet := 0
			for p, ops := range c.Clients {
				if len(ops) == 0 || w.kill {
					continue
				}
				locked := map[string]bool{}
				for _, n := range w.db.names {
					locked[n] = w.redis.locked(n)
				}
				down := w.redis.down
				hs := w.together(p, ops)
				trouble := down || w.redis.down
				for _, h := range hs {
					if h.out.panic != "" && !h.run.crashed {
						viol = &Viol{Key: "an operation panics", Msg: h.op.text() + " panics: " + h.out.panic}
						return
					}
					trouble = trouble || h.run.rfault || h.run.crashed
				}
				if !trouble && len(hs) > 0 {
					for _, n := range w.db.names {
						if w.redis.locked(n) && !locked[n] {
							viol = &Viol{Key: "lock left behind", Msg: fmt.Sprintf("the lock of %s is left after all operations returned and the cache was reachable all the time\nhistory:\n%s", n, w.story())}
							return
						}
					}
					useful["no lock left"] = true
				}
				if len(ops) != 1 || ops[0].Method != "quiet" || len(hs) != 1 {
					quiet = 0
					continue
				}
				h := hs[0]
				if h.c.cacheOf() == nil || h.out.err != nil {
					continue
				}
				quiet++
				if quiet > 3 {
					useful["recovered"] = true
					if len(h.run.queries) > 0 {
						viol = &Viol{Key: "cache does not recover", Msg: fmt.Sprintf("%s still asks the database the %d. time after all trouble ended\nkeys in the cache: %v\nhistory:\n%s", h.op.text(), quiet, w.redis.keys(), w.story())}
						return
					}
				}
			}
		})
	})
	if viol == nil && w.trouble != "" {
		viol = &Viol{Key: "run does not end", Msg: w.trouble + "\nhistory:\n" + w.story()}
	}
	for k := range useful {
		Probes[k]++
	}
	return Verdict{Viol: viol, Useful: len(useful) > 0, Label: labelOf(useful)}
}
