package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"sort"
	"strings"

	"vsim/schema"
	"vsim/ss/meta"
)

func init() {
	props["C10"] = &prop{gen: func(r *schema.Rng, c *Case) { genSeq(r, c, true) }, judge: judgeSeq}
	props["C11"] = &prop{gen: func(r *schema.Rng, c *Case) { genSeq(r, c, false) }, judge: judgeSeq}
	props["C12"] = &prop{gen: genLin, judge: judgeLin}
	props["C13"] = &prop{gen: genTx, judge: judgeLin}
}

func uncached(s *meta.Schema) bool {
	for _, t := range s.Tables {
		if t.Cache != nil {
			return false
		}
	}
	return len(s.Tables) > 0
}

// limited says whether an operation changes some of the rows it addresses, any.
func (x choice) limited() bool {
	if x.req != nil && (x.kind == "del" || x.kind == "rm") {
		for _, f := range x.req.Fields {
			if f.Role == "limit" {
				return true
			}
		}
	}
	return false
}

func (e Effect) gives(st State) bool {
	for _, x := range append([]State{e.next}, e.alts...) {
		if equalStates(x, st) {
			return true
		}
	}
	return false
}

func hasTables(s *meta.Schema) bool { return len(s.Tables) > 0 }

// genSeq makes a history of one client.
func genSeq(r *schema.Rng, c *Case, writes bool) {
	g := newG(r, c, hasTables)
	c.Kind = "sequential"
	c.Nodes = 1 + r.N(2)
	g.sched(false)
	g.init(6)
	some := r.P(1, 3) // deletes that leave a choice
	if writes && !some {
		g.many = 1040
	}
	if !writes && r.P(1, 3) {
		g.breakRow()
	}
	n := 3 + r.N(10)
	faulty := r.P(2, 3)
	var ops []*Op
	w := g.choices(func(x choice) bool { return !isRead(x.kind) && (some || !x.limited()) })
	rd := g.choices(func(x choice) bool { return isRead(x.kind) })
	for i := 0; i < n; i++ {
		l := rd
		if writes != r.P(1, 4) {
			l = w
		}
		o := g.pickOp(l)
		if faulty && r.P(1, 3) {
			for k := 0; k <= r.N(2); k++ {
				g.fault(o, 5, "err", "badconn", "lost", "crash", "crashafter", "slow", "err", "lost")
			}
		}
		ops = append(ops, o)
	}
	c.Clients = [][]*Op{ops}
}

// unexpected says whether an error needs no explanation by a fault.
func (h *Hist) faulted() bool {
	return h.run.dfault || h.run.rfault || h.run.crashed || badconns(h.run) > 1
}

func badconns(r *OpRun) int {
	n := 0
	for _, x := range r.hit {
		if x == "badconn" {
			n++
		}
	}
	return n
}

func opKey(h *Hist) string {
	t := "table type"
	if h.c.req != nil {
		t = "request type"
	}
	return h.op.Kind + " on " + t
}

func (w *World) story() string {
	var b strings.Builder
	for _, h := range w.hist {
		fmt.Fprintf(&b, "  client %d node %d: %s -> %s", h.client, h.op.Node, h.op.text(), clip(h.out.text(), 600))
		if len(h.run.hit) > 0 {
			fmt.Fprintf(&b, " (faults: %s)", strings.Join(h.run.hit, ", "))
		}
		if h.cerr != nil {
			fmt.Fprintf(&b, " (%s: %v)", h.ended, h.cerr)
		}
		b.WriteByte('\n')
		for _, s := range h.sub {
			fmt.Fprintf(&b, "      %s -> %s\n", s.op.text(), clip(s.out.text(), 400))
		}
	}
	return b.String()
}

func judgeSeq(c *Case) Verdict {
	writes := c.Prop == "C10"
	useful := map[string]bool{}
	var viol *Viol
	w := simulate(c, func(w *World) {
		w.Go("client", func(t *Task) {
			st := w.db.snapshot()
			for _, op := range c.Clients[0] {
				if viol != nil {
					return
				}
				h := w.do(t, 0, op)
				post := w.db.snapshot()
				report := func(key, f string, a ...any) {
					viol = &Viol{Key: opKey(h) + ": " + key, Msg: fmt.Sprintf(f, a...) + "\nhistory:\n" + w.story()}
				}
				rd := isRead(op.Kind)
				if rd == writes {
					st = post
					continue
				}
				if rd && !equalStates(st, post) {
					report("changes data", "%s changes the data:\n%s", op.text(), st.diff(post))
					return
				}
				if h.out.gone || h.out.err != nil && h.faulted() {
					// The whole effect or none.
					if rd {
						useful["failed "+op.Kind] = true
					} else {
						e := h.c.write(st)
						if !equalStates(st, post) && (e.fail != "" || !e.gives(post)) {
							report("partial effect of a failed operation", "%s, which %s, changes the data in part:\n%s", op.text(), h.out.text(), e.next.diff(post))
							return
						}
						useful["failed "+op.Kind] = true
					}
					st = post
					continue
				}
				next, why := h.c.apply(st, h.out)
				if why != "" {
					key := "wrong result"
					if strings.HasPrefix(why, "panics") {
						key = "panics"
					} else if strings.HasPrefix(why, "failed") {
						key = "fails"
					}
					report(key, "%s %s\nrows before:\n%s", op.text(), why, st.text())
					return
				}
				if !equalStates(next, post) && (rd || !h.c.write(st).gives(post)) {
					report("wrong effect", "%s changes the data otherwise than it says:\n%s", op.text(), next.diff(post))
					return
				}
				if rd {
					if l, _ := h.c.live(st); len(l) > 0 {
						useful[op.Kind] = true
					}
				} else if h.out.err == nil && h.out.n > 0 {
					useful[op.Kind] = true
				}
				st = post
			}
		})
	})
	if viol == nil && w.trouble != "" {
		viol = &Viol{Key: "run does not end", Msg: w.trouble + "\nhistory:\n" + w.story()}
	}
	for k := range useful {
		Probes[k]++
	}
	return Verdict{Viol: viol, Useful: len(useful) > 0, Label: labelOf(useful)}
}

func labelOf(m map[string]bool) string {
	ks := sortedKeys(m)
	if len(ks) > 3 {
		ks = append(ks[:3], "...")
	}
	return strings.Join(ks, "+")
}

// breakRow puts a null into a row where only another program could have put it.
func (g *G) breakRow() {
	for _, n := range sortedKeys(g.c.Init) {
		rows := g.c.Init[n]
		t := g.sc.Table(n)
		var l []*meta.Col
		for _, c := range t.Cols {
			if c.Name != t.Key && strict(c) {
				l = append(l, c)
			}
		}
		if len(l) > 0 && g.r.P(2, 3) {
			rows[g.r.N(len(rows))]["broken"] = l[g.r.N(len(l))].Go
		}
	}
}

// focus chooses one table with its operations.
func (g *G) focus(ok func(x choice) bool) []choice {
	t := g.sc.Tables[g.r.N(len(g.sc.Tables))]
	return g.choices(func(x choice) bool { return x.tab == t && (ok == nil || ok(x)) })
}

func genLin(r *schema.Rng, c *Case) {
	g := newG(r, c, uncached)
	c.Kind = "concurrent"
	c.Nodes = 1 + r.N(3)
	g.sched(true)
	g.init(4)
	some := r.P(1, 3)
	if !some {
		g.many = 60
	}
	l := g.focus(func(x choice) bool { return some || !x.limited() })
	contend := r.P(1, 2)
	var adds []choice
	for _, x := range l {
		if x.kind == "update" || x.kind == "set" {
			adds = append(adds, x)
		}
	}
	n := 2 + r.N(3)
	faulty := r.P(1, 2)
	total := 0
	if !some && r.P(1, 12) {
		// A large bulk insert, or two, while others look.
		bulk := g.choices(func(x choice) bool { return x.tab == l[0].tab && x.kind == "inserts" })
		for i := 0; i <= r.N(2) && len(bulk) > 0; i++ {
			o := g.pickOp(bulk)
			o.Many = pick(r, 101, 120, 257, 520, 1040)
			if faulty && r.P(1, 3) {
				g.fault(o, 14, "err", "badconn", "lost", "crash", "crashafter", "slow")
			}
			c.Clients = append(c.Clients, []*Op{o})
			total = 6
		}
	}
	for i := 0; i < n; i++ {
		var ops []*Op
		for k := 0; k < 1+r.N(4) && total < 11; k++ {
			total++
			from := l
			if contend && r.P(1, 2) && len(adds) > 0 {
				from = adds
			}
			o := g.pickOp(from)
			if faulty && r.P(1, 4) {
				g.fault(o, 4, "err", "badconn", "lost", "crash", "crashafter", "slow", "slow")
			}
			ops = append(ops, o)
		}
		c.Clients = append(c.Clients, ops)
	}
}

func genTx(r *schema.Rng, c *Case) {
	g := newG(r, c, uncached)
	c.Kind = "transactions"
	c.Nodes = 1 + r.N(2)
	g.sched(true)
	g.init(4)
	g.many = 60
	fixed := func(x choice) bool { return !x.limited() }
	var l []choice
	if r.P(1, 2) {
		l = g.focus(fixed)
	} else {
		l = g.choices(fixed)
	}
	n := 1 + r.N(3)
	faulty := r.P(1, 2)
	total := 0
	for i := 0; i < n; i++ {
		var ops []*Op
		for k := 0; k < 1+r.N(3) && total < 7; k++ {
			total++
			o := g.pickOp(l)
			if i == 0 && k == 0 || r.P(1, 2) {
				tx := &Op{Kind: "tx", Node: o.Node, End: pick(r, "commit", "commit", "rollback")}
				tx.Ops = append(tx.Ops, o)
				for j := 0; j < r.N(4); j++ {
					tx.Ops = append(tx.Ops, g.pickOp(l))
				}
				o = tx
				if faulty && r.P(1, 2) {
					g.fault(o, 8, "err", "lost", "crash", "crashafter", "slow", "badconn", "err", "lost")
				}
			} else if faulty && r.P(1, 5) {
				g.fault(o, 4, "err", "badconn", "lost", "crash", "crashafter", "slow")
			}
			ops = append(ops, o)
		}
		c.Clients = append(c.Clients, ops)
	}
}

func judgeLin(c *Case) Verdict {
	var init, final State
	w := simulate(c, func(w *World) {
		init = w.db.snapshot()
		for i, ops := range c.Clients {
			if len(ops) == 0 {
				continue
			}
			w.Go(fmt.Sprintf("client%d", i), func(t *Task) {
				for _, op := range ops {
					if w.kill {
						return
					}
					w.do(t, i, op)
				}
			})
		}
	})
	final = w.db.snapshot()
	if w.trouble != "" {
		return Verdict{Viol: &Viol{Key: "operations do not end", Msg: w.trouble + "\nhistory:\n" + w.story()}}
	}
	useful := map[string]bool{}
	for i, h := range w.hist {
		if h.out.panic != "" && !h.run.crashed {
			return Verdict{Viol: &Viol{Key: "an operation panics", Msg: h.op.text() + " panics: " + h.out.panic}}
		}
		for _, o := range w.hist[:i] {
			if h.call < o.ret && o.call < h.ret && o.client != h.client {
				useful["overlap"] = true
			}
		}
		if h.op.Kind == "tx" {
			useful["tx "+h.ended] = true
		}
	}
	ok, best := linearize(w.hist, init, final)
	if !ok {
		key := "not linearizable"
		if c.Prop == "C13" {
			key = "transactions are not atomic"
		}
		return Verdict{Viol: &Viol{Key: key, Msg: "no order of the operations explains what they returned and left behind.\nat first:\n" + init.text() + "history:\n" + w.story() + "in the end:\n" + final.text() + "longest explanation: " + best}}
	}
	for k := range useful {
		Probes[k]++
	}
	return Verdict{Useful: len(useful) > 0, Label: labelOf(useful)}
}

type linOp struct {
	h        *Hist
	call     int
	ret      int
	optional bool // may have had no effect
}

// tryOp gives the states an operation may lead to.
func tryOp(h *Hist, st State) (next []State, why string) {
	if h.op.Kind == "tx" {
		return tryTx(h, st)
	}
	if h.out.gone || h.out.err != nil && h.faulted() {
		if isRead(h.op.Kind) {
			return []State{st}, ""
		}
		e := h.c.write(st)
		return append([]State{e.next}, e.alts...), "" // having no effect is the caller's other choice
	}
	n, why := h.c.apply(st, h.out)
	if why != "" {
		return nil, why
	}
	if !isRead(h.op.Kind) {
		return append([]State{n}, h.c.write(st).alts...), ""
	}
	return []State{n}, ""
}

func tryTx(h *Hist, st State) ([]State, string) {
	cur := st
	for _, s := range h.sub {
		if s.out.err != nil && (s.skip || h.run.dfault || h.run.crashed) || h.run.crashed && s.out.panic != "" {
			break // the transaction is lost
		}
		n, why := s.c.apply(cur, s.out)
		if why != "" {
			return nil, fmt.Sprintf("%s: %s", s.op.text(), why)
		}
		if s.out.err != nil {
			break
		}
		cur = n
	}
	switch {
	case h.ended == "begin failed", h.ended == "rollback":
		return []State{st}, ""
	case h.run.crashed:
		if len(h.sub) == len(h.op.Ops) {
			return []State{st, cur}, ""
		}
		return []State{st}, ""
	case h.cerr != nil:
		if !h.run.dfault && badconns(h.run) == 0 {
			return nil, "commit failed without reason: " + h.cerr.Error()
		}
		return []State{st, cur}, ""
	}
	return []State{cur}, ""
}

// linearize searches an order of the operations, within the limits of when
// they were under way, that explains every result and the final state.
func linearize(hist []*Hist, init, final State) (bool, string) {
	var ops []*linOp
	for _, h := range hist {
		o := &linOp{h: h, call: h.call, ret: h.ret}
		if h.out.gone || h.out.err != nil && h.faulted() {
			o.optional = true
			if h.op.Kind == "tx" {
				o.optional = h.out.gone
			}
		}
		if o.optional && isRead(h.op.Kind) {
			continue
		}
		ops = append(ops, o)
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	seen := map[[2]uint64]bool{}
	want := final.text()
	budget := 100 << 20 // of text
	best, bestN := "", -1
	var rec func(mask uint, st State, path []string) bool
	rec = func(mask uint, st State, path []string) bool {
		txt := st.text()
		if budget -= 200 + len(txt); budget < 0 {
			return true // undecided
		}
		key := hash2(uint64(mask), txt)
		if seen[key] {
			return false
		}
		seen[key] = true
		if mask == 1<<len(ops)-1 {
			if txt == want {
				return true
			}
			if len(path) >= bestN {
				bestN, best = len(path), strings.Join(path, " ")+"; but in the end:\n"+st.diff(final)
			}
			return false
		}
		first := int(^uint(0) >> 1)
		for i, o := range ops {
			if mask&(1<<i) == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if mask&(1<<i) != 0 || o.call > first {
				continue
			}
			next, why := tryOp(o.h, st)
			if why != "" && len(path) > bestN {
				bestN, best = len(path), strings.Join(path, " ")+"; then "+o.h.op.text()+" "+clip(why, 600)
			}
			for _, n := range next {
				if rec(mask|1<<i, n, append(path[:len(path):len(path)], fmt.Sprintf("#%d", o.h.op.ID))) {
					return true
				}
			}
			if o.optional && rec(mask|1<<i, st, append(path[:len(path):len(path)], fmt.Sprintf("(#%d without effect)", o.h.op.ID))) {
				return true
			}
		}
		return false
	}
	ok := rec(0, init, nil)
	if budget < 0 {
		Probes["undecided"]++
	}
	return ok, best
}

// hash2 identifies a number and a text.
func hash2(n uint64, s string) [2]uint64 {
	h := sha256.New()
	fmt.Fprintf(h, "%d ", n)
	io.WriteString(h, s)
	b := h.Sum(nil)
	return [2]uint64{binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:])}
}
