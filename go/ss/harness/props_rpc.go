package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/shopspring/decimal"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
	"vsim/schema"
	"vsim/ss/meta"
)

func init() {
	props["C19"] = &prop{gen: genCalls, judge: judgeCalls}
	props["C20"] = &prop{gen: genTroubles, judge: judgeCalls}
	props["C21"] = &prop{gen: genRegistry, judge: judgeRegistry}
}

var netFaults = []string{"lose", "dup", "dup", "delay", "delay", "replylose", "replydelay", "cut", "cutreq", "nodata", "wrongdata", "refuse", "srvcrash", "srvcrashafter", "slow", "crash", "crashafter"}

func (g *G) netFault(o *Op, kinds ...string) {
	f := Fault{Kind: pick(g.r, kinds...)}
	switch f.Kind {
	case "slow", "delay", "replydelay":
		f.Arg = pick(g.r, 1, 10, 15, 30, 1000, 70000)
	case "cut", "cutreq":
		f.Arg = pick(g.r, 0, 1, 2, 5, 20, g.r.N(400))
	}
	o.Faults = append(o.Faults, f)
}

// genCalls makes clients that call services at the same time.
func genCalls(r *schema.Rng, c *Case) { genRPC(r, c, 1, 3, false) }

func genTroubles(r *schema.Rng, c *Case) { genRPC(r, c, 1, 2, true) }

func genRPC(r *schema.Rng, c *Case, num, den int, trouble bool) {
	g := newG(r, c, func(s *meta.Schema) bool { return len(s.Servers) > 0 })
	c.Kind = "calls"
	c.Nodes = 1 + r.N(3)
	g.sched(true)
	// Few services, so that calls of the same method meet.
	var ss []*meta.Server
	for range 1 + r.N(3) {
		ss = append(ss, g.sc.Servers[r.N(len(g.sc.Servers))])
	}
	var ms [][2]string
	for range 1 + r.N(6) {
		s := ss[r.N(len(ss))]
		ms = append(ms, [2]string{s.Type, s.Methods[r.N(len(s.Methods))].Go})
	}
	faulty := r.P(2, 3)
	for range 1 + r.N(5) {
		var ops []*Op
		for range 1 + r.N(4) {
			m := ms[r.N(len(ms))]
			o := &Op{Kind: "call", Type: m[0], Method: m[1], N: 1 + r.N(1<<20), Node: r.N(c.Nodes)}
			if r.P(1, 4) || trouble && r.P(1, 4) {
				o.End = pick(r, "error", "result", "wrapped", "flaky")
			}
			if trouble && r.P(1, 10) {
				o.Kind = "raw"
			} else if r.P(1, 40) {
				o.Kind = "nil"
			}
			if faulty && r.P(num, den) {
				for range 1 + r.N(2) {
					g.netFault(o, netFaults...)
				}
			}
			ops = append(ops, o)
		}
		c.Clients = append(c.Clients, ops)
	}
}

// setupServers starts the servers of a case. The last of several servers is
// an old one that lacks services and methods.
func (rw *rpcWorld) setupServers(n int, dflt map[string]bool) {
	for i := 0; i < n; i++ {
		v := &rserver{idx: i, missing: map[string]bool{}, dflt: dflt}
		if i != n-1 {
			v.dflt = nil
		}
		if i == n-1 && n > 1 && rw.c.Prop != "C21" {
			for k, s := range rw.sc.Servers {
				switch (int(rw.c.Rand) + k) % 3 {
				case 0:
					v.missing[s.Type] = true
				case 1:
					m := s.Methods[int(rw.c.Rand)%len(s.Methods)]
					v.missing[s.Type+"."+m.Go] = rw.hasKey(s, m)
				}
			}
		}
		rw.servers = append(rw.servers, v)
		rw.start(v)
	}
}

// hasKey says whether a method can be taken away from a server.
func (rw *rpcWorld) hasKey(s *meta.Server, m *meta.Method) bool {
	n := 0
	for k := range rw.service(s.Type).Router(rw.impls[s.Type]).GetInvoke() {
		if strings.HasSuffix(k, "/"+m.Wire) || k == m.Wire {
			n++
		}
	}
	return n == 1
}

func (rw *rpcWorld) makeReq(c *rcall) {
	p := reflect.New(Types[rw.sc.Pkg+"."+c.m.Param])
	if c.op.Kind == "nil" {
		p = reflect.Zero(p.Type())
	} else {
		rw.make(p, uint64(c.op.N), fmt.Sprintf("q%d", c.op.ID))
		c.reqF = fields(p)
	}
	c.req = p
}

// raw bodies no generated client sends.
func (rw *rpcWorld) rawBody(op *Op) []byte {
	r := schema.NewRng(uint64(op.N))
	switch r.N(10) {
	case 0:
		return nil
	case 1:
		return []byte("null")
	case 2:
		return []byte("[]")
	case 3:
		return []byte(`{"`)
	case 4:
		return []byte(strings.Repeat(`{"a":`, 50))
	case 5:
		return []byte(`"x"`)
	case 6:
		return []byte(`{}`)
	}
	// values of wrong types for every field
	t := Types[rw.sc.Pkg+"."+rw.method(op.Type, op.Method).Param]
	var l []string
	for _, f := range leaves(t) {
		if r.P(1, 2) {
			n := strings.Split(f.Tag.Get("json"), ",")[0]
			l = append(l, strconv.Quote(n)+":"+pick(r, "null", "1", "-1", "1e400", "\"\"", "\"x\"", "[]", "[null]", "{}", "{\"a\":1}", "true", "99999999999999999999", "0.5"))
		}
	}
	return []byte("{" + strings.Join(l, ",") + "}")
}

func judgeCalls(c *Case) Verdict {
	var rw *rpcWorld
	w := simulate(c, func(w *World) {
		rw = newRPC(w)
		rw.setupServers(max(1, c.Nodes), nil)
		for i, ops := range c.Clients {
			var cs []*rcall
			for _, op := range ops {
				cs = append(cs, rw.newRCall(i, op))
			}
			w.Go(fmt.Sprintf("c%d", i), func(t *Task) {
				for _, x := range cs {
					if w.kill {
						return
					}
					if x.op.Kind == "raw" {
						rw.raw(t, x)
						continue
					}
					rw.makeReq(x)
					x.invoke(rw, t, false)
				}
			})
		}
	})
	viol := rw.viol
	if viol == nil && w.trouble != "" {
		viol = &Viol{Key: "run does not end", Msg: w.trouble + "\n" + rw.calltext()}
	}
	useful := map[string]bool{}
	for _, x := range rw.calls {
		if viol != nil {
			break
		}
		viol = rw.check(x, useful)
	}
	return rw.verdict(viol, useful)
}

func (rw *rpcWorld) verdict(viol *Viol, useful map[string]bool) Verdict {
	if viol != nil && !strings.Contains(viol.Msg, "\ncall ") {
		viol = &Viol{Key: viol.Key, Msg: viol.Msg + "\n" + rw.calltext()}
	}
	for k := range useful {
		Probes[k]++
	}
	label := strings.Join(sortedKeys(useful), "+")
	return Verdict{Viol: viol, Useful: len(useful) > 0, Label: label}
}

// raw sends a request no generated client would send.
func (rw *rpcWorld) raw(t *Task, c *rcall) {
	c.begun, c.ended = true, true
	v := rw.server(c.op.Node)
	if v == nil {
		return
	}
	name := rw.regName[c.op.Type]
	// The route, as the router registers it.
	var routes []string
	for k := range rw.service(c.op.Type).Router(rw.impls[c.op.Type]).GetInvoke() {
		if strings.HasSuffix(k, "/"+c.m.Wire) || k == c.m.Wire {
			routes = append(routes, k)
		}
	}
	sort.Strings(routes)
	if len(routes) == 0 {
		return
	}
	c.hit["raw"] = true
	rw.fired["malformed request"]++
	p := &pending{}
	rw.serve(t, v, c, -1, map[string][]string{callHeader: {strconv.Itoa(c.op.ID)}}, name+"/"+routes[0], rw.rawBody(c.op), p)
	t.node, t.look = nil, nil
}

// same tells whether an answer is the one an execution gave.
func (c *rcall) same(e *rexec) bool {
	if !e.done || e.err != nil {
		return false
	}
	if c.m.Result == "" {
		return true
	}
	return c.hasResp && equalFields(fields(c.resp), e.resp)
}

func equalFields(a, b map[string]Val) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		x, ok := b[k]
		if !ok || fmtVal(v) != fmtVal(x) {
			return false
		}
	}
	return true
}

func diffFields(a, b map[string]Val) string {
	var l []string
	for _, k := range sortedKeys(a) {
		if fmtVal(a[k]) != fmtVal(b[k]) {
			l = append(l, fmt.Sprintf("%s is %s instead of %s", k, clip(fmtVal(b[k]), 200), clip(fmtVal(a[k]), 200)))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			l = append(l, k+" is unknown")
		}
	}
	return strings.Join(l, ", ")
}

// check judges a call made through a client (C19 and C20).
func (rw *rpcWorld) check(c *rcall, useful map[string]bool) *Viol {
	is19 := rw.c.Prop == "C19"
	is20 := rw.c.Prop == "C20"
	say := func(key, f string, a ...any) *Viol {
		return &Viol{Key: key, Msg: fmt.Sprintf("call %d of %s.%s: ", c.op.ID, c.op.Type, c.op.Method) + fmt.Sprintf(f, a...)}
	}
	if !c.begun {
		return nil
	}
	if c.panics != "" {
		return say("client panics", "the client panics: %s", c.panics)
	}
	if c.op.Kind == "raw" {
		useful["malformed request"] = true
		return nil
	}
	missing := false
	if v := rw.servers[c.op.Node%len(rw.servers)]; v.missing[c.op.Type] || v.missing[c.op.Type+"."+c.op.Method] {
		missing = true
	}
	if is19 {
		for _, e := range c.execs {
			if e.svc != c.op.Type || e.method != c.op.Method {
				return say("wrong method runs", "%s.%s runs", e.svc, e.method)
			}
			if c.reqF != nil && !equalFields(c.reqF, e.req) {
				return say("wrong request", "the method gets another request: %s", diffFields(c.reqF, e.req))
			}
			if v := tagsViol(c.m, e); v != "" {
				return say("wrong tags", "%s", v)
			}
		}
		if len(c.execs) > 1 && !c.hit["dup"] {
			return say("runs more than once", "the method runs %d times, no message was duplicated", len(c.execs))
		}
		if len(c.execs) > 0 && len(c.m.Tags) > 0 {
			useful["tags"] = true
		}
		if len(c.execs) > 0 && c.m.From != c.op.Type {
			useful["inherited method"] = true
		}
	}
	if c.gone || !c.ended {
		return nil
	}
	good := 0
	for _, e := range c.execs {
		if e.done && e.err == nil {
			good++
		}
	}
	if c.err == nil {
		if good == 0 {
			return say("success without an execution", "reported as done, but the method did not run without error")
		}
		if c.m.Result != "" && !c.hasResp {
			return say("empty result", "success without an answer")
		}
		ok := false
		for _, e := range c.execs {
			ok = ok || c.same(e)
		}
		if !ok {
			var d []string
			for _, e := range c.execs {
				if e.resp != nil {
					d = append(d, diffFields(e.resp, fields(c.resp)))
				}
			}
			return say("wrong answer", "the answer is none an execution of this call gave: %s", strings.Join(d, "; "))
		}
		if len(c.hit) > 0 {
			useful["success after a fault"] = true
		} else {
			useful["success"] = true
		}
		if len(c.execs) > 1 {
			useful["request ran twice"] = true
		}
		return nil
	}
	switch {
	case missing:
		useful["unknown method"] = true
	case len(c.trouble) > 0:
		useful["failure after a fault"] = true
	case good == len(c.execs) && (is19 || is20 && c.m.Result == "" && c.op.Kind != "nil"):
		return say("a call fails for no reason", "nothing went wrong, but the client gets the error %v", c.err)
	case good < len(c.execs):
		useful["failing method"] = true
	}
	return nil
}

func tagsViol(m *meta.Method, e *rexec) string {
	for _, k := range []string{"auth", "level", "path"} {
		want, is := m.Tags[k]
		got, has := e.tags[k]
		if is != has || is && fmt.Sprint(got) != want {
			return fmt.Sprintf("tag %s is %v (set: %v) instead of %q (set: %v)", k, got, has, want, is)
		}
	}
	return ""
}

// C21: services come and go.

var regStates = []string{"absent", "local", "remote", "wrong", "default", "remotedefault"}

func genRegistry(r *schema.Rng, c *Case) {
	g := newG(r, c, func(s *meta.Schema) bool { return len(s.Servers) > 0 })
	c.Kind = "registry"
	c.Nodes = 1 + r.N(3)
	g.sched(true)
	// A service with bound methods and what they are bound to, or any few.
	var gates, focus []*meta.Server
	for _, s := range g.sc.Servers {
		for _, m := range s.Methods {
			if m.Bind != nil {
				gates = append(gates, s)
				break
			}
		}
	}
	if len(gates) > 0 && !r.P(1, 4) {
		gt := gates[r.N(len(gates))]
		focus = append(focus, gt, gt, gt)
		seen := map[string]bool{}
		for _, m := range gt.Methods {
			if m.Bind != nil && !seen[m.Bind.Server] {
				seen[m.Bind.Server] = true
				focus = append(focus, g.sc.Server(m.Bind.Server))
			}
		}
	} else {
		for range 1 + r.N(3) {
			focus = append(focus, g.sc.Servers[r.N(len(g.sc.Servers))])
		}
	}
	reg := func(s *meta.Server) *Op {
		o := &Op{Kind: "reg", Type: s.Type, Node: r.N(c.Nodes)}
		bound := false
		for _, m := range s.Methods {
			bound = bound || m.Bind != nil
		}
		if bound {
			o.N = pick(r, 0, 1, 2, 3, 4, 4, 4, 5, 5, 5)
		} else {
			o.N = pick(r, 0, 1, 1, 1, 2, 2, 2, 3)
		}
		return o
	}
	var first []*Op
	for _, s := range focus {
		if !r.P(1, 5) {
			first = append(first, reg(s))
		}
	}
	c.Clients = append(c.Clients, first)
	var env []*Op
	if r.P(2, 3) {
		for range 1 + r.N(6) {
			switch r.N(4) {
			case 0:
				env = append(env, &Op{Kind: "sleep", N: pick(r, 1, 20, 100)})
			case 1:
				env = append(env, &Op{Kind: "crashserver", Node: r.N(c.Nodes)})
			default:
				env = append(env, reg(focus[r.N(len(focus))]))
			}
		}
	}
	c.Clients = append(c.Clients, env)
	faulty := r.P(1, 2)
	for range 1 + r.N(4) {
		var ops []*Op
		for range 1 + r.N(4) {
			s := focus[r.N(len(focus))]
			o := &Op{Kind: "call", Type: s.Type, Method: s.Methods[r.N(len(s.Methods))].Go, N: 1 + r.N(1<<20)}
			if r.P(1, 5) {
				o.End = pick(r, "error", "result", "wrapped")
			}
			if faulty && r.P(1, 3) {
				g.netFault(o, netFaults...)
				o.Faults[0].N = r.N(2)
			}
			ops = append(ops, o)
		}
		c.Clients = append(c.Clients, ops)
	}
}

func judgeRegistry(c *Case) Verdict {
	var rw *rpcWorld
	w := simulate(c, func(w *World) {
		rw = newRPC(w)
		dflt := map[string]bool{}
		for _, s := range w.sc.Servers {
			for _, m := range s.Methods {
				if m.Bind != nil {
					dflt[s.Type] = true
				}
			}
		}
		rw.setupServers(max(1, c.Nodes)+1, dflt)
		for i, ops := range c.Clients {
			if i == 0 {
				for _, op := range ops {
					rw.register(op)
				}
				continue
			}
			var cs []*rcall
			for _, op := range ops {
				if op.Kind == "call" {
					cs = append(cs, rw.newRCall(i, op))
				}
			}
			w.Go(fmt.Sprintf("c%d", i), func(t *Task) {
				for _, op := range ops {
					if w.kill {
						return
					}
					w.mix(fmt.Sprintf("op %d", op.ID))
					w.pause("", time.Time{}, nil)
					switch op.Kind {
					case "reg":
						rw.register(op)
					case "sleep":
						w.Sleep(time.Duration(op.N) * time.Millisecond)
					case "crashserver":
						if v := rw.servers[op.Node%len(rw.servers)]; !v.n.dead {
							rw.crash(v)
							w.fired["server crash"]++
						}
					}
					for _, x := range cs {
						if x.op == op {
							rw.makeChecked(x)
							x.invoke(rw, t, true)
						}
					}
				}
			})
		}
	})
	viol := rw.viol
	if viol == nil && w.trouble != "" {
		viol = &Viol{Key: "run does not end", Msg: w.trouble + "\n" + rw.calltext()}
	}
	useful := map[string]bool{}
	for _, x := range rw.calls {
		if viol != nil {
			break
		}
		viol = rw.checkLookup(x, useful)
	}
	return rw.verdict(viol, useful)
}

// makeChecked makes a request that follows all rules, or breaks just one.
func (rw *rpcWorld) makeChecked(c *rcall) {
	rw.makeReq(c)
	d := rw.sc.Data(c.m.Param)
	r := schema.NewRng(uint64(c.op.N) ^ 0xc0de)
	var ruled []*meta.DF
	for _, f := range d.Fields {
		if v := c.req.Elem().FieldByName(f.Go); v.Kind() == reflect.Slice && v.Len() == 0 || v.Kind() == reflect.Map && v.Len() == 0 {
			v.SetZero()
		}
		if len(f.Rules) > 0 {
			ruled = append(ruled, f)
		}
	}
	bad := -1
	if len(ruled) > 0 && r.P(1, 2) {
		bad = r.N(len(ruled))
	}
	for i, f := range ruled {
		v := c.req.Elem().FieldByName(f.Go)
		for range 60 {
			rw.candidate(r, f, v)
			if ruleBroken(rw.sc, f, v) == (i == bad) {
				break
			}
		}
	}
	c.reqF = fields(c.req)
}

// candidate gives a field a value around what its rules allow.
func (rw *rpcWorld) candidate(r *schema.Rng, f *meta.DF, v reflect.Value) {
	if v.Kind() == reflect.Pointer {
		if r.P(1, 6) {
			v.SetZero()
			return
		}
		p := reflect.New(v.Type().Elem())
		v.Set(p)
		v = p.Elem()
	}
	if v.Kind() == reflect.Slice {
		fill(r, v, 1)
		if v.Len() == 0 {
			v.SetZero()
		}
		return
	}
	var nums []float64
	for _, x := range f.Rules {
		for _, b := range []*float64{x.Min, x.Max} {
			if b != nil {
				nums = append(nums, *b, *b-1, *b+1)
			}
		}
	}
	nums = append(nums, 0, 10)
	n := nums[r.N(len(nums))]
	switch v.Interface().(type) {
	case decimal.Decimal:
		x := decimal.NewFromFloat(n)
		if r.P(1, 3) {
			x = x.Add(decimal.RequireFromString(pick(r, "0.01", "-0.01", "0.000001", "-0.000001")))
		}
		v.Set(reflect.ValueOf(x))
		return
	case hbuf.Time:
		v.Set(reflect.ValueOf(hbuf.Time(time.UnixMilli(int64(n)))))
		return
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if f.Type.Kind == "enum" {
			n = pick(r, 0.0, 1, 2, 3, 4, 5, 6, 9, 100, -1)
		}
		v.SetInt(int64(n))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(max(0, n)))
	case reflect.Float32, reflect.Float64:
		if r.P(1, 3) {
			n += pick(r, 0.25, -0.25)
		}
		v.SetFloat(n)
	case reflect.String:
		l := int(max(0, min(n, 12)))
		switch r.N(4) {
		case 0:
			v.SetString(strings.Repeat("7", l))
		case 1:
			v.SetString(strings.Repeat("ä", l))
		case 2:
			v.SetString(strings.Repeat("a_", l)[:l])
		default:
			v.SetString(pick(r, "12a", "a1", "x y", "測試", "123", "A", "ab", "", "007", "a\n"))
		}
	}
}

// ruleBroken says whether the value of a field breaks its rules.
func ruleBroken(sc *meta.Schema, f *meta.DF, v reflect.Value) bool {
	for i, x := range f.Rules {
		if f.Type.Null && i == 0 {
			empty := false
			switch v.Kind() {
			case reflect.Pointer, reflect.Slice, reflect.Map:
				empty = v.IsNil()
			}
			if v.Kind() == reflect.Pointer && !empty && v.Elem().Kind() == reflect.String {
				empty = v.Elem().Len() == 0
			}
			if empty {
				return !x.Null
			}
		}
		e := v
		if e.Kind() == reflect.Pointer {
			if e.IsNil() {
				e = reflect.Zero(e.Type().Elem())
			} else {
				e = e.Elem()
			}
		}
		if f.Type.Kind == "enum" {
			known := false
			for _, en := range sc.Enums {
				if en.Name == f.Type.Name {
					for _, it := range en.Items {
						known = known || int64(it) == e.Int()
					}
				}
			}
			if !known {
				return true
			}
			continue
		}
		if f.Type.Kind != "base" {
			continue
		}
		var n float64
		switch y := e.Interface().(type) {
		case decimal.Decimal:
			if x.Min != nil && y.LessThan(decimal.NewFromFloat(*x.Min)) || x.Max != nil && y.GreaterThan(decimal.NewFromFloat(*x.Max)) {
				return true
			}
			continue
		case hbuf.Time:
			n = float64(time.Time(y).UnixMilli())
		default:
			switch e.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				n = float64(e.Int())
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				n = float64(e.Uint())
			case reflect.Float32, reflect.Float64:
				n = e.Float()
			case reflect.String:
				n = float64(utf8.RuneCountInString(e.String()))
				if x.Reg != "" {
					if ok, err := regexp.MatchString(x.Reg, e.String()); err != nil || !ok {
						return true
					}
				}
			default:
				continue
			}
		}
		if x.Min != nil && n < *x.Min || x.Max != nil && n > *x.Max {
			return true
		}
	}
	return false
}

// invalid names a field that breaks the rules.
func (rw *rpcWorld) invalid(c *rcall) string {
	for _, f := range rw.sc.Data(c.m.Param).Fields {
		if len(f.Rules) > 0 && ruleBroken(rw.sc, f, c.req.Elem().FieldByName(f.Go)) {
			return f.Go
		}
	}
	return ""
}

func (rw *rpcWorld) checkLookup(c *rcall, useful map[string]bool) *Viol {
	say := func(key, f string, a ...any) *Viol {
		return &Viol{Key: key, Msg: fmt.Sprintf("call %d of %s.%s: ", c.op.ID, c.op.Type, c.op.Method) + fmt.Sprintf(f, a...)}
	}
	if !c.begun {
		return nil
	}
	if c.panics != "" {
		return say("panic", "panics: %s", c.panics)
	}
	if !c.ended || len(c.looks) == 0 {
		if c.ended && !c.gone {
			return say("no lookup", "the service was not looked up")
		}
		return nil
	}
	own := rw.regName[c.op.Type]
	state, changed := "", false
	for _, l := range c.looks {
		if l.svc == own {
			changed = changed || state != "" && state != l.state
			state = l.state
		}
	}
	if state == "" {
		return say("wrong lookup", "%s was looked up", c.looks[0].svc)
	}
	if c.got == nil {
		return say("nothing found", "the lookup gives nothing; the service is %s", state)
	}
	if changed {
		return nil
	}
	here := state == "local" || state == "default" || state == "remote" || state == "remotedefault"
	stand := !here || state == "default" || state == "remotedefault"
	b := c.m.Bind
	if b == nil || !stand {
		b = nil
	}
	wantSvc, wantMethod := c.op.Type, c.op.Method
	wantReq := c.reqF
	if b != nil {
		wantSvc, wantMethod = b.Server, b.Method
		wantReq = part(c.reqF, Types[rw.sc.Pkg+"."+b.Param])
	}
	dup := c.hit["dup"]
	good := 0
	for _, e := range c.execs {
		if e.svc != wantSvc || e.method != wantMethod {
			return say("wrong method runs", "%s.%s runs instead of %s.%s (the service is %s)", e.svc, e.method, wantSvc, wantMethod, state)
		}
		if !equalFields(wantReq, e.req) {
			return say("wrong request", "the method gets another request: %s", diffFields(wantReq, e.req))
		}
		if e.done && e.err == nil {
			good++
		}
	}
	if len(c.execs) > 1 && !dup {
		return say("runs more than once", "%s.%s runs %d times, no message was duplicated", wantSvc, wantMethod, len(c.execs))
	}
	if stand && b == nil {
		if len(c.execs) > 0 {
			return say("a stand-in does something", "the service is %s, but a method ran", state)
		}
		if c.err == nil && !c.gone {
			return say("a stand-in gives no error", "the service is %s, but the call succeeds", state)
		}
		if !here && (len(c.looks) > 1 || c.inv > 0) {
			return say("a stand-in does something", "the service is %s; %d lookups, %d messages", state, len(c.looks), c.inv)
		}
		useful["stand-in"] = true
		return nil
	}
	var target []rlook
	if b != nil {
		broken := rw.invalid(c)
		if broken != "" && !b.Verify {
			return nil // no rules are declared for the request as a whole
		}
		if broken != "" {
			if len(c.execs) > 0 {
				return say("an invalid request is passed on", "%s breaks its rules: %s", broken, fmtVal(c.reqF[broken]))
			}
			if c.err == nil && !c.gone {
				return say("an invalid request is accepted", "%s breaks its rules: %s", broken, fmtVal(c.reqF[broken]))
			}
			useful["invalid request"] = true
			return nil
		}
		for _, l := range c.looks {
			if l.svc == rw.regName[b.Server] {
				target = append(target, l)
			}
		}
		absent := len(target) > 0
		for _, l := range target {
			absent = absent && (l.state == "absent" || l.state == "wrong")
		}
		if absent {
			if c.err == nil && !c.gone {
				return say("forwarded to nowhere", "%s is %s, but the call succeeds", b.Server, target[0].state)
			}
			useful["forwarded to a stand-in"] = true
			return nil
		}
	}
	if c.gone {
		return nil
	}
	if c.err == nil {
		if good == 0 {
			return say("success without an execution", "reported as done, but %s.%s did not run without error", wantSvc, wantMethod)
		}
		if c.m.Result != "" && !c.hasResp {
			return say("empty result", "success without an answer")
		}
		ok := c.m.Result == "" || b != nil && b.Result == ""
		for _, e := range c.execs {
			if ok || !e.done || e.err != nil {
				continue
			}
			got := fields(c.resp)
			if b != nil {
				got = part(got, Types[rw.sc.Pkg+"."+b.Result])
			}
			ok = equalFields(got, e.resp)
		}
		if !ok {
			return say("wrong answer", "the answer is not the one the execution gave: %s; execution: %s", clip(fmtFields(fields(c.resp)), 500), clip(fmtFields(c.execs[0].resp), 500))
		}
		if b != nil {
			useful["forwarded"] = true
			if b.Verify {
				useful["forwarded after a check"] = true
			}
		} else {
			useful[state] = true
		}
		return nil
	}
	if len(c.trouble) > 0 {
		useful["trouble"] = true
		return nil
	}
	for _, l := range target {
		// a copy of the message that found nobody answers for the call
		if dup && l.state != "local" && l.state != "remote" {
			useful["forwarded to a stand-in"] = true
			return nil
		}
	}
	if good == len(c.execs) {
		return say("a call fails for no reason", "the service is %s, nothing went wrong, but the error is %v", state, c.err)
	}
	if b != nil {
		useful["forwarded error"] = true
	}
	return nil
}

// part takes the fields of a type out of those of a bigger one.
func part(m map[string]Val, t reflect.Type) map[string]Val {
	out := map[string]Val{}
	for _, f := range leaves(t) {
		out[f.Name] = m[f.Name]
	}
	return out
}
