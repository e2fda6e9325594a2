package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/wskfjtheqian/hbuf_golang/pkg/erro"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
	"github.com/wskfjtheqian/hbuf_golang/pkg/manage"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
	"vsim/schema"
	"vsim/ss/meta"
)

// callHeader carries the number of the call an execution belongs to.
const callHeader = "X-Sim-Call"

const rpcTimeout = 60 * time.Second

// rcall is a call of a client.
type rcall struct {
	op      *Op
	svc     *meta.Server
	m       *meta.Method
	run     *OpRun
	client  int
	req     reflect.Value
	reqF    map[string]Val
	resp    reflect.Value
	hasResp bool
	err     error
	panics  string
	gone    bool
	begun   bool
	ended   bool
	inv     int
	used    map[int]bool
	hit     map[string]bool
	trouble []string // what happened that may make the call fail
	execs   []*rexec
	looks   []rlook
	got     any // what looking the service up gave
}

// rexec is one execution of a method.
type rexec struct {
	svc, method string
	req         map[string]Val
	tags        map[string]any
	resp        map[string]Val
	done        bool
	err         error
}

// rlook is a lookup of a service and what the registry gave.
type rlook struct {
	svc   string
	state string
}

// rpcWorld is the network, the servers and the registry.
type rpcWorld struct {
	*World
	calls   []*rcall
	byID    map[int]*rcall
	servers []*rserver
	reg     map[string]*rentry // by the name on the wire
	regName map[string]string  // of each service type
	impls   map[string]any
	viol    *Viol
	strays  int
	stubs   map[string]any
}

type rserver struct {
	n       *Node
	idx     int
	died    time.Time
	missing map[string]bool // service.method that this server does not know
	dflt    map[string]bool // services whose implementation is the stand-in
}

type rentry struct {
	svc    string
	state  string // absent, local, default, remote, remotedefault, wrong
	server int
}

func newRPC(w *World) *rpcWorld {
	rw := &rpcWorld{World: w, byID: map[int]*rcall{}, reg: map[string]*rentry{}, regName: map[string]string{}, impls: map[string]any{}, stubs: map[string]any{}}
	for _, s := range w.sc.Servers {
		k := w.sc.Pkg + "." + s.Type
		rw.impls[s.Type] = Services[k].Impl(rw.handle)
		rw.regName[s.Type] = Services[k].Router(rw.impls[s.Type]).GetName()
	}
	return rw
}

func (rw *rpcWorld) service(typ string) *Service { return Services[rw.sc.Pkg+"."+typ] }

// start starts server i, with everything registered it has.
func (rw *rpcWorld) start(v *rserver) {
	v.n = rw.newNode(v.idx)
	v.n.srv.PrefixFilter(func(ctx context.Context, d hbuf.Data, in *rpc.Filter, call rpc.FilterCall) (context.Context, hbuf.Data, error) {
		rw.pause("", time.Time{}, nil)
		return in.OnNext(&manage.Context{Context: ctx, Manage: &simManage{rw}}, d, call)
	})
	for _, s := range rw.sc.Servers {
		if v.missing[s.Type] {
			continue
		}
		impl := rw.impls[s.Type]
		if v.dflt[s.Type] {
			impl = rw.service(s.Type).Default()
		}
		r := rw.service(s.Type).Router(impl)
		for _, m := range s.Methods {
			if v.missing[s.Type+"."+m.Go] {
				for k := range r.GetInvoke() {
					if strings.HasSuffix(k, "/"+m.Wire) || k == m.Wire {
						delete(r.GetInvoke(), k)
					}
				}
			}
		}
		v.n.srv.Add(r)
	}
}

// server gives a running server, nil while it is down.
func (rw *rpcWorld) server(i int) *rserver {
	v := rw.servers[i%len(rw.servers)]
	if v.n.dead {
		if time.Since(v.died) < 20*time.Millisecond {
			return nil
		}
		rw.logf("%s starts again", v.n.name)
		rw.start(v)
	}
	return v
}

func (rw *rpcWorld) crash(v *rserver) {
	v.died = time.Now()
	v.n.crash()
}

// fault tells whether a fault is due at the n-th message of a call.
func (rw *rpcWorld) fault(c *rcall, n int, kind string) *Fault {
	if c == nil {
		return nil
	}
	for i := range c.op.Faults {
		f := &c.op.Faults[i]
		if f.N == n && f.Kind == kind && !c.used[i] {
			c.used[i] = true
			c.hit[kind] = true
			rw.fired[kind]++
			rw.logf("call %d: fault %s", c.op.ID, kind)
			return f
		}
	}
	return nil
}

// callOf finds the call a context belongs to.
func (rw *rpcWorld) callOf(ctx context.Context) *rcall {
	h, _ := rpc.GetHeader(ctx, callHeader)
	n, _ := strconv.Atoi(h)
	return rw.byID[n]
}

var errProcessGone = errors.New("the process is gone")

// simInvoke sends requests over the simulated network.
type simInvoke struct {
	rw     *rpcWorld
	server int
}

// simClient lets other tasks run right before and after the library's part of
// a call, as threads may.
type simClient struct {
	rw    *rpcWorld
	inner rpc.Client
}

// stub gives the generated client all tasks share.
func (rw *rpcWorld) stub(typ string, server int) any {
	k := fmt.Sprintf("%s@%d", typ, server)
	if rw.stubs[k] == nil {
		rw.stubs[k] = rw.service(typ).Client(rw.client(server))
	}
	return rw.stubs[k]
}

func (rw *rpcWorld) client(server int) rpc.Client {
	return &simClient{rw, rpc.NewJsonClient(&simInvoke{rw, server})}
}

func (x *simClient) Invoke(ctx context.Context, param hbuf.Data, name string, ni *rpc.ClientInvoke, id int64, ii *rpc.ClientInvoke) (hbuf.Data, error) {
	x.rw.pause("", time.Time{}, nil)
	d, err := x.inner.Invoke(ctx, param, name, ni, id, ii)
	x.rw.pause("", time.Time{}, nil)
	return d, err
}

type pending struct {
	done    bool
	timeout bool
	body    []byte
	err     error
}

func (x *simInvoke) Invoke(ctx context.Context, name string, in io.Reader, out io.Writer) error {
	rw := x.rw
	body, err := io.ReadAll(in)
	if err != nil {
		return err
	}
	c := rw.callOf(ctx)
	if c == nil {
		rw.strays++
		return errors.New("a call without a number")
	}
	me := rw.cur
	n := c.inv
	c.inv++
	bad := func(what string) { c.trouble = append(c.trouble, what) }
	crash := func(f *Fault) bool {
		if f == nil || me == nil || me.op != c.run {
			return false
		}
		c.run.crashed = true
		return true
	}
	rw.pause("call "+strconv.Itoa(c.op.ID)+" sends "+name, time.Time{}, nil)
	if rw.kill || me.node != nil && me.node.dead {
		return errProcessGone
	}
	if crash(rw.fault(c, n, "crash")) {
		return errProcessGone
	}
	if rw.fault(c, n, "refuse") != nil {
		bad("refused")
		return errors.New("connection refused")
	}
	v := rw.server(x.server)
	if v == nil {
		bad("server down")
		return errors.New("connection refused: the server is down")
	}
	p := &pending{}
	head := map[string][]string{}
	for k, l := range rpc.GetHeaders(ctx) {
		head[k] = append([]string{}, l...)
	}
	if f := rw.fault(c, n, "cutreq"); f != nil && len(body) > 0 {
		bad("request cut off")
		body = body[:f.Arg%len(body)]
	}
	if rw.fault(c, n, "lose") != nil {
		bad("request lost")
	} else {
		copies := 1
		if rw.fault(c, n, "dup") != nil {
			copies = 2
		}
		for i := 0; i < copies; i++ {
			var d time.Duration
			if f := rw.fault(c, n, "delay"); f != nil {
				d = time.Duration(f.Arg) * time.Millisecond
			}
			at := time.Now().Add(d)
			rw.Go(fmt.Sprintf("s%d.%d.%d", c.op.ID, n, i), func(t *Task) {
				rw.pause("request under way", at, nil)
				rw.serve(t, v, c, n, head, name, body, p)
			})
		}
	}
	if crash(rw.fault(c, n, "crashafter")) {
		return errProcessGone
	}
	rw.Go(fmt.Sprintf("t%d.%d", c.op.ID, n), func(t *Task) {
		rw.pause("", time.Now().Add(rpcTimeout), nil)
		p.timeout = true
	})
	rw.pause("call "+strconv.Itoa(c.op.ID)+" gets its answer", time.Time{}, func() bool {
		return p.done || p.timeout || me.node != nil && me.node.dead
	})
	if rw.kill || me.node != nil && me.node.dead {
		return errProcessGone
	}
	if !p.done {
		bad("no answer in time")
		p.done = true
		return errors.New("no answer")
	}
	if p.err != nil {
		return p.err
	}
	_, err = out.Write(p.body)
	return err
}

// serve is what a server does with a request, as its HTTP handler does.
func (rw *rpcWorld) serve(t *Task, v *rserver, c *rcall, n int, head map[string][]string, name string, body []byte, p *pending) {
	node := v.n
	t.node = node
	t.look = func(name, st string) { c.looks = append(c.looks, rlook{name, st}) }
	bad := func(what string) { c.trouble = append(c.trouble, what) }
	reset := func() bool {
		if !rw.kill && !node.dead {
			return false
		}
		bad("server crashed")
		if !p.done {
			p.done, p.err = true, errors.New("connection reset")
		}
		return true
	}
	if reset() {
		return
	}
	var out bytes.Buffer
	err := func() (err error) {
		defer func() {
			if e := recover(); e != nil {
				if rw.viol == nil {
					rw.viol = &Viol{Key: "server panics", Msg: fmt.Sprintf("the server panics on a request to %s with body %s: %v\n%s", name, clip(string(body), 300), e, frames(string(debug.Stack())))}
				}
				err = fmt.Errorf("panic: %v", e)
			}
		}()
		ctx := rpc.NewContext(context.Background())
		defer rpc.CloseContext(ctx)
		var ks []string
		for k := range head {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, x := range head[k] {
				rpc.SetHeader(ctx, k, x)
			}
		}
		return rpc.NewServerJson(node.srv).Invoke(ctx, "/"+name, bytes.NewReader(body), &out)
	}()
	rw.pause("answer", time.Time{}, nil)
	if f := rw.fault(c, n, "srvcrashafter"); f != nil && !node.dead {
		rw.crash(v)
	}
	if reset() {
		return
	}
	rep := out.Bytes()
	var rerr error
	if err != nil {
		if res, ok := err.(*rpc.Result); ok {
			rep, _ = json.Marshal(res)
		} else {
			rerr = errors.New("500 Internal Server Error")
		}
	}
	if rw.fault(c, n, "replylose") != nil {
		bad("answer lost")
		return
	}
	if rerr == nil {
		if f := rw.fault(c, n, "cut"); f != nil && len(rep) > 1 {
			bad("answer cut off")
			rep = rep[:1+f.Arg%(len(rep)-1)]
		}
		if err == nil {
			if rw.fault(c, n, "nodata") != nil {
				bad("answer without data")
				rep = []byte(`{"code":0,"msg":"Ok"}`)
			}
			if rw.fault(c, n, "wrongdata") != nil {
				bad("answer with wrong data")
				rep = []byte(`{"code":0,"msg":"Ok","data":["x"]}`)
			}
		}
	}
	if f := rw.fault(c, n, "replydelay"); f != nil {
		rw.pause("answer under way", time.Now().Add(time.Duration(f.Arg)*time.Millisecond), nil)
	}
	if p.done || p.timeout || rw.kill {
		return
	}
	p.done, p.body, p.err = true, rep, rerr
}

// handle is what every implementation of a service does.
func (rw *rpcWorld) handle(ctx context.Context, service, method string, req any) (any, error) {
	typ := strings.TrimPrefix(service, rw.sc.Pkg+".")
	c := rw.callOf(ctx)
	if c == nil {
		rw.strays++
		return nil, errors.New("an execution without a call")
	}
	e := &rexec{svc: typ, method: method, tags: map[string]any{}}
	rv := reflect.ValueOf(req)
	if !rv.IsNil() {
		e.req = fields(rv)
	}
	for _, k := range []string{"auth", "level", "path"} {
		if v, ok := rpc.GetTag(ctx, k); ok {
			e.tags[k] = v
		}
	}
	c.execs = append(c.execs, e)
	no := len(c.execs)
	rw.logf("call %d: %s.%s runs (%d)", c.op.ID, typ, method, no)
	t := rw.cur
	var v *rserver
	for _, x := range rw.servers {
		if t != nil && x.n == t.node {
			v = x
		}
	}
	if v != nil && !v.n.dead && rw.fault(c, 0, "srvcrash") != nil {
		rw.crash(v)
	}
	var until time.Time
	if f := rw.fault(c, 0, "slow"); f != nil {
		until = time.Now().Add(time.Duration(f.Arg) * time.Millisecond)
	}
	rw.pause("call "+strconv.Itoa(c.op.ID)+" works", until, nil)
	if rw.kill || v != nil && v.n.dead {
		return nil, errProcessGone
	}
	e.done = true
	end := c.op.End
	if end == "flaky" && no > 1 {
		end = ""
	}
	switch end {
	case "error", "flaky":
		e.err = fmt.Errorf("failure %d of call %d", no, c.op.ID)
	case "result":
		e.err = &rpc.Result{Code: 1 + c.op.ID%5, Msg: "no"}
	case "wrapped":
		e.err = erro.Wrap(&rpc.Result{Code: 7, Msg: "no"})
	}
	if e.err != nil {
		return nil, e.err
	}
	m := rw.method(typ, method)
	if m == nil || m.Result == "" {
		return nil, nil
	}
	p := reflect.New(Types[rw.sc.Pkg+"."+m.Result])
	rw.make(p, uint64(c.op.ID)*1000003+uint64(no)*7919+uint64(c.op.N), fmt.Sprintf("r%d.%d", c.op.ID, no))
	e.resp = fields(p)
	return p.Interface(), nil
}

func (rw *rpcWorld) method(typ, goName string) *meta.Method {
	s := rw.sc.Server(typ)
	if s == nil {
		return nil
	}
	for _, m := range s.Methods {
		if m.Go == goName {
			return m
		}
	}
	return nil
}

// make fills a value, so that it differs from all others if its type allows.
func (rw *rpcWorld) make(p reflect.Value, seed uint64, mark string) {
	r := schema.NewRng(seed)
	fill(r, p.Elem(), 2)
	n := 0
	for _, f := range leaves(p.Elem().Type()) {
		v := p.Elem().FieldByIndex(f.Index)
		if v.Kind() == reflect.Pointer && !v.IsNil() {
			v = v.Elem()
		}
		if v.Kind() == reflect.String && r.P(1, 2) {
			n++
			v.SetString(mark + "." + strconv.Itoa(n))
		}
	}
}

// simManage is the registry of services.
type simManage struct{ rw *rpcWorld }

func (s *simManage) Get(router rpc.ServerClient) any {
	rw := s.rw
	name := router.GetName()
	rw.pause("lookup of "+name, time.Time{}, nil)
	e := rw.reg[name]
	st := "absent"
	if e != nil {
		st = e.state
	}
	if t := rw.cur; t != nil && t.look != nil {
		t.look(name, st)
	}
	rw.logf("lookup of %s: %s", name, st)
	switch st {
	case "local":
		return rw.impls[e.svc]
	case "default":
		return rw.service(e.svc).Default()
	case "remote", "remotedefault":
		return rw.stub(e.svc, e.server)
	case "wrong":
		return &struct{ rpc.ServerClient }{}
	}
	return nil
}

// register changes what the registry says of a service.
func (rw *rpcWorld) register(op *Op) {
	states := []string{"absent", "local", "remote", "wrong", "default", "remotedefault"}
	st := states[op.N%len(states)]
	if st == "absent" {
		delete(rw.reg, rw.regName[op.Type])
	} else {
		e := &rentry{svc: op.Type, state: st, server: op.Node % len(rw.servers)}
		if st == "remotedefault" {
			e.server = len(rw.servers) - 1
		}
		rw.reg[rw.regName[op.Type]] = e
	}
	rw.logf("%s is %s now", op.Type, st)
}

// newRCall prepares a call.
func (rw *rpcWorld) newRCall(client int, op *Op) *rcall {
	c := &rcall{op: op, client: client, svc: rw.sc.Server(op.Type), used: map[int]bool{}, hit: map[string]bool{}, run: &OpRun{}}
	c.m = rw.method(op.Type, op.Method)
	if c.m == nil {
		panic("no method " + op.Type + "." + op.Method)
	}
	rw.calls = append(rw.calls, c)
	rw.byID[op.ID] = c
	return c
}

// invoke makes the call in the running task. With get the service is looked up.
func (c *rcall) invoke(rw *rpcWorld, t *Task, get bool) {
	c.begun = true
	t.op = c.run
	rw.mix(fmt.Sprintf("call %d", c.op.ID))
	defer func() {
		if c.run.crashed {
			c.gone = true
		}
		c.ended = true
		rw.logf("%s: %s", t.name, c.text())
		t.op, t.look = nil, nil
	}()
	defer func() {
		if e := recover(); e != nil {
			c.panics = fmt.Sprintf("%v\n%s", e, frames(string(debug.Stack())))
		}
	}()
	ctx := rpc.NewContext(context.Background())
	defer rpc.CloseContext(ctx)
	rpc.SetHeader(ctx, callHeader, strconv.Itoa(c.op.ID))
	var x any
	if get {
		ctx = &manage.Context{Context: ctx, Manage: &simManage{rw}}
		t.look = func(name, st string) { c.looks = append(c.looks, rlook{name, st}) }
		x = rw.service(c.op.Type).Get(ctx)
		c.got = x
		if x == nil || reflect.ValueOf(x).Kind() == reflect.Pointer && reflect.ValueOf(x).IsNil() {
			c.got = nil
			c.err = errors.New("nothing found")
			return
		}
	} else {
		x = rw.stub(c.op.Type, c.op.Node%len(rw.servers))
	}
	f := reflect.ValueOf(x).MethodByName(c.m.Go)
	out := f.Call([]reflect.Value{reflect.ValueOf(ctx), c.req})
	if e, _ := out[len(out)-1].Interface().(error); e != nil {
		c.err = e
	}
	if len(out) == 2 {
		c.resp, c.hasResp = out[0], !out[0].IsNil()
	}
}

func (c *rcall) text() string {
	s := fmt.Sprintf("call %d of %s.%s", c.op.ID, c.op.Type, c.op.Method)
	if c.op.End != "" {
		s += " (" + c.op.End + ")"
	}
	switch {
	case !c.ended && !c.begun:
		return s + ": not made"
	case c.gone:
		s += ": the client crashed"
	case c.panics != "":
		s += ": panics: " + c.panics
	case c.err != nil:
		s += ": error: " + clip(c.err.Error(), 120)
	case c.hasResp:
		s += ": answer " + clip(fmtFields(fields(c.resp)), 400)
	case c.m.Result != "":
		s += ": nil answer without error"
	default:
		s += ": done"
	}
	if len(c.trouble) > 0 {
		s += "; " + strings.Join(c.trouble, ", ")
	}
	for _, l := range c.looks {
		s += "; lookup " + l.svc + "=" + l.state
	}
	for i, e := range c.execs {
		s += fmt.Sprintf("; execution %d: %s.%s", i+1, e.svc, e.method)
		if !e.done {
			s += " cut short"
		} else if e.err != nil {
			s += " fails"
		} else {
			s += " succeeds"
		}
	}
	return s
}

func (rw *rpcWorld) calltext() string {
	var l []string
	for _, c := range rw.calls {
		l = append(l, c.text())
	}
	return strings.Join(l, "\n")
}
