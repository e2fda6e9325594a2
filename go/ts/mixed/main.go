//go:build js

// Node of a mixed cluster: generated Go clients and servers, driven by the
// simulator in the JavaScript around it.
package main

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall/js"
	"time"

	"github.com/shopspring/decimal"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

// Handler is what the implementations of all services do.
type Handler func(ctx context.Context, service, method string, req any) (any, error)

// Service is what is used of a generated service.
type Service struct {
	Client   func(c rpc.Client) any
	Router   func(s any) rpc.ServerRouter
	Impl     func(h Handler) any
	Get      func(ctx context.Context) any
	Default  func() any
	NotFound func() any
	Is       func(x any) bool
}

// Types and Services are filled in by the glue.
var (
	Types    = map[string]reflect.Type{}
	Services = map[string]*Service{}
)

//go:embed results.json
var resultsText []byte

var results = map[string]string{} // package.service.method to package.type

type tokenKey struct{}

var (
	sim     js.Value
	servers = map[string]*rpc.Server{}
	execs   = map[int]chan answer{}
	replies = map[int]chan answer{}
	nextRun int
)

type answer struct {
	err  string
	text string
}

func main() {
	if err := json.Unmarshal(resultsText, &results); err != nil {
		panic(err)
	}
	sim = js.Global().Get("simGo")
	def := func(name string, f func(a []js.Value)) {
		js.Global().Set(name, js.FuncOf(func(_ js.Value, a []js.Value) any {
			f(a)
			return nil
		}))
	}
	def("goServe", func(a []js.Value) {
		go serve(a[0].Int(), a[1].String(), a[2].String(), a[3].String(), a[4].String())
	})
	def("goCall", func(a []js.Value) {
		go call(a[0].Int(), a[1].String(), a[2].String(), a[3].String(), a[4].String())
	})
	def("goExecDone", func(a []js.Value) { give(execs, a) })
	def("goReply", func(a []js.Value) { give(replies, a) })
	def("goReset", func(a []js.Value) {
		for _, m := range []map[int]chan answer{execs, replies} {
			for k, c := range m {
				delete(m, k)
				c <- answer{err: "the run is over"}
			}
		}
	})
	select {}
}

func give(m map[int]chan answer, a []js.Value) {
	k := a[0].Int()
	if c := m[k]; c != nil {
		delete(m, k)
		c <- answer{a[1].String(), a[2].String()}
	}
}

func wait(m map[int]chan answer, k int, start func()) answer {
	c := make(chan answer, 1)
	m[k] = c
	start()
	return <-c
}

// serve answers a request like a server process that lacks some services.
func serve(token int, pkg, path, body, lacks string) {
	defer func() {
		if p := recover(); p != nil {
			sim.Call("panicked", token, fmt.Sprint(p))
		}
	}()
	s := servers[pkg+" "+lacks]
	if s == nil {
		s = rpc.NewServer()
		var names []string
		for n := range Services {
			if strings.HasPrefix(n, pkg+".") && !strings.Contains(","+lacks+",", ","+strings.TrimPrefix(n, pkg+".")+",") {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			s.Add(Services[n].Router(Services[n].Impl(handle)))
		}
		servers[pkg+" "+lacks] = s
	}
	// Which path a runtime library makes of a service and a method is its own
	// business; here the first and the last part count.
	route := path
	p := strings.Split(strings.Trim(path, "/"), "/")
	for k := range s.Router() {
		q := strings.Split(strings.Trim(k, "/"), "/")
		if q[0] == p[0] && q[len(q)-1] == p[len(p)-1] {
			route = k
		}
	}
	ctx := rpc.NewContext(context.WithValue(context.Background(), tokenKey{}, token))
	defer rpc.CloseContext(ctx)
	var out bytes.Buffer
	err := rpc.NewServerJson(s).Invoke(ctx, route, strings.NewReader(body), &out)
	if err != nil {
		var res *rpc.Result
		if !errors.As(err, &res) {
			res = &rpc.Result{Code: 500, Msg: err.Error()}
		}
		b, _ := json.Marshal(&rpc.Result{Code: res.Code, Msg: res.Msg})
		sim.Call("served", token, string(b))
		return
	}
	sim.Call("served", token, out.String())
}

// handle is one execution of a method; what it does is up to the simulator.
func handle(ctx context.Context, service, method string, req any) (any, error) {
	token, _ := ctx.Value(tokenKey{}).(int)
	nextRun++
	run := nextRun
	pkg, name, _ := strings.Cut(service, ".")
	a := wait(execs, run, func() {
		sim.Call("exec", token, run, name, method, text(reflect.ValueOf(req)))
	})
	if a.err != "" {
		return nil, errors.New(a.err)
	}
	t := results[pkg+"."+name+"."+method]
	if t == "" {
		return nil, nil
	}
	return make_(Types[pkg+"."+t], a.text).Interface(), nil
}

type transport struct{ token int }

func (t transport) Invoke(ctx context.Context, name string, in io.Reader, out io.Writer) error {
	b, err := io.ReadAll(in)
	if err != nil {
		return err
	}
	a := wait(replies, t.token, func() { sim.Call("send", t.token, name, string(b)) })
	if a.err != "" {
		return errors.New(a.err)
	}
	_, err = io.WriteString(out, a.text)
	return err
}

// call calls a method through a generated client.
func call(token int, pkg, service, method, req string) {
	defer func() {
		if p := recover(); p != nil {
			sim.Call("done", token, "panic: "+fmt.Sprint(p), "")
		}
	}()
	c := reflect.ValueOf(Services[pkg+"."+service].Client(rpc.NewJsonClient(transport{token})))
	m := c.MethodByName(method)
	v := make_(m.Type().In(1).Elem(), req)
	sim.Call("sent", token, text(v))
	ret := m.Call([]reflect.Value{reflect.ValueOf(rpc.NewContext(context.Background())), v})
	if err := ret[len(ret)-1]; !err.IsNil() {
		sim.Call("done", token, "error: "+fmt.Sprint(err.Interface()), "")
		return
	}
	if len(ret) == 1 {
		sim.Call("done", token, "", "")
		return
	}
	sim.Call("done", token, "", text(ret[0]))
}

var (
	decType  = reflect.TypeOf(decimal.Decimal{})
	timeType = reflect.TypeOf(hbuf.Time{})
)

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

func make_(t reflect.Type, s string) reflect.Value {
	var x any
	if err := json.Unmarshal([]byte(s), &x); err != nil {
		panic(err)
	}
	p := reflect.New(t)
	put(p.Elem(), x)
	return p
}

func text(v reflect.Value) string {
	b, err := json.Marshal(get(v))
	if err != nil {
		panic(err)
	}
	return string(b)
}

// put sets a Go value to a neutral one.
func put(v reflect.Value, x any) {
	if x == nil {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		put(v.Elem(), x)
		return
	case reflect.Slice:
		l := x.([]any)
		v.Set(reflect.MakeSlice(v.Type(), len(l), len(l)))
		for i := range l {
			put(v.Index(i), l[i])
		}
		return
	case reflect.Map:
		m := x.(map[string]any)
		v.Set(reflect.MakeMap(v.Type()))
		for k, e := range m {
			kv := reflect.New(v.Type().Key()).Elem()
			put(kv, k)
			ev := reflect.New(v.Type().Elem()).Elem()
			put(ev, e)
			v.SetMapIndex(kv, ev)
		}
		return
	case reflect.Struct:
		switch v.Type() {
		case decType:
			v.Set(reflect.ValueOf(decimal.RequireFromString(x.(string))))
			return
		case timeType:
			n, err := strconv.ParseInt(x.(string), 10, 64)
			if err != nil {
				panic(err)
			}
			v.Set(reflect.ValueOf(hbuf.Time(time.UnixMilli(n))))
			return
		}
		m := x.(map[string]any)
		for _, f := range leaves(v.Type()) {
			e, ok := m[norm(f.Name)]
			if !ok {
				panic("no value for " + v.Type().Name() + "." + f.Name)
			}
			put(v.FieldByIndex(f.Index), e)
		}
		return
	case reflect.Bool:
		v.SetBool(x.(bool))
		return
	case reflect.String:
		v.SetString(x.(string))
		return
	}
	s := x.(string)
	var err error
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var n int64
		n, err = strconv.ParseInt(s, 10, v.Type().Bits())
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var n uint64
		n, err = strconv.ParseUint(s, 10, v.Type().Bits())
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		var n float64
		n, err = strconv.ParseFloat(s, v.Type().Bits())
		v.SetFloat(n)
	default:
		panic("type " + v.Type().String())
	}
	if err != nil {
		panic(err)
	}
}

// get gives the neutral value of a Go value.
func get(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return get(v.Elem())
	case reflect.Slice:
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, get(v.Index(i)))
		}
		return out
	case reflect.Map:
		out := map[string]any{}
		for _, k := range v.MapKeys() {
			out[fmt.Sprint(get(k))] = get(v.MapIndex(k))
		}
		return out
	case reflect.Struct:
		switch x := v.Interface().(type) {
		case decimal.Decimal:
			return x.String()
		case hbuf.Time:
			return strconv.FormatInt(time.Time(x).UnixMilli(), 10)
		}
		out := map[string]any{}
		for _, f := range leaves(v.Type()) {
			out[norm(f.Name)] = get(v.FieldByIndex(f.Index))
		}
		return out
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'g', -1, 32)
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	}
	panic("type " + v.Type().String())
}

// leaves are the fields of a struct type with those of its parents.
func leaves(t reflect.Type) []reflect.StructField {
	var out []reflect.StructField
	for _, f := range reflect.VisibleFields(t) {
		if !f.Anonymous && f.IsExported() {
			out = append(out, f)
		}
	}
	return out
}
