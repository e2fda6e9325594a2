package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"reflect"
	"time"
	"unsafe"

	"github.com/garyburd/redigo/redis"
	"github.com/wskfjtheqian/hbuf_golang/pkg/cache"
	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

// Node is one process of the system. It loses everything when it crashes.
type Node struct {
	s      *Sim
	name   string
	dead   bool
	db     *db.Database
	cache  *cache.Cache
	pool   *redis.Pool
	srv    *rpc.Server
	conns  []*simConn
	rconns []*redisConn
}

func init() { log.SetOutput(io.Discard) }

// newNode starts a node; the name is new every time.
func (s *Sim) newNode(i int) *Node {
	n := &Node{s: s, name: fmt.Sprintf("n%d.%d", i, len(s.nodes))}
	s.nodes = append(s.nodes, n)
	str := func(x string) *string { return &x }
	n.db = db.NewDB()
	n.db.SetConfig(&db.Config{Type: str("simdb"), Username: &n.name, Password: str("x"), URL: str("db/")})
	n.cache = cache.NewCache()
	n.pool = &redis.Pool{MaxIdle: 8, MaxActive: 16, IdleTimeout: 100 * time.Millisecond, Dial: func() (redis.Conn, error) {
		c, err := n.dialRedis()
		if err != nil {
			return nil, err
		}
		return redis.NewConn(c, 0, 0), nil
	}}
	f := reflect.ValueOf(n.cache).Elem().FieldByName("pool")
	*(**redis.Pool)(unsafe.Pointer(f.UnsafeAddr())) = n.pool
	n.srv = rpc.NewServer()
	n.srv.PrefixFilter(n.db.OnFilter)
	n.srv.PrefixFilter(n.cache.OnFilter)
	return n
}

// ctx makes the context of a request.
func (n *Node) ctx() (context.Context, func()) {
	c := rpc.NewContext(context.Background())
	x, _, err := n.srv.GetFilter().OnNext(c, nil, func(ctx context.Context, d hbuf.Data) (context.Context, hbuf.Data, error) { return ctx, d, nil })
	if err != nil {
		panic(err)
	}
	return x, func() { rpc.CloseContext(x) }
}

// crash ends the node at once: nothing it does afterwards has an effect.
func (n *Node) crash() {
	if n.dead {
		return
	}
	n.dead = true
	n.s.logf("%s crashes", n.name)
	for _, c := range n.conns {
		c.lose()
	}
	for _, c := range n.rconns {
		c.dead = true
	}
}

// crashCur crashes the node of the running task.
func (s *Sim) crashCur() {
	t := s.cur
	if t == nil {
		return
	}
	if t.op != nil {
		t.op.crashed = true
	}
	if t.node != nil {
		t.node.crash()
	}
}

// shutdown ends everything the nodes left running.
func (s *Sim) shutdown() {
	s.kill = true
	for _, n := range s.nodes {
		n.db.SetConfig(nil)
		n.pool.Close()
	}
}
