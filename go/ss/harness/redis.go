package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	"vsim/schema"
)

type redisVal struct {
	val string
	exp time.Time
	set time.Time
}

// SimRedis is the simulated cache server.
type SimRedis struct {
	s     *Sim
	r     *schema.Rng
	data  map[string]*redisVal
	conns []*redisConn
	down  bool // unreachable
	cmds  int
}

func NewSimRedis(s *Sim) *SimRedis {
	return &SimRedis{s: s, r: schema.NewRng(s.cfg.Seed ^ 0x4ed15), data: map[string]*redisVal{}}
}

func (r *SimRedis) get(k string) *redisVal {
	v := r.data[k]
	if v != nil && !v.exp.IsZero() && !v.exp.After(time.Now()) {
		delete(r.data, k)
		return nil
	}
	return v
}

// keys returns the keys there are, sorted.
func (r *SimRedis) keys() []string {
	var out []string
	for k := range r.data {
		if r.get(k) != nil {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// entries returns the cached results of a table.
func (r *SimRedis) entries(table string) []string {
	var out []string
	for _, k := range r.keys() {
		if strings.HasPrefix(k, "db:"+table+":") {
			out = append(out, k)
		}
	}
	return out
}

// locked says whether a table's invalidation lock is there.
func (r *SimRedis) locked(table string) bool { return r.get("db:cache:lock:"+table) != nil }

// flush loses everything.
func (r *SimRedis) flush() { r.data = map[string]*redisVal{} }

// evict loses some keys.
func (r *SimRedis) evict() {
	for _, k := range r.keys() {
		if r.r.P(1, 2) {
			delete(r.data, k)
		}
	}
}

// restart loses everything and every connection.
func (r *SimRedis) restart() {
	r.flush()
	for _, c := range r.conns {
		c.dead = true
	}
	r.conns = nil
}

// redisConn is one connection; what is written at once is executed at once.
type redisConn struct {
	r    *SimRedis
	node *Node
	out  bytes.Buffer
	in   []byte
	dead bool
}

// dialRedis opens a connection.
func (n *Node) dialRedis() (net.Conn, error) {
	s := n.s
	if s.kill {
		return nil, errGone
	}
	f := s.Point("cache connect", nil, "refuse slow crash")
	if f == nil && s.redis.down {
		f = &Fault{Kind: "refuse"}
	}
	if f != nil {
		if f.Kind == "refuse" && s.cur.op != nil {
			s.cur.op.rfault = true
		}
		return nil, fmt.Errorf("dial tcp: connection refused (%s)", f.Kind)
	}
	c := &redisConn{r: s.redis, node: n}
	n.rconns = append(n.rconns, c)
	s.redis.conns = append(s.redis.conns, c)
	return c, nil
}

var errReset = errors.New("connection reset by peer")

func (c *redisConn) Write(b []byte) (int, error) {
	s := c.r.s
	if c.dead || s.kill {
		// a pooled connection from before a restart
		if s.cur != nil && s.cur.op != nil {
			s.cur.op.rfault = true
		}
		return 0, errReset
	}
	c.in = append(c.in, b...)
	cmds, rest, err := parseResp(c.in)
	if err != nil {
		c.dead = true
		return 0, errReset
	}
	c.in = rest
	if len(cmds) == 0 {
		return len(b), nil
	}
	var names []string
	del := false
	for _, x := range cmds {
		n := strings.ToUpper(x[0])
		names = append(names, n)
		del = del || n == "DEL" || n == "UNLINK"
	}
	kinds := "reset lostreply evict flush restart slow crash crashafter"
	if !del {
		kinds += " rerr"
	}
	if names[0] == "GET" && len(cmds) == 1 {
		kinds += " foreign"
	}
	what := strings.Join(names, ",")
	if len(cmds[0]) > 1 {
		what += " " + shortKey(cmds[0][1])
	}
	f := s.Point("cache "+what, nil, kinds)
	var op *OpRun
	if s.cur != nil {
		op = s.cur.op
	}
	if op == nil {
		op = &OpRun{}
	}
	op.redis++
	if f == nil && c.r.down {
		f = &Fault{Kind: "reset"}
	}
	if f != nil {
		switch f.Kind {
		case "gone", "reset":
			op.rfault = op.rfault || f.Kind == "reset"
			c.dead = true
			return 0, errReset
		case "restart":
			op.rfault = true
			c.r.restart()
			c.dead = true
			return 0, errReset
		case "foreign":
			// an entry another version of the program has put there
			if v := c.r.get(cmds[0][1]); v != nil {
				op.rfault = true
				c.r.cmds++
				t := spoil(c.r.r, v.val)
				fmt.Fprintf(&c.out, "$%d\r\n%s\r\n", len(t), t)
				s.logf("redis %s -> %s", clip(strings.Join(cmds[0], " "), 200), clip(t, 200))
				return len(b), nil
			}
		case "flush":
			c.r.flush()
		case "evict":
			c.r.evict()
		case "rerr":
			op.rfault = true
			for range cmds {
				c.out.WriteString("-LOADING Redis is loading the dataset in memory\r\n")
			}
			return len(b), nil
		}
	}
	if c.dead {
		return 0, errReset
	}
	for _, x := range cmds {
		c.r.cmds++
		c.r.command(x, &c.out)
		s.logf("redis %s -> %s", clip(strings.Join(x, " "), 200), clip(strings.ReplaceAll(c.out.String(), "\r\n", " "), 60))
	}
	if f != nil && f.Kind == "lostreply" {
		op.rfault = true
		c.dead = true
		c.out.Reset()
	}
	if f != nil && f.Kind == "crashafter" {
		s.crashCur()
		return 0, errReset
	}
	return len(b), nil
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 && i+1 < len(k) {
		return k[i+1:]
	}
	return k
}

func (c *redisConn) Read(b []byte) (int, error) {
	if c.out.Len() > 0 {
		return c.out.Read(b)
	}
	if c.dead {
		return 0, errReset
	}
	return 0, io.ErrUnexpectedEOF
}

func (c *redisConn) Close() error                       { c.dead = true; return nil }
func (c *redisConn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *redisConn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *redisConn) SetDeadline(t time.Time) error      { return nil }
func (c *redisConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *redisConn) SetWriteDeadline(t time.Time) error { return nil }

// parseResp takes whole commands off the front of b.
func parseResp(b []byte) ([][]string, []byte, error) {
	var out [][]string
	for len(b) > 0 {
		line := func(p []byte) (string, []byte, bool) {
			i := bytes.Index(p, []byte("\r\n"))
			if i < 0 {
				return "", p, false
			}
			return string(p[:i]), p[i+2:], true
		}
		h, p, ok := line(b)
		if !ok {
			break
		}
		if len(h) < 2 || h[0] != '*' {
			return nil, nil, errors.New("protocol error")
		}
		n, err := strconv.Atoi(h[1:])
		if err != nil || n < 1 {
			return nil, nil, errors.New("protocol error")
		}
		var cmd []string
		for i := 0; i < n && ok; i++ {
			h, p, ok = line(p)
			if !ok {
				break
			}
			l, err := strconv.Atoi(strings.TrimPrefix(h, "$"))
			if err != nil || l < 0 {
				return nil, nil, errors.New("protocol error")
			}
			if len(p) < l+2 {
				ok = false
				break
			}
			cmd = append(cmd, string(p[:l]))
			p = p[l+2:]
		}
		if !ok {
			break
		}
		out = append(out, cmd)
		b = p
	}
	return out, append([]byte{}, b...), nil
}

func glob(pat, s string) bool {
	ok, err := path.Match(strings.ReplaceAll(pat, "/", "\x01"), strings.ReplaceAll(s, "/", "\x01"))
	return err == nil && ok
}

func (r *SimRedis) command(x []string, out *bytes.Buffer) {
	arg := func(i int) string {
		if i < len(x) {
			return x[i]
		}
		return ""
	}
	bulk := func(s string) { fmt.Fprintf(out, "$%d\r\n%s\r\n", len(s), s) }
	num := func(n int) { fmt.Fprintf(out, ":%d\r\n", n) }
	need := func(n int) bool {
		if len(x) < n {
			out.WriteString("-ERR wrong number of arguments\r\n")
			return false
		}
		return true
	}
	expire := func(v *redisVal, s string, unit time.Duration) bool {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			out.WriteString("-ERR value is not an integer or out of range\r\n")
			return false
		}
		v.exp = time.Now().Add(time.Duration(n) * unit)
		return true
	}
	switch strings.ToUpper(x[0]) {
	case "PING":
		out.WriteString("+PONG\r\n")
	case "AUTH", "SELECT":
		out.WriteString("+OK\r\n")
	case "GET":
		if !need(2) {
			return
		}
		if v := r.get(arg(1)); v != nil {
			bulk(v.val)
		} else {
			out.WriteString("$-1\r\n")
		}
	case "SET":
		if !need(3) {
			return
		}
		v := &redisVal{val: arg(2), set: time.Now()}
		for i := 3; i < len(x); i++ {
			switch strings.ToUpper(x[i]) {
			case "EX":
				i++
				if !expire(v, arg(i), time.Second) {
					return
				}
			case "PX":
				i++
				if !expire(v, arg(i), time.Millisecond) {
					return
				}
			case "NX":
				if r.get(arg(1)) != nil {
					out.WriteString("$-1\r\n")
					return
				}
			case "XX":
				if r.get(arg(1)) == nil {
					out.WriteString("$-1\r\n")
					return
				}
			default:
				out.WriteString("-ERR syntax error\r\n")
				return
			}
		}
		r.data[arg(1)] = v
		out.WriteString("+OK\r\n")
	case "SETEX":
		if !need(4) {
			return
		}
		v := &redisVal{val: arg(3), set: time.Now()}
		if expire(v, arg(2), time.Second) {
			r.data[arg(1)] = v
			out.WriteString("+OK\r\n")
		}
	case "SETNX":
		if !need(3) {
			return
		}
		if r.get(arg(1)) != nil {
			num(0)
			return
		}
		r.data[arg(1)] = &redisVal{val: arg(2), set: time.Now()}
		num(1)
	case "EXPIRE", "PEXPIRE":
		if !need(3) {
			return
		}
		v := r.get(arg(1))
		if v == nil {
			num(0)
			return
		}
		u := time.Second
		if strings.EqualFold(x[0], "PEXPIRE") {
			u = time.Millisecond
		}
		if expire(v, arg(2), u) {
			num(1)
		}
	case "TTL":
		v := r.get(arg(1))
		switch {
		case v == nil:
			num(-2)
		case v.exp.IsZero():
			num(-1)
		default:
			num(int(time.Until(v.exp) / time.Second))
		}
	case "EXISTS":
		n := 0
		for _, k := range x[1:] {
			if r.get(k) != nil {
				n++
			}
		}
		num(n)
	case "KEYS":
		if !need(2) {
			return
		}
		var ks []string
		for _, k := range r.keys() {
			if glob(arg(1), k) {
				ks = append(ks, k)
			}
		}
		fmt.Fprintf(out, "*%d\r\n", len(ks))
		for _, k := range ks {
			bulk(k)
		}
	case "DEL", "UNLINK":
		if !need(2) {
			return
		}
		n := 0
		for _, k := range x[1:] {
			if r.get(k) != nil {
				delete(r.data, k)
				n++
			}
		}
		num(n)
	default:
		fmt.Fprintf(out, "-ERR unknown command '%s'\r\n", x[0])
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// spoil changes one value of a JSON text to one that no type accepts.
func spoil(r *schema.Rng, t string) string {
	const bad = "[[0]]"
	var leaves [][2]int
	for i := 0; i < len(t); {
		b := t[i]
		j := i + 1
		switch {
		case b == '"':
			for j < len(t) && t[j] != '"' {
				if t[j] == '\\' {
					j++
				}
				j++
			}
			if j++; j < len(t) && t[j] == ':' { // a key
				i = j + 1
				continue
			}
		case strings.IndexByte("{}[],: \n\t", b) >= 0:
			i = j
			continue
		default:
			for j < len(t) && strings.IndexByte("{}[],: \n\t", t[j]) < 0 {
				j++
			}
		}
		if j > len(t) {
			j = len(t)
		}
		leaves = append(leaves, [2]int{i, j})
		i = j
	}
	if len(leaves) == 0 {
		return bad
	}
	l := leaves[len(leaves)-1]
	if r.P(1, 2) {
		l = leaves[r.N(len(leaves))]
	}
	return t[:l[0]] + bad + t[l[1]:]
}
