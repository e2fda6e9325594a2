package main

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"testing/synctest"
	"time"

	"vsim/schema"
)

// Sched says how the scheduler decides.
type Sched struct {
	Seed    uint64 `json:"seed,omitempty"`
	Kind    string `json:"kind,omitempty"`    // random, sticky, pct
	Depth   int    `json:"depth,omitempty"`   // change points of pct
	Lat     int    `json:"lat,omitempty"`     // longest latency of a step in microseconds
	Choices []int  `json:"choices,omitempty"` // decisions instead of drawing them; past the end the running task goes on
	Fixed   bool   `json:"fixed,omitempty"`   // use Choices
}

// Fault is injected at the n-th request an operation makes.
type Fault struct {
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
}

// Task is a simulated thread of control.
type Task struct {
	id     int
	name   string
	wake   chan struct{}
	parked bool
	done   bool
	at     string
	until  time.Time   // not before
	ready  func() bool // nil: always
	prio   uint64
	node   *Node
	op     *OpRun
	look   func(name, state string)
	panics string
}

// OpRun is an operation under way.
type OpRun struct {
	seam    int
	faults  []Fault
	crashed bool
	queries map[string]int // statements executed, by table and kind
	hit     []string       // faults that fired
	redis   int            // requests to the cache
	rfault  bool           // a cache fault fired
	dfault  bool           // a database fault fired
}

// Sim is one simulated run.
type Sim struct {
	cfg     Sched
	r       *schema.Rng
	tasks   []*Task
	cur     *Task
	last    *Task
	nch     int
	rec     []int
	hash    uint64
	steps   int
	start   time.Time
	fired   map[string]int
	trace   []string
	kill    bool
	trouble string
	change  map[int]bool
	db      *SimDB
	redis   *SimRedis
	nodes   []*Node
	onStep  func()
	maxStep int
}

// cur is the running simulation, for the SQL driver.
var curSim *Sim

var verbose bool

// NewSim makes a simulation; it must run inside a synctest bubble.
func NewSim(cfg Sched) *Sim {
	s := &Sim{cfg: cfg, r: schema.NewRng(cfg.Seed ^ 0x5eed), fired: map[string]int{}, start: time.Now(), hash: 14695981039346656037, change: map[int]bool{}, maxStep: 6000}
	for i := 0; i < cfg.Depth; i++ {
		s.change[s.r.N(120)] = true
	}
	return s
}

func (s *Sim) mix(x string) {
	h := fnv.New64a()
	h.Write([]byte(x))
	s.hash = (s.hash ^ h.Sum64()) * 1099511628211
}

func (s *Sim) logf(f string, a ...any) {
	x := fmt.Sprintf("%10.6f ", time.Since(s.start).Seconds()) + fmt.Sprintf(f, a...)
	s.mix(x)
	if len(s.trace) < 2000 {
		s.trace = append(s.trace, x)
	}
}

// Go starts a task.
func (s *Sim) Go(name string, f func(t *Task)) *Task {
	t := &Task{id: len(s.tasks), name: name, wake: make(chan struct{}), parked: true, at: "start", prio: s.r.U64()>>8 + 1<<40}
	s.tasks = append(s.tasks, t)
	go func() {
		<-t.wake
		defer func() {
			if e := recover(); e != nil {
				t.panics = fmt.Sprintf("%v\n%s", e, frames(string(debug.Stack())))
			}
			t.done = true
		}()
		if !s.kill {
			f(t)
		}
	}()
	return t
}

// frames keeps the interesting lines of a stack.
func frames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "vsim/out/") || strings.Contains(l, "hbuf_golang/pkg") || strings.Contains(l, "/out/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// pause parks the running task until the scheduler picks it again.
func (s *Sim) pause(at string, until time.Time, ready func() bool) {
	t := s.cur
	if t == nil || s.kill {
		return
	}
	t.at, t.until, t.ready = at, until, ready
	t.parked = true
	<-t.wake
}

// Point is where the running task asks something of the outside world. It
// returns the fault to be injected.
func (s *Sim) Point(at string, ready func() bool, kinds string) *Fault {
	t := s.cur
	if t == nil {
		return &Fault{Kind: "gone"}
	}
	s.pause(at, time.Time{}, ready)
	if s.kill || t.node != nil && t.node.dead || t.op != nil && t.op.crashed {
		return &Fault{Kind: "gone"}
	}
	if t.op == nil {
		return nil
	}
	n := t.op.seam
	t.op.seam++
	for i := range t.op.faults {
		f := &t.op.faults[i]
		if f.N != n || !strings.Contains(" "+kinds+" ", " "+f.Kind+" ") {
			continue
		}
		s.fired[f.Kind]++
		t.op.hit = append(t.op.hit, f.Kind)
		s.logf("%s: fault %s at %s", t.name, f.Kind, at)
		switch f.Kind {
		case "slow":
			s.pause(at+" (stalled)", time.Now().Add(time.Duration(f.Arg)*time.Millisecond), ready)
			if s.kill || t.node != nil && t.node.dead || t.op.crashed {
				return &Fault{Kind: "gone"}
			}
			continue
		case "crash":
			t.op.crashed = true
			if t.node != nil {
				t.node.crash()
			}
			return &Fault{Kind: "gone"}
		}
		return f
	}
	return nil
}

// Sleep lets simulated time pass for the running task.
func (s *Sim) Sleep(d time.Duration) {
	s.pause("sleep", time.Now().Add(d), nil)
}

func (s *Sim) choose(rs []*Task) *Task {
	// the task that ran last comes first
	for i, t := range rs {
		if t == s.last {
			copy(rs[1:i+1], rs[:i])
			rs[0] = t
			break
		}
	}
	if len(rs) == 1 {
		return rs[0]
	}
	i := 0
	n := s.nch
	s.nch++
	switch {
	case s.cfg.Fixed:
		if n < len(s.cfg.Choices) {
			i = s.cfg.Choices[n] % len(rs)
		}
	case s.cfg.Kind == "sticky":
		if rs[0] != s.last || s.r.P(1, 4) {
			i = s.r.N(len(rs))
		}
	case s.cfg.Kind == "pct":
		if s.change[n] && s.last != nil {
			s.last.prio = uint64(1000 - n)
		}
		for k, t := range rs {
			if t.prio > rs[i].prio {
				i = k
			}
		}
	default:
		i = s.r.N(len(rs))
	}
	s.rec = append(s.rec, i)
	return rs[i]
}

// Run schedules until every task has ended.
func (s *Sim) Run() {
	for {
		synctest.Wait()
		s.cur = nil
		if s.onStep != nil {
			s.onStep()
		}
		var rs, waiting []*Task
		live := false
		now := time.Now()
		for _, t := range s.tasks {
			if t.done {
				continue
			}
			live = true
			if !t.parked {
				// blocked in the library: nothing may
				s.fail("task %s is blocked outside the simulator (after %s)", t.name, t.at)
				return
			}
			if t.ready != nil && !t.ready() {
				waiting = append(waiting, t)
				continue
			}
			if t.until.After(now) {
				waiting = append(waiting, t)
				continue
			}
			rs = append(rs, t)
		}
		if !live {
			return
		}
		if s.steps >= s.maxStep {
			s.fail("more than %d steps", s.maxStep)
			return
		}
		if len(rs) == 0 {
			var min time.Time
			for _, t := range waiting {
				if t.until.After(now) && (t.ready == nil || t.ready()) && (min.IsZero() || t.until.Before(min)) {
					min = t.until
				}
			}
			if min.IsZero() {
				var w []string
				for _, t := range waiting {
					w = append(w, t.name+" at "+t.at)
				}
				s.fail("deadlock: %s", strings.Join(w, ", "))
				return
			}
			time.Sleep(min.Sub(now))
			continue
		}
		t := s.choose(rs)
		s.steps++
		if s.cfg.Lat > 0 {
			time.Sleep(time.Duration(s.r.N(s.cfg.Lat)+1) * time.Microsecond)
			synctest.Wait()
		}
		if t.at != "" {
			s.logf("%s: %s", t.name, t.at)
		}
		t.parked = false
		s.cur, s.last = t, t
		t.wake <- struct{}{}
	}
}

// fail ends the run early and lets every task run off without effects.
func (s *Sim) fail(f string, a ...any) {
	s.trouble = fmt.Sprintf(f, a...)
	s.kill = true
	for i := 0; i < 100; i++ {
		live := false
		for _, t := range s.tasks {
			if t.done {
				continue
			}
			live = true
			if t.parked {
				t.parked = false
				s.cur = t
				t.wake <- struct{}{}
				synctest.Wait()
			}
		}
		s.cur = nil
		if !live {
			return
		}
	}
}
