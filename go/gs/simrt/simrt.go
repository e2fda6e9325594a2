// Package simrt is the kernel of the compiler simulator: one cooperative
// scheduler decides which task runs next, every choice comes from seeded
// generators, and every step is counted. Instrumented code calls Y before each
// statement and Enter/Leave around each function.
//
// The package is compiled without race instrumentation and hands the turn from
// task to task through a plain variable, so that the race detector sees exactly
// the ordering the program itself establishes and none made by the scheduler.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

// Config holds everything that may vary between two runs of the same program.
type Config struct {
	SchedSeed uint64            `json:"sched_seed"`
	Preempt   int               `json:"preempt"` // mean number of steps between preemptions, 0: never
	MapSeed   uint64            `json:"map_seed"`
	DirSeed   uint64            `json:"dir_seed"`
	IOSeed    uint64            `json:"io_seed"`
	RandSeed  uint64            `json:"rand_seed"`
	Clock     int64             `json:"clock"` // unix nanoseconds at start
	Host      string            `json:"host"`
	Pid       int               `json:"pid"`
	CPUs      int               `json:"cpus"`
	Env       map[string]string `json:"env,omitempty"`
	MaxSteps  int64             `json:"max_steps"`
	MaxDepth  int               `json:"max_depth"`
}

type state uint8

const (
	stRunnable state = iota
	stBlocked        // waits until pred holds
	stSleeping       // waits until the clock reaches wake
	stExternal       // blocked in a real channel operation
	stWant           // back from a channel operation, wants the turn
	stDone
)

type task struct {
	id    int
	name  string
	state state
	pred  func() bool
	what  string
	wake  int64
	depth int
}

// World is one simulated process.
type World struct {
	Cfg     Config
	tasks   []*task
	cur     *task
	rng     *Rng
	mapRng  *Rng
	RandRng *Rng
	Steps   int64
	next    int64
	now     int64
	jumped  int64
	dead    bool
	started bool
	hash    uint64

	Exited    bool
	ExitCode  int
	Crashed   bool
	Panic     string // a panic that reached the top of a task
	PanicSite string
	PanicKind string
	Overrun   string // step or depth budget exceeded
	Deadlock  string
	Switches  int
	MapIters  int
	Spawned   int
	Args      []string
	OnDead    func()

	wg sync.WaitGroup
}

// W is the running world, nil outside a run.
var W *World

var turn int
var stepCount int64
var nextStop int64 = 1 << 62

// New makes a world and installs it.
func New(cfg Config) *World {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 20_000
	}
	w := &World{Cfg: cfg, now: cfg.Clock}
	w.rng = NewRng(cfg.SchedSeed ^ 0x5ced)
	w.mapRng = NewRng(cfg.MapSeed ^ 0x3a9)
	w.RandRng = NewRng(cfg.RandSeed ^ 0x7777)
	w.hash = 1469598103934665603
	W = w
	return w
}

// Event folds an event into the hash of the run.
func (w *World) Event(kind string, a, b int) {
	h := w.hash
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 1099511628211
	}
	h = (h ^ uint64(a)) * 1099511628211
	h = (h ^ uint64(b)) * 1099511628211
	w.hash = h
}

// EventString folds a string into the hash of the run.
func (w *World) EventString(s string) {
	h := w.hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	w.hash = h
}

// Hash identifies the run: schedule, operations and results.
func (w *World) Hash() uint64 { return w.hash }

// Now is the simulated time in unix nanoseconds.
func (w *World) Now() int64 { return w.now }

// Advance moves the simulated clock.
func (w *World) Advance(d int64) { w.now += d }

// Jump sets the clock to another time, which does not count as time passed.
func (w *World) Jump(d int64) {
	w.now += d
	w.jumped += d
}

// Passed is the simulated time that has passed.
func (w *World) Passed() int64 { return w.now - w.Cfg.Clock - w.jumped }

// Dead tells whether the process has exited or crashed.
func (w *World) Dead() bool { return w.dead }

func (w *World) setNext() {
	w.next = w.Cfg.MaxSteps
	if w.Cfg.Preempt > 0 && len(w.tasks) > 1 {
		n := stepCount + 1 + int64(w.rng.N(2*w.Cfg.Preempt))
		if n < w.next {
			w.next = n
		}
	}
	if w.dead {
		w.next = 0
	}
	nextStop = w.next
}

func (w *World) add(name string, f func()) *task {
	t := &task{id: len(w.tasks) + 1, name: name}
	w.tasks = append(w.tasks, t)
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		waitTurn(t)
		defer func() {
			e := recover()
			if e != nil && w.Panic == "" && !w.dead {
				w.Panic, w.PanicKind, w.PanicSite = describePanic(e)
				w.kill()
			}
			t.state = stDone
			w.schedule(t)
		}()
		if w.dead {
			runtime.Goexit()
		}
		f()
	}()
	return t
}

func describePanic(e any) (msg, kind, site string) {
	msg = fmt.Sprint(e)
	kind = msg
	if re, ok := e.(runtime.Error); ok {
		kind = re.Error()
	}
	// Numbers in messages (indexes) vary with the input.
	var sb strings.Builder
	num := false
	for _, c := range kind {
		if c >= '0' && c <= '9' {
			if !num {
				sb.WriteByte('N')
			}
			num = true
			continue
		}
		num = false
		sb.WriteRune(c)
	}
	kind = sb.String()
	if i := strings.Index(kind, "\n"); i > 0 {
		kind = kind[:i]
	}
	st := string(debug.Stack())
	// First function of the program below the panic.
	lines := strings.Split(st, "\n")
	seen := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true // the last one counts: others panicked again
			for _, k := range lines[i+1:] {
				if strings.HasPrefix(k, "panic(") {
					seen = false
				}
			}
			continue
		}
		if seen && strings.HasPrefix(l, "hbuf/") {
			site = l
			if i := strings.LastIndex(site, "("); i > 0 {
				site = site[:i]
			}
			break
		}
	}
	if i := strings.Index(st, "panic("); i > 0 {
		st = st[i:]
	}
	if len(st) > 2500 {
		st = st[:2500]
	}
	return msg + "\n" + st, kind, site
}

// Root adds a task before the run starts.
func (w *World) Root(name string, f func()) { w.add(name, f) }

// Run runs every task to its end.
func (w *World) Run() {
	W = w
	w.started = true
	stepCount = 0
	w.setNext()
	turn = 0
	w.schedule(nil)
	w.wg.Wait()
	w.Steps = stepCount
	nextStop = 1 << 62
	turn = 0
	W = nil
}

func waitTurn(t *task) {
	for turn != t.id {
		runtime.Gosched()
	}
	W.cur = t
}

// schedule picks the next task; me is the task that gives up the turn (it
// waits to be picked again unless it is done).
func (w *World) schedule(me *task) {
	var deadline time.Time
	idle := 0
	for {
		var ready []*task
		live, ext := 0, 0
		for _, t := range w.tasks {
			switch t.state {
			case stDone:
				continue
			case stRunnable, stWant:
				ready = append(ready, t)
			case stBlocked:
				if w.dead || t.pred() {
					ready = append(ready, t)
				}
			case stSleeping:
				if w.dead || t.wake <= w.now {
					ready = append(ready, t)
				}
			case stExternal:
				ext++
			}
			live++
		}
		if live == 0 {
			return
		}
		if len(ready) > 0 {
			t := ready[0]
			if len(ready) > 1 {
				t = ready[w.rng.N(len(ready))]
			}
			if t.state != stWant {
				t.state = stRunnable
			}
			if me != t {
				w.Switches++
				w.Event("sw", t.id, int(stepCount))
			}
			w.setNext()
			turn = t.id
			if me == nil || me.state == stDone {
				return
			}
			if me != t {
				waitTurn(me)
			}
			w.cur = me
			w.setNext()
			return
		}
		// Nobody can run. Give channel operations a moment, then let time
		// pass, then it is a deadlock.
		idle++
		if ext > 0 && idle < 2000 {
			runtime.Gosched()
			continue
		}
		var sl *task
		for _, t := range w.tasks {
			if t.state == stSleeping && (sl == nil || t.wake < sl.wake) {
				sl = t
			}
		}
		if sl != nil {
			w.now = sl.wake
			idle = 0
			continue
		}
		if ext > 0 {
			if deadline.IsZero() {
				deadline = time.Now().Add(3 * time.Second)
			}
			if time.Now().Before(deadline) {
				time.Sleep(50 * time.Microsecond)
				continue
			}
		}
		var what []string
		for _, t := range w.tasks {
			if t.state == stBlocked || t.state == stExternal {
				what = append(what, t.name+" waits for "+t.what)
			}
		}
		sort.Strings(what)
		w.Deadlock = strings.Join(what, "; ")
		w.kill()
		if ext > 0 {
			// They never come back; let Run end without them.
			for _, t := range w.tasks {
				if t.state == stExternal {
					t.state = stDone
					w.wg.Done()
				}
			}
		}
	}
}

func (w *World) kill() {
	if w.dead {
		return
	}
	w.dead = true
	nextStop = 0
	if w.OnDead != nil {
		w.OnDead()
	}
}

// Exit ends the process as os.Exit does.
//
//go:noinline
func Exit(code int) {
	w := W
	if w == nil {
		panic("exit outside a run")
	}
	if !w.dead {
		w.Exited, w.ExitCode = true, code
		w.Event("exit", code, 0)
		w.kill()
	}
	runtime.Goexit()
}

// Crash ends the process at this very point.
//
//go:noinline
func Crash() {
	w := W
	if !w.dead {
		w.Crashed = true
		w.Event("crash", 0, 0)
		w.kill()
	}
	runtime.Goexit()
}

// Y is a scheduling point.
//
//go:noinline
func Y() {
	stepCount++
	if stepCount >= nextStop {
		slow()
	}
}

//go:noinline
func slow() {
	w := W
	if w == nil || w.cur == nil || !w.started {
		return
	}
	if w.dead {
		runtime.Goexit()
	}
	if stepCount >= w.Cfg.MaxSteps {
		w.Overrun = fmt.Sprintf("more than %d steps", w.Cfg.MaxSteps)
		w.kill()
		runtime.Goexit()
	}
	w.schedule(w.cur)
	if w.dead {
		runtime.Goexit()
	}
}

// Enter counts the call depth.
//
//go:noinline
func Enter() {
	w := W
	if w != nil && w.cur != nil {
		w.cur.depth++
		if w.cur.depth > w.Cfg.MaxDepth && !w.dead {
			w.Overrun = fmt.Sprintf("recursion deeper than %d calls", w.Cfg.MaxDepth)
			w.kill()
			runtime.Goexit()
		}
	}
	Y()
}

//go:noinline
func Leave() {
	w := W
	if w != nil && w.cur != nil {
		w.cur.depth--
	}
}

// Go starts a task.
//
//go:noinline
func Go(f func()) {
	w := W
	if w == nil {
		go f()
		return
	}
	if w.dead {
		runtime.Goexit()
	}
	w.Spawned++
	name := "task"
	if w.cur != nil {
		name = w.cur.name + "/go"
	}
	w.add(name, f)
	w.Event("go", len(w.tasks), 0)
	w.setNext()
	Preempt()
}

// Preempt is a scheduling point at which a switch is likely.
//
//go:noinline
func Preempt() {
	w := W
	if w == nil || w.cur == nil {
		return
	}
	if w.dead {
		runtime.Goexit()
	}
	if len(w.tasks) > 1 && w.Cfg.Preempt > 0 && w.rng.P(1, 2) {
		w.schedule(w.cur)
		if w.dead {
			runtime.Goexit()
		}
	}
}

// Gosched gives up the turn.
//
//go:noinline
func Gosched() {
	w := W
	if w == nil || w.cur == nil {
		runtime.Gosched()
		return
	}
	w.schedule(w.cur)
	if w.dead {
		runtime.Goexit()
	}
}

// Block waits until pred holds. pred must not touch program state.
//
//go:noinline
func Block(what string, pred func() bool) {
	w := W
	if w == nil || w.cur == nil {
		if !pred() {
			panic("simrt: block outside a run: " + what)
		}
		return
	}
	if w.dead {
		runtime.Goexit()
	}
	if pred() {
		return
	}
	t := w.cur
	t.pred, t.what = pred, what
	t.state = stBlocked
	w.schedule(t)
	t.pred = nil
	if w.dead {
		runtime.Goexit()
	}
}

// Sleep lets simulated time pass.
//
//go:noinline
func Sleep(d int64) {
	w := W
	if w == nil || w.cur == nil {
		return
	}
	if w.dead {
		runtime.Goexit()
	}
	t := w.cur
	t.wake = w.now + d
	t.state = stSleeping
	w.schedule(t)
	if w.dead {
		runtime.Goexit()
	}
}

// Ext is a task about to block in a real channel operation.
type Ext struct{ t *task }

//go:noinline
func BlockBegin() Ext {
	w := W
	if w == nil || w.cur == nil {
		return Ext{}
	}
	if w.dead {
		runtime.Goexit()
	}
	t := w.cur
	t.what = "a channel operation"
	t.state = stExternal
	w.scheduleAway(t)
	return Ext{t}
}

// scheduleAway gives the turn away without waiting for it.
func (w *World) scheduleAway(me *task) {
	var ready []*task
	for _, t := range w.tasks {
		if t.state == stRunnable || t.state == stWant || t.state == stBlocked && t.pred() {
			ready = append(ready, t)
		}
	}
	if len(ready) > 0 {
		t := ready[w.rng.N(len(ready))]
		if t.state != stWant {
			t.state = stRunnable
		}
		w.setNext()
		w.Switches++
		turn = t.id
		return
	}
	// Someone has to watch for progress while everybody is blocked.
	turn = 0
	go func() { w.schedule(nil) }()
}

//go:noinline
func BlockEnd(e Ext) {
	if e.t == nil || e.t.state == stDone {
		if e.t != nil {
			select {}
		}
		return
	}
	e.t.state = stWant
	waitTurn(e.t)
	e.t.state = stRunnable
	if W.dead {
		runtime.Goexit()
	}
}

func Recv[T any](ch <-chan T) T {
	e := BlockBegin()
	v := <-ch
	BlockEnd(e)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	e := BlockBegin()
	v, ok := <-ch
	BlockEnd(e)
	return v, ok
}

func Send[T any](ch chan<- T, v T) {
	e := BlockBegin()
	ch <- v
	BlockEnd(e)
}

// ChanIt ranges over a channel.
type ChanIt[T any] struct{ ch <-chan T }

func ChanIter[T any](ch <-chan T) ChanIt[T] { return ChanIt[T]{ch} }
func ChanIter1[T any](ch <-chan T) (it ChanIt[T], v T) {
	return ChanIt[T]{ch}, v
}
func (c ChanIt[T]) Next(v *T) bool {
	x, ok := Recv2(c.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// Print stands for the builtins print and println.
var Stderr func(string)

//go:noinline
func Print(a ...any) {
	s := ""
	for _, x := range a {
		switch v := x.(type) {
		case string:
			s += v
		case error:
			s += "(" + "error" + ")"
		default:
			s += fmt.Sprint(v)
		}
	}
	if Stderr != nil {
		Stderr(s)
	}
}

//go:noinline
func Println(a ...any) {
	s := ""
	for i, x := range a {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprint(x)
	}
	if Stderr != nil {
		Stderr(s + "\n")
	}
}
