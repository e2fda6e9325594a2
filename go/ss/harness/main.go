// Command harness simulates generated services; the vsim command builds it as
// a test binary, because only tests can put the clock and the goroutines of a
// run under control.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"vsim/schema"
)

// Viol is a violation.
type Viol struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

// Verdict is what judging a case gives.
type Verdict struct {
	Viol    *Viol
	Useful  bool
	Label   string
	Invalid bool
}

type prop struct {
	gen   func(r *schema.Rng, c *Case)
	judge func(c *Case) Verdict
}

var props = map[string]*prop{}

// Found is a violation with its case.
type Found struct {
	Viol
	Seed  uint64 `json:"seed"`
	Index uint64 `json:"index"`
	Case  *Case  `json:"case"`
	Hash  uint64 `json:"hash,omitempty"`
	Size0 int    `json:"size_before_minimising"`
	Size  int    `json:"size"`
}

// Result is what a worker reports.
type Result struct {
	Cases    int               `json:"cases"`
	Useful   int               `json:"useful"`
	Invalid  int               `json:"invalid"`
	Runs     int               `json:"runs"`
	Steps    int64             `json:"steps"`
	SimNS    int64             `json:"sim_ns"`
	Secs     float64           `json:"secs"`
	Labels   map[string]int    `json:"labels"`
	Fired    map[string]int    `json:"fired"`
	Probes   map[string]int    `json:"probes"`
	Hashes   []uint64          `json:"hashes"`
	Found    []*Found          `json:"found"`
	Digest   map[string]uint64 `json:"digest"`
	Unstable []string          `json:"unstable,omitempty"`
	Samples  []string          `json:"samples"`
}

var status int

func quit(n int) {
	status = n
}

func command(a []string) {
	if len(a) == 0 {
		fmt.Fprintln(os.Stderr, "usage: harness worker|replay|case ...")
		quit(2)
		return
	}
	switch a[0] {
	case "worker":
		worker(a[1:])
	case "replay":
		replay(a[1])
	case "case":
		showCase(a[1:])
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", a[0])
		quit(2)
	}
}

func genCase(id string, seed, idx uint64) *Case {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", id, seed, idx)))
	c := &Case{Prop: id}
	props[id].gen(schema.NewRng(binary.LittleEndian.Uint64(h[:8])), c)
	n := 0
	number(c, &n)
	return c
}

func number(c *Case, n *int) {
	for _, l := range c.Clients {
		for _, o := range l {
			*n++
			o.ID = *n
			for _, x := range o.Ops {
				*n++
				x.ID = *n
			}
		}
	}
}

func judge(c *Case) Verdict {
	digest = 1469598103934665603
	lastRec = nil
	return props[c.Prop].judge(c)
}

func worker(a []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Uint64("from", 0, "")
	stride := fs.Uint64("stride", 1, "")
	secs := fs.Float64("secs", 10, "")
	max := fs.Int("max", 0, "")
	out := fs.String("out", "", "")
	digests := fs.Int("digests", 40, "number of cases whose digest is reported")
	fs.Parse(a)
	if props[*id] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		quit(2)
		return
	}
	procs := 2
	fmt.Sscan(os.Getenv("VSIM_PROCS"), &procs)
	runtime.GOMAXPROCS(procs)
	start := time.Now()
	res := &Result{Labels: map[string]int{}, Fired: map[string]int{}, Digest: map[string]uint64{}}
	seen := map[string]int{}
	for i := *from; ; i += *stride {
		if *max > 0 && res.Cases >= *max {
			break
		}
		if *max == 0 && time.Since(start).Seconds() > *secs {
			break
		}
		c := genCase(*id, *seed, i)
		v := judge(c)
		res.Cases++
		if len(res.Digest) < *digests {
			res.Digest[fmt.Sprint(i)] = digest
		}
		if v.Invalid {
			res.Invalid++
			if os.Getenv("VSIM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "invalid", i, v.Label)
			}
		}
		if v.Useful {
			res.Useful++
			res.Labels[v.Label]++
			if len(res.Samples) < 3 {
				res.Samples = append(res.Samples, fmt.Sprintf("case %d: %s", i, describe(c, v)))
			}
		}
		if v.Viol == nil || seen[v.Viol.Key] > 0 || len(res.Found) >= 6 || *max > 0 {
			continue
		}
		key := v.Viol.Key
		again := judge(c)
		if again.Viol == nil || again.Viol.Key != key {
			res.Unstable = append(res.Unstable, fmt.Sprintf("case %d: %s: %s", i, key, clip(v.Viol.Msg, 300)))
			continue
		}
		seen[key]++
		f := &Found{Seed: *seed, Index: i, Size0: size(c)}
		min := minimise(c, again.Viol, 12*time.Second)
		mv := judge(min)
		if mv.Viol == nil {
			min, mv = c, v
		}
		f.Case, f.Viol, f.Size, f.Hash = min, *mv.Viol, size(min), digest
		res.Found = append(res.Found, f)
	}
	res.Runs, res.SimNS, res.Steps, res.Fired, res.Probes = Runs, SimNS, StepsTotal, FiredTotal, Probes
	for h := range Hashes {
		res.Hashes = append(res.Hashes, h)
	}
	res.Secs = time.Since(start).Seconds()
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(*out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		quit(2)
	}
}

func describe(c *Case, v Verdict) string {
	var l []string
	for i, ops := range c.Clients {
		for _, o := range ops {
			x := fmt.Sprintf("%d:%s", i, o.Kind)
			for _, s := range o.Ops {
				x += "," + s.Kind
			}
			for _, f := range o.Faults {
				x += fmt.Sprintf("!%s@%d", f.Kind, f.N)
			}
			l = append(l, x)
		}
	}
	return fmt.Sprintf("%s on %s; %d nodes; %s; %s", c.Kind, c.Pkg, c.Nodes, clip(strings.Join(l, " "), 300), v.Label)
}

func replay(file string) {
	b, err := os.ReadFile(file)
	f := &Found{}
	if err == nil {
		err = json.Unmarshal(b, f)
	}
	if err != nil || f.Case == nil {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		quit(2)
		return
	}
	v := judge(f.Case)
	if v.Viol == nil {
		fmt.Println("REPLAY holds")
		return
	}
	fmt.Printf("REPLAY key=%s digest=%d\n%s\nschedule and faults:\n%s\n", v.Viol.Key, digest, v.Viol.Msg, strings.Join(lastTrace, "\n"))
	if f.Hash != 0 && digest != f.Hash {
		fmt.Printf("REPLAY digest differs from the recorded one (%d)\n", f.Hash)
	}
	quit(1)
}

func showCase(a []string) {
	var seed, idx uint64
	fmt.Sscan(a[1], &seed)
	fmt.Sscan(a[2], &idx)
	c := genCase(a[0], seed, idx)
	v := judge(c)
	b, _ := json.MarshalIndent(c, "", " ")
	fmt.Println(string(b))
	fmt.Println(strings.Join(lastTrace, "\n"))
	fmt.Printf("%+v\n", v)
	if v.Viol != nil {
		fmt.Printf("%s\n%s\n", v.Viol.Key, v.Viol.Msg)
	}
}

func size(c *Case) int {
	n := 0
	for _, l := range c.Clients {
		n += 20
		for _, o := range l {
			n += opSize(o)
		}
	}
	for _, l := range c.Init {
		for _, r := range l {
			n += 10 + len(r)
		}
	}
	for _, x := range c.Sched.Choices {
		n++
		if x != 0 {
			n += 2
		}
	}
	if !c.Sched.Fixed {
		n += 50
	}
	return n
}

func opSize(o *Op) int {
	n := 30 + len(o.Args) + 10*len(o.Rows) + 10*len(o.Faults) + o.Many
	for _, r := range o.Rows {
		n += len(r)
	}
	for _, x := range o.Ops {
		n += opSize(x)
	}
	return n
}

func clone(c *Case) *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	d := &Case{}
	if err := json.Unmarshal(b, d); err != nil {
		panic(err)
	}
	return d
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

// minimise shrinks a case while it shows the same class of violation.
func minimise(c *Case, viol *Viol, limit time.Duration) *Case {
	end := time.Now().Add(limit)
	best := clone(c)
	changed := false
	try := func(change func(d *Case) bool) bool {
		if time.Now().After(end) {
			return false
		}
		d := clone(best)
		if !change(d) {
			return false
		}
		v := judge(d)
		if v.Viol != nil && v.Viol.Key == viol.Key {
			best = d
			changed = true
			return true
		}
		return false
	}
	shorten := func() {
		for blk := 32; blk >= 1; blk /= 4 {
			for i := len(best.Sched.Choices) - blk; i >= 0; i -= blk {
				try(func(d *Case) bool {
					z := false
					for k := i; k < i+blk; k++ {
						z = z || d.Sched.Choices[k] != 0
						d.Sched.Choices[k] = 0
					}
					return z
				})
			}
		}
		n := len(best.Sched.Choices)
		for n > 0 && best.Sched.Choices[n-1] == 0 {
			n--
		}
		if n < len(best.Sched.Choices) {
			try(func(d *Case) bool { d.Sched.Choices = d.Sched.Choices[:n]; return true })
		}
	}
	for round := 0; round < 6 && time.Now().Before(end); round++ {
		changed = false
		for i := len(best.Clients) - 1; i >= 0 && len(best.Clients) > 1; i-- {
			try(func(d *Case) bool { d.Clients[i] = nil; return len(best.Clients[i]) > 0 })
		}
		for i := len(best.Clients) - 1; i >= 0; i-- {
			for blk := 4; blk >= 1; blk /= 2 {
				for j := len(best.Clients[i]) - blk; j >= 0; j-- {
					if j+blk > len(best.Clients[i]) {
						continue
					}
					try(func(d *Case) bool {
						d.Clients[i] = append(d.Clients[i][:j:j], d.Clients[i][j+blk:]...)
						return true
					})
				}
			}
		}
		for _, n := range sortedKeys(best.Init) {
			try(func(d *Case) bool { delete(d.Init, n); return true })
			for j := len(best.Init[n]) - 1; j >= 0; j-- {
				try(func(d *Case) bool {
					d.Init[n] = append(d.Init[n][:j:j], d.Init[n][j+1:]...)
					return true
				})
			}
		}
		var each func(path []int, o *Op)
		get := func(d *Case, path []int) *Op {
			o := d.Clients[path[0]][path[1]]
			for _, k := range path[2:] {
				o = o.Ops[k]
			}
			return o
		}
		each = func(path []int, o *Op) {
			for k := len(o.Faults) - 1; k >= 0; k-- {
				try(func(d *Case) bool {
					x := get(d, path)
					x.Faults = append(x.Faults[:k:k], x.Faults[k+1:]...)
					return true
				})
			}
			for k := len(o.Ops) - 1; k >= 0; k-- {
				try(func(d *Case) bool {
					x := get(d, path)
					x.Ops = append(x.Ops[:k:k], x.Ops[k+1:]...)
					return true
				})
			}
			for k := len(o.Rows) - 1; k >= 0; k-- {
				try(func(d *Case) bool {
					x := get(d, path)
					x.Rows = append(x.Rows[:k:k], x.Rows[k+1:]...)
					return true
				})
			}
			for _, n := range sortedKeys(o.Args) {
				try(func(d *Case) bool { x := get(d, path); delete(x.Args, n); return true })
			}
			if o.Node != 0 {
				try(func(d *Case) bool { get(d, path).Node = 0; return true })
			}
			if o.Many > 0 {
				try(func(d *Case) bool { get(d, path).Many = 0; return true })
				for st := 512; st > 0; st /= 2 {
					try(func(d *Case) bool { x := get(d, path); x.Many -= st; return x.Many > 0 })
				}
			}
			if o.N > 1 {
				try(func(d *Case) bool { get(d, path).N = 1; return true })
				try(func(d *Case) bool { get(d, path).N /= 2; return true })
			}
			o = get(best, path)
			for k := range o.Ops {
				each(append(append([]int{}, path...), k), o.Ops[k])
			}
		}
		for i := range best.Clients {
			for j := range best.Clients[i] {
				each([]int{i, j}, best.Clients[i][j])
			}
		}
		if best.Sched.Lat != 0 {
			try(func(d *Case) bool { d.Sched.Lat = 0; return true })
		}
		if best.Rand != 0 {
			try(func(d *Case) bool { d.Rand = 0; return true })
		}
		if !best.Sched.Fixed {
			judge(best)
			rec := append([]int{}, lastRec...)
			try(func(d *Case) bool { d.Sched.Fixed, d.Sched.Choices = true, rec; return true })
		}
		if best.Sched.Fixed {
			shorten()
		}
		if !changed {
			break
		}
	}
	return best
}
