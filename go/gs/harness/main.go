//go:build gensim

package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"vsim/gs/simos"
	"vsim/gs/simrt"
	"vsim/schema"
)

// Case is one simulated history of a property, complete: what it holds and the
// code decide the result.
type Case struct {
	Prop   string            `json:"prop"`
	Kind   string            `json:"kind"`
	Files  map[string]string `json:"files"`            // sources and other files before the build
	Links  map[string]string `json:"links,omitempty"`  // symbolic links
	Old    map[string]string `json:"old,omitempty"`    // what the output directory holds before
	Dirs   []string          `json:"dirs,omitempty"`   // directories present before
	RO     []string          `json:"ro,omitempty"`     // read-only files
	Out    string            `json:"out,omitempty"`    // output directory, absolute
	Build  B                 `json:"build"`            // the build
	Also   []B               `json:"also,omitempty"`   // builds beside or before it
	Cfg    simrt.Config      `json:"cfg"`              // schedule, map order, clock, ...
	Cfg2   *simrt.Config     `json:"cfg2,omitempty"`   // of the second run
	Faults []simos.Fault     `json:"faults,omitempty"` // injected faults
	Rounds []Round           `json:"rounds,omitempty"` // interrupted runs, one after the other
	Parse  *ParseSpec        `json:"parse,omitempty"`
	Solo   bool              `json:"solo,omitempty"`  // builds alone happen in processes of their own
	Valid  bool              `json:"valid,omitempty"` // the sources are valid
}

// Texts need not be UTF-8: JSON gets them escaped.
func armor(m map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		out[k] = armor1(v)
	}
	return out
}

func armor1(v string) string {
	if !utf8.ValidString(v) || strings.HasPrefix(v, "base64:") {
		return "base64:" + base64.StdEncoding.EncodeToString([]byte(v))
	}
	return v
}

func unarmor1(v string) string {
	if strings.HasPrefix(v, "base64:") {
		b, err := base64.StdEncoding.DecodeString(v[len("base64:"):])
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	return v
}

type plainCase Case

func (c *Case) MarshalJSON() ([]byte, error) {
	d := plainCase(*c)
	d.Files, d.Old = armor(c.Files), armor(c.Old)
	if c.Parse != nil {
		p := &ParseSpec{Split: c.Parse.Split}
		for _, t := range c.Parse.Tasks {
			var ops []POp
			for _, o := range t {
				o.Text = armor1(o.Text)
				ops = append(ops, o)
			}
			p.Tasks = append(p.Tasks, ops)
		}
		d.Parse = p
	}
	return json.Marshal(&d)
}

func (c *Case) UnmarshalJSON(b []byte) error {
	if err := json.Unmarshal(b, (*plainCase)(c)); err != nil {
		return err
	}
	for _, m := range []map[string]string{c.Files, c.Old} {
		for k, v := range m {
			m[k] = unarmor1(v)
		}
	}
	if c.Parse != nil {
		for _, t := range c.Parse.Tasks {
			for i := range t {
				t[i].Text = unarmor1(t[i].Text)
			}
		}
	}
	return nil
}

// Round is one interrupted run.
type Round struct {
	Faults []simos.Fault `json:"faults,omitempty"`
	Power  uint64        `json:"power,omitempty"`
}

// Viol is a violation.
type Viol struct {
	Key  string `json:"key"` // class of the violation
	Msg  string `json:"msg"`
	Keep bool   `json:"-"` // the oracle relies on what the sources are: do not shrink them
}

// Verdict is what judging a case gives.
type Verdict struct {
	Viol    *Viol
	Useful  bool   // the case exercised what the property is about
	Label   string // what it exercised
	Invalid bool   // the case is not usable
}

type prop struct {
	gen   func(r *schema.Rng, c *Case)
	judge func(c *Case) Verdict
	fresh bool // confirm and minimise in fresh processes only
}

var props = map[string]*prop{}

func caseRng(prop string, seed, idx uint64) *schema.Rng {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", prop, seed, idx)))
	return schema.NewRng(binary.LittleEndian.Uint64(h[:8]))
}

// Found is a violation with its case.
type Found struct {
	Viol
	Seed  uint64 `json:"seed"`
	Index uint64 `json:"index"`
	Case  *Case  `json:"case"`
	Hash  uint64 `json:"hash,omitempty"`
	Size0 int    `json:"size_before_minimising"`
	Size  int    `json:"size"`
}

// Result is what a worker reports.
type Result struct {
	Cases    int               `json:"cases"`
	Useful   int               `json:"useful"`
	Invalid  int               `json:"invalid"`
	Runs     int               `json:"runs"`
	Steps    int64             `json:"steps"`
	SimNS    int64             `json:"sim_ns"`
	Secs     float64           `json:"secs"`
	Labels   map[string]int    `json:"labels"`
	Fired    map[string]int    `json:"fired"`
	Hashes   []uint64          `json:"hashes"`
	Found    []*Found          `json:"found"`
	Digest   map[string]uint64 `json:"digest"` // of the first cases, for the determinism self-test
	Unstable []string          `json:"unstable,omitempty"`
	Samples  []string          `json:"samples"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness worker|replay|run1 ...")
		os.Exit(2)
	}
	initRace()
	debug.SetMaxStack(256 << 20)
	defer endRace()
	switch os.Args[1] {
	case "run1":
		run1()
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "case":
		showCase(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(2)
	}
}

var digest uint64

func genCase(id string, seed, idx uint64) *Case {
	c := &Case{Prop: id}
	props[id].gen(caseRng(id, seed, idx), c)
	return c
}

func judge(c *Case) Verdict {
	digest = 1469598103934665603
	return props[c.Prop].judge(c)
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Uint64("from", 0, "")
	stride := fs.Uint64("stride", 1, "")
	secs := fs.Float64("secs", 10, "")
	max := fs.Int("max", 0, "")
	out := fs.String("out", "", "")
	digests := fs.Int("digests", 4, "number of cases whose digest is reported")
	fs.Parse(args)
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	procs := 2
	fmt.Sscan(os.Getenv("VSIM_PROCS"), &procs)
	runtime.GOMAXPROCS(procs)
	start := time.Now()
	res := &Result{Labels: map[string]int{}, Fired: map[string]int{}, Digest: map[string]uint64{}}
	seen := map[string]int{}
	for i := *from; ; i += *stride {
		if *max > 0 && res.Cases >= *max {
			break
		}
		if *max == 0 && time.Since(start).Seconds() > *secs {
			break
		}
		c := genCase(*id, *seed, i)
		v := judge(c)
		res.Cases++
		if len(res.Digest) < *digests {
			res.Digest[fmt.Sprint(i)] = digest
		}
		if v.Invalid {
			res.Invalid++
			if os.Getenv("VSIM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "invalid", i, v.Label)
			}
		}
		if v.Useful {
			res.Useful++
			res.Labels[v.Label]++
			if len(res.Samples) < 3 {
				res.Samples = append(res.Samples, fmt.Sprintf("case %d: %s", i, describe(c, v)))
			}
		}
		if v.Viol == nil || seen[v.Viol.Key] >= 5 || len(res.Found) >= 6 {
			continue
		}
		seen[v.Viol.Key]++
		// Only what a fresh process shows as well is a violation.
		key := v.Viol.Key
		Isolated = true
		cv := judge(c)
		if cv.Viol == nil && !p.fresh {
			// State left by an earlier case: the fresh process is right.
			res.Unstable = append(res.Unstable, fmt.Sprintf("case %d: %s: %s", i, key, clip(v.Viol.Msg, 300)))
			Isolated = false
			continue
		}
		if cv.Viol == nil {
			res.Unstable = append(res.Unstable, fmt.Sprintf("case %d: %s: %s", i, key, clip(v.Viol.Msg, 300)))
			Isolated = false
			continue
		}
		v = cv
		if seen[cv.Viol.Key] >= 5 && cv.Viol.Key != key {
			Isolated = false
			continue
		}
		seen[key], seen[cv.Viol.Key] = 5, 5
		f := &Found{Seed: *seed, Index: i, Size0: size(c)}
		min := minimise(c, cv.Viol, 12*time.Second)
		mv := judge(min)
		if mv.Viol == nil {
			min, mv = c, v
		}
		f.Case, f.Viol, f.Size, f.Hash = min, *mv.Viol, size(min), digest
		Isolated = false
		res.Found = append(res.Found, f)
	}
	res.Runs, res.SimNS, res.Steps = Runs, SimNS, StepsTotal
	for k, n := range FiredTotal {
		res.Fired[k] = n
	}
	for h := range Hashes {
		res.Hashes = append(res.Hashes, h)
	}
	res.Secs = time.Since(start).Seconds()
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(*out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func describe(c *Case, v Verdict) string {
	var f []string
	for _, x := range c.Faults {
		f = append(f, fmt.Sprintf("%s@%d", x.Kind, x.At))
	}
	for _, r := range c.Rounds {
		for _, x := range r.Faults {
			s := fmt.Sprintf("%s@%d", x.Kind, x.At)
			if r.Power != 0 {
				s += "+power"
			}
			f = append(f, s)
		}
	}
	return fmt.Sprintf("%s; target %s; %d files; faults [%s]; %s", c.Kind, c.Build.Typ, len(c.Files), strings.Join(f, " "), v.Label)
}

func readCase(file string) (*Found, *Case) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f := &Found{}
	if err := json.Unmarshal(b, f); err != nil || f.Case == nil {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		os.Exit(2)
	}
	return f, f.Case
}

// replay judges a case again, in fresh processes. Exit status: 1 if it shows
// a violation, 0 if not.
func replay(args []string) {
	f, c := readCase(args[0])
	Isolated = true
	v := judge(c)
	if v.Viol == nil {
		fmt.Println("REPLAY holds")
		return
	}
	fmt.Printf("REPLAY key=%s digest=%d\n%s\n", v.Viol.Key, digest, v.Viol.Msg)
	if f.Hash != 0 && digest != f.Hash {
		fmt.Printf("REPLAY digest differs from the recorded one (%d)\n", f.Hash)
	}
	endRace()
	os.Exit(1)
}

func showCase(args []string) {
	var seed, idx uint64
	fmt.Sscan(args[1], &seed)
	fmt.Sscan(args[2], &idx)
	c := genCase(args[0], seed, idx)
	v := judge(c)
	b, _ := json.MarshalIndent(c, "", " ")
	fmt.Println(string(b))
	for n, t := range c.Files {
		fmt.Printf("--- %s\n%s\n", n, t)
	}
	fmt.Printf("%+v %+v\n", v, v.Viol)
}

func size(c *Case) int {
	n := len(c.Faults)*50 + len(c.Also)*200 + len(c.Rounds)*50
	for _, t := range c.Files {
		n += 20 + len(t)
	}
	for _, t := range c.Old {
		n += 20 + len(t)
	}
	if c.Parse != nil {
		for _, t := range c.Parse.Tasks {
			for _, o := range t {
				n += 20 + len(o.Text)
			}
		}
	}
	return n
}

func clone(c *Case) *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	d := &Case{}
	if err := json.Unmarshal(b, d); err != nil {
		panic(err)
	}
	return d
}

func keys[V any](m map[string]V) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

// minimise shrinks a case while it shows the same class of violation.
func minimise(c *Case, viol *Viol, limit time.Duration) *Case {
	key := viol.Key
	end := time.Now().Add(limit)
	best := clone(c)
	try := func(change func(d *Case) bool) bool {
		if time.Now().After(end) {
			return false
		}
		d := clone(best)
		if !change(d) {
			return false
		}
		v := judge(d)
		if v.Viol != nil && v.Viol.Key == key {
			best = d
			return true
		}
		return false
	}
	for round := 0; round < 4 && time.Now().Before(end); round++ {
		changed := false
		t := func(f func(d *Case) bool) {
			if try(f) {
				changed = true
			}
		}
		for i := len(best.Faults) - 1; i >= 0; i-- {
			t(func(d *Case) bool { d.Faults = append(d.Faults[:i:i], d.Faults[i+1:]...); return true })
		}
		for i := len(best.Rounds) - 1; i >= 0; i-- {
			if len(best.Rounds) > 1 {
				t(func(d *Case) bool { d.Rounds = append(d.Rounds[:i:i], d.Rounds[i+1:]...); return true })
			}
			if i < len(best.Rounds) && best.Rounds[i].Power != 0 {
				t(func(d *Case) bool { d.Rounds[i].Power = 0; return true })
			}
		}
		for i := len(best.Also) - 1; i >= 0; i-- {
			t(func(d *Case) bool { d.Also = append(d.Also[:i:i], d.Also[i+1:]...); return true })
		}
		for _, n := range keys(best.Old) {
			t(func(d *Case) bool { delete(d.Old, n); return true })
		}
		for _, n := range keys(best.Files) {
			if !viol.Keep {
				t(func(d *Case) bool { delete(d.Files, n); return true })
			}
		}
		for _, cfg := range []func(d *Case) *simrt.Config{func(d *Case) *simrt.Config { return &d.Cfg }, func(d *Case) *simrt.Config { return d.Cfg2 }} {
			for _, z := range []func(x *simrt.Config) bool{
				func(x *simrt.Config) bool { r := x.MapSeed != 0; x.MapSeed = 0; return r },
				func(x *simrt.Config) bool { r := x.MapSeed > 1; x.MapSeed = 1; return r },
				func(x *simrt.Config) bool { r := x.DirSeed != 0; x.DirSeed = 0; return r },
				func(x *simrt.Config) bool { r := x.IOSeed != 0; x.IOSeed = 0; return r },
				func(x *simrt.Config) bool { r := x.RandSeed != 0; x.RandSeed = 0; return r },
				func(x *simrt.Config) bool { r := x.Clock != 0; x.Clock = 0; return r },
				func(x *simrt.Config) bool { r := x.Host != ""; x.Host = ""; return r },
				func(x *simrt.Config) bool { r := x.Pid != 0; x.Pid = 0; return r },
				func(x *simrt.Config) bool { r := len(x.Env) != 0; x.Env = nil; return r },
				func(x *simrt.Config) bool { r := x.Preempt != 0; x.Preempt = 0; return r },
			} {
				t(func(d *Case) bool {
					x := cfg(d)
					return x != nil && z(x)
				})
			}
		}
		if best.Parse != nil {
			for i := len(best.Parse.Tasks) - 1; i >= 0; i-- {
				t(func(d *Case) bool {
					d.Parse.Tasks = append(d.Parse.Tasks[:i:i], d.Parse.Tasks[i+1:]...)
					return len(d.Parse.Tasks) > 0
				})
			}
			for i := len(best.Parse.Tasks) - 1; i >= 0; i-- {
				for j := len(best.Parse.Tasks[i]) - 1; j >= 0; j-- {
					t(func(d *Case) bool {
						d.Parse.Tasks[i] = append(d.Parse.Tasks[i][:j:j], d.Parse.Tasks[i][j+1:]...)
						return true
					})
				}
			}
		}
		// Lines of the sources, blocks first.
		for _, n := range keys(best.Files) {
			for blk := 64; blk >= 1 && !viol.Keep; blk /= 4 {
				for at := 0; ; {
					if time.Now().After(end) {
						break
					}
					lines := strings.SplitAfter(best.Files[n], "\n")
					if at >= len(lines) {
						break
					}
					to := at + blk
					if to > len(lines) {
						to = len(lines)
					}
					ok := try(func(d *Case) bool {
						d.Files[n] = strings.Join(lines[:at], "") + strings.Join(lines[to:], "")
						return d.Files[n] != best.Files[n]
					})
					if ok {
						changed = true
					} else {
						at = to
					}
				}
			}
		}
		for _, n := range keys(best.Old) {
			t(func(d *Case) bool { r := len(d.Old[n]) > 1; d.Old[n] = "x"; return r })
		}
		if !changed {
			break
		}
	}
	return best
}
