//go:build gensim

// Command harness runs the instrumented hbuf compiler under the simulator.
package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"

	"hbuf/pkg/build"
	"hbuf/pkg/dart"
	"hbuf/pkg/golang"
	"hbuf/pkg/java"
	ts "hbuf/pkg/typescript"
	"hbuf/zzmain"

	simflag "vsim/gs/shims/flag"
	"vsim/gs/simos"
	"vsim/gs/simrt"
)

// B is one build.
type B struct {
	Out  string   `json:"out,omitempty"`
	In   string   `json:"in,omitempty"`
	Typ  string   `json:"typ,omitempty"`
	Pack string   `json:"pack,omitempty"`
	CLI  []string `json:"cli,omitempty"` // run the command with these arguments instead
}

// Spec is one simulated process: everything it depends on.
type Spec struct {
	Files  map[string]string `json:"files"`
	Dirs   []string          `json:"dirs,omitempty"`
	RO     []string          `json:"ro,omitempty"` // read-only files
	Cwd    string            `json:"cwd,omitempty"`
	Links  map[string]string `json:"links,omitempty"`
	Builds []B               `json:"builds,omitempty"`
	Seq    bool              `json:"seq,omitempty"` // the builds run one after the other
	Parse  *ParseSpec        `json:"parse,omitempty"`
	Cfg    simrt.Config      `json:"cfg"`
	Faults []simos.Fault     `json:"faults,omitempty"`
	Times  map[string]int64  `json:"times,omitempty"` // modification times; an hour before the run where absent
	Power  uint64            `json:"power,omitempty"` // after the run: lose power with this seed (0: keep all)
}

// Outcome is what a simulated process did.
type Outcome struct {
	OK       []bool            `json:"ok"`   // build i returned nil
	Errs     []string          `json:"errs"` // build i's diagnostic
	Finished []bool            `json:"finished"`
	Exit     int               `json:"exit"` // exit status of the process
	Stdout   string            `json:"stdout"`
	Stderr   string            `json:"stderr"`
	Tree     map[string]string `json:"tree"`  // the whole file system afterwards
	Times    map[string]int64  `json:"times"` // modification times, by name in Tree
	Now      int64             `json:"now"`   // the clock at the end
	Trace    []simos.OpRec     `json:"trace"`
	Fired    map[string]int    `json:"fired"`
	Panic    string            `json:"panic,omitempty"`
	PanicKey string            `json:"panic_key,omitempty"`
	Overrun  string            `json:"overrun,omitempty"`
	Deadlock string            `json:"deadlock,omitempty"`
	Crashed  bool              `json:"crashed,omitempty"`
	Races    []string          `json:"races,omitempty"`
	Hash     uint64            `json:"hash"`
	Steps    int64             `json:"steps"`
	Switches int               `json:"switches"`
	MapIters int               `json:"map_iters"`
	SimNS    int64             `json:"sim_ns"`
	PowerMsg string            `json:"power_msg,omitempty"`
	Problems []string          `json:"problems,omitempty"` // from the parse workload
}

var registered bool

func register() {
	if registered {
		return
	}
	registered = true
	fs := simos.NewFS()
	_ = fs
	w := simrt.New(simrt.Config{CPUs: 4})
	w.Root("init", func() {
		simflag.Reset([]string{"hbuf", "-v"})
		zzmain.ZZMain()
	})
	w.Run()
	for n, f := range map[string]build.Function{"dart": dart.Build, "go": golang.Build, "java": java.Build, "ts": ts.Build} {
		if !build.CheckType(n) {
			build.AddBuildType(n, f)
		}
	}
}

// Isolated makes every run happen in a fresh process.
var Isolated bool

// Runs counts simulated processes; Sim adds up simulated time.
var Runs int
var SimNS, StepsTotal int64
var FiredTotal = map[string]int{}
var Hashes = map[uint64]struct{}{}

// Exec runs a simulated process.
func Exec(s *Spec) *Outcome {
	var o *Outcome
	if Isolated {
		o = execIsolated(s)
	} else {
		o = execHere(s)
	}
	Runs++
	SimNS += o.SimNS
	StepsTotal += o.Steps
	for k, n := range o.Fired {
		FiredTotal[k] += n
	}
	Hashes[o.Hash] = struct{}{}
	digest = (digest ^ o.Hash) * 1099511628211
	return o
}

func execIsolated(s *Spec) *Outcome {
	var enc bytes.Buffer
	if err := gob.NewEncoder(&enc).Encode(s); err != nil {
		panic(err)
	}
	in := enc.Bytes()
	cmd := exec.Command(os.Args[0], "run1")
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		n := len(s.Builds)
		o := &Outcome{Exit: 2, OK: make([]bool, n), Errs: make([]string, n), Finished: make([]bool, n), Tree: map[string]string{}, Fired: map[string]int{}}
		e := errb.String()
		// The Go runtime's own fatal errors cannot be recovered from.
		if i := strings.Index(e, "fatal error: "); i >= 0 {
			l := e[i:]
			if j := strings.IndexByte(l, '\n'); j > 0 {
				l = l[:j]
			}
			o.Panic = l + "\n" + clip(e, 2000)
			o.PanicKey = l
			return o
		}
		fmt.Fprintln(os.Stderr, "harness: isolated run failed:", err, clip(e, 4000))
		os.Exit(2)
	}
	o := &Outcome{Tree: map[string]string{}, Fired: map[string]int{}}
	if err := gob.NewDecoder(&out).Decode(o); err != nil {
		fmt.Fprintln(os.Stderr, "harness: bad isolated outcome:", err)
		os.Exit(2)
	}
	return o
}

func run1() {
	s := &Spec{}
	if err := gob.NewDecoder(os.Stdin).Decode(s); err != nil {
		panic(err)
	}
	register()
	o := execHere(s)
	if err := gob.NewEncoder(os.Stdout).Encode(o); err != nil {
		panic(err)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func execHere(s *Spec) *Outcome {
	register()
	fs := simos.NewFS()
	fs.Setup = s.Cfg.Clock - 3600e9
	names := make([]string, 0, len(s.Files))
	for n := range s.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, d := range s.Dirs {
		fs.PutDir(d)
	}
	for _, n := range names {
		if strings.HasSuffix(n, "/") {
			fs.PutDir("/" + n)
			continue
		}
		p := n
		if !strings.HasPrefix(p, "/") {
			p = "/" + p
		}
		fs.Put(p, []byte(s.Files[n]))
	}
	for _, n := range sortedKeys(s.Links) {
		fs.PutLink(n, s.Links[n])
	}
	for _, p := range s.RO {
		fs.SetRO(p)
	}
	cwd := s.Cwd
	if cwd == "" {
		cwd = "/work"
	}
	fs.SetCwd(cwd)
	for _, n := range sortedKeys(s.Times) {
		fs.SetTime(n, s.Times[n])
	}
	fs.Setup = 0
	fs.Faults = append([]simos.Fault(nil), s.Faults...)
	cfg := s.Cfg
	if cfg.CPUs == 0 {
		cfg.CPUs = 4
	}
	env := map[string]string{}
	for k, v := range cfg.Env {
		env[k] = v
	}
	cfg.Env = env
	w := simrt.New(cfg)
	simrt.Stderr = func(m string) { simos.Stderr.WriteString(m) }
	o := &Outcome{Exit: 0}
	n := len(s.Builds)
	o.OK = make([]bool, n)
	o.Errs = make([]string, n)
	o.Finished = make([]bool, n)
	newRaces()
	// Buffers of the tasks: written by one task each, read after the run.
	if s.Seq {
		w.Root("seq", func() {
			for i := range s.Builds {
				b := s.Builds[i]
				err := build.Build(b.Out, b.In, b.Typ, b.Pack)
				o.Finished[i] = true
				if err == nil {
					o.OK[i] = true
				} else {
					o.Errs[i] = err.Error()
				}
			}
		})
	}
	for i := range s.Builds {
		if s.Seq {
			break
		}
		b := s.Builds[i]
		i := i
		if b.CLI != nil {
			w.Root("cli", func() {
				simflag.Reset(append([]string{"hbuf"}, b.CLI...))
				zzmain.ZZMain()
				o.Finished[i] = true
				simrt.Exit(0)
			})
			continue
		}
		w.Root(fmt.Sprintf("build%d", i), func() {
			err := build.Build(b.Out, b.In, b.Typ, b.Pack)
			o.Finished[i] = true
			if err == nil {
				o.OK[i] = true
			} else {
				o.Errs[i] = err.Error()
			}
		})
	}
	var ps *parseRun
	if s.Parse != nil {
		ps = startParse(w, s.Parse)
	}
	w.Run()
	if ps != nil {
		o.Problems = ps.finish()
	}
	o.Races = newRaces()
	o.Exit = w.ExitCode
	if w.Panic != "" {
		o.Exit = 2
		o.Panic = w.Panic
		o.PanicKey = w.PanicSite + ": " + w.PanicKind
	}
	o.Overrun = w.Overrun
	o.Deadlock = w.Deadlock
	o.Crashed = w.Crashed
	o.Stdout, o.Stderr = string(fs.Out), string(fs.Err)
	if s.Power != 0 {
		o.PowerMsg = fs.PowerLoss(simrt.NewRng(s.Power))
	}
	o.Tree = fs.Tree("/")
	o.Times, o.Now = fs.Times(), w.Now()
	o.Trace = fs.Trace
	o.Fired = map[string]int{}
	for i, k := range fs.Fired.Names {
		o.Fired[k] = fs.Fired.Ns[i]
	}
	for i := range o.Errs {
		w.EventString(o.Errs[i])
	}
	var tn []string
	for k := range o.Tree {
		tn = append(tn, k)
	}
	sort.Strings(tn)
	for _, k := range tn {
		w.EventString(k)
		w.EventString(o.Tree[k])
	}
	o.Hash = w.Hash()
	o.Steps = w.Steps
	o.Switches = w.Switches
	o.MapIters = w.MapIters
	o.SimNS = w.Passed()
	runtime.KeepAlive(w)
	return o
}

// Sub returns the part of a tree below dir, with paths relative to it.
func Sub(tree map[string]string, dir string) map[string]string {
	dir = strings.Trim(dir, "/")
	out := map[string]string{}
	for p, v := range tree {
		if dir == "" {
			out[p] = v
		} else if strings.HasPrefix(p, dir+"/") && p != dir+"/" {
			out[p[len(dir)+1:]] = v
		}
	}
	return out
}

// Files drops directories from a tree.
func FilesOf(tree map[string]string) map[string]string {
	out := map[string]string{}
	for p, v := range tree {
		if !strings.HasSuffix(p, "/") {
			out[p] = v
		}
	}
	return out
}

// Diff describes the first differences between two trees.
func Diff(want, got map[string]string) string {
	var d []string
	for p, v := range want {
		g, ok := got[p]
		if !ok {
			d = append(d, p+" is missing")
		} else if g != v {
			d = append(d, fmt.Sprintf("%s differs (%d bytes, want %d)%s", p, len(g), len(v), firstDiff(v, g)))
		}
	}
	for p := range got {
		if _, ok := want[p]; !ok {
			d = append(d, p+" is unexpected")
		}
	}
	sort.Strings(d)
	if len(d) > 4 {
		d = append(d[:4], fmt.Sprintf("and %d more", len(d)-4))
	}
	return strings.Join(d, "; ")
}

func firstDiff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	ctx := func(s string) string {
		a := i - 20
		if a < 0 {
			a = 0
		}
		b := i + 30
		if b > len(s) {
			b = len(s)
		}
		if a > b {
			a = b
		}
		return fmt.Sprintf("%q", s[a:b])
	}
	return fmt.Sprintf(" at byte %d: want %s, got %s", i, ctx(want), ctx(got))
}

func sortedKeys[T any](m map[string]T) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}
