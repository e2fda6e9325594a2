// Command vsim builds the simulators from the present tree of the repository,
// runs the check of a property on several worker processes and reports.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	verif = env("VSIM_VERIF", "/verif")
	repo  = env("VSIM_REPO", "/repo")
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// die ends with a status that is neither "holds" nor "violated".
func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

var scratch string

func cleanup() {
	if scratch != "" && os.Getenv("VSIM_KEEP") == "" {
		os.RemoveAll(scratch)
	}
}

func mkScratch() {
	d, err := os.MkdirTemp("", "vsim-")
	if err != nil {
		die("%v", err)
	}
	scratch = d
}

// Found mirrors the harness.
type Found struct {
	Key   string          `json:"key"`
	Msg   string          `json:"msg"`
	Seed  uint64          `json:"seed"`
	Index uint64          `json:"index"`
	Case  json.RawMessage `json:"case"`
	Hash  uint64          `json:"hash,omitempty"`
	Size0 int             `json:"size_before_minimising"`
	Size  int             `json:"size"`
}

// Result mirrors the harness.
type Result struct {
	Cases    int               `json:"cases"`
	Useful   int               `json:"useful"`
	Invalid  int               `json:"invalid"`
	Runs     int               `json:"runs"`
	Steps    int64             `json:"steps"`
	SimNS    int64             `json:"sim_ns"`
	Secs     float64           `json:"secs"`
	Labels   map[string]int    `json:"labels"`
	Fired    map[string]int    `json:"fired"`
	Probes   map[string]int    `json:"probes"`
	Hashes   []uint64          `json:"hashes"`
	Found    []*Found          `json:"found"`
	Digest   map[string]uint64 `json:"digest"`
	Unstable []string          `json:"unstable,omitempty"`
	Samples  []string          `json:"samples"`
}

// engine is a simulator for a group of properties.
type engine struct {
	build func(id string) (bin string, facts map[string]any)
	real  []string
	stub  []string
	seams string
}

func engineOf(id string) *engine {
	n, err := strconv.Atoi(strings.TrimPrefix(id, "C"))
	if id == "C23" || id == "C26" {
		return tsEngine(id == "C23")
	}
	if err != nil || n < 1 || n > 21 {
		die("no check for %s", id)
	}
	if n <= 9 {
		return genEngine
	}
	return svcEngine
}

func main() {
	if len(os.Args) < 3 {
		die("usage: vsim check ID | replay FILE | build ID DIR")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2])
	case "replay":
		replayFile(os.Args[2])
	case "build":
		mkScratch()
		bin, facts := engineOf(os.Args[2]).build(os.Args[2])
		if msg, ok := facts["violation"].(string); ok {
			fmt.Println(msg)
		}
		fmt.Println(bin)
	default:
		die("unknown command %s", os.Args[1])
	}
}

func run(dir string, extraEnv []string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), extraEnv...)
	b, err := cmd.CombinedOutput()
	return string(b), err
}

func worker(bin, id string, seed uint64, extra []string, extraEnv []string) (*Result, error) {
	f, err := os.CreateTemp(scratch, "res-*.json")
	if err != nil {
		return nil, err
	}
	f.Close()
	args := append([]string{"worker", "-prop", id, "-seed", fmt.Sprint(seed), "-out", f.Name()}, extra...)
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), extraEnv...)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("worker: %v\n%s", err, tail(string(out), 6000))
	}
	b, err := os.ReadFile(f.Name())
	if err != nil {
		return nil, err
	}
	r := &Result{}
	if err := json.Unmarshal(b, r); err != nil {
		return nil, fmt.Errorf("worker result: %v\n%s", err, tail(string(out), 2000))
	}
	if len(out) > 0 && os.Getenv("VSIM_DEBUG") != "" {
		os.Stderr.Write(out)
	}
	return r, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func check(id string) {
	start := time.Now()
	tier := env("VERIF_TIER", "quick")
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		die("VERIF_SEED: %v", err)
	}
	secs := 40.0
	if tier == "thorough" {
		secs = 600
	}
	if s := os.Getenv("VSIM_SECS"); s != "" {
		secs, _ = strconv.ParseFloat(s, 64)
	}
	fmt.Printf("vsim: property %s, tier %s, VERIF_SEED %d\n", id, tier, seed)
	mkScratch()
	defer cleanup()
	e := engineOf(id)
	bin, facts := e.build(id)
	if msg, ok := facts["violation"].(string); ok {
		reportStatic(id, tier, seed, msg, facts, start)
		return
	}
	built := time.Since(start)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	results := make([]*Result, n)
	var firstErr error
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r, err := worker(bin, id, seed, []string{"-from", fmt.Sprint(i), "-stride", fmt.Sprint(n), "-secs", fmt.Sprint(secs)}, nil)
			mu.Lock()
			defer mu.Unlock()
			results[i] = r
			if err != nil && firstErr == nil {
				firstErr = err
			}
		}(i)
	}
	wg.Wait()
	if firstErr != nil {
		die("%v", firstErr)
	}
	// The same seeds again in other processes with another number of threads.
	compared := 0
	var dwg sync.WaitGroup
	for i := 0; i < n; i++ {
		dwg.Add(1)
		go func(i int) {
			defer dwg.Done()
			want := results[i].Digest
			r, err := worker(bin, id, seed, []string{"-from", fmt.Sprint(i), "-stride", fmt.Sprint(n), "-max", fmt.Sprint(max(1, len(want))), "-digests", fmt.Sprint(len(want))}, []string{"VSIM_PROCS=" + fmt.Sprint(1+i%4)})
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				firstErr = err
				return
			}
			for k, d := range r.Digest {
				if w, ok := want[k]; ok {
					compared++
					if w != d {
						firstErr = fmt.Errorf("seed %d case %s of %s is not deterministic", seed, k, id)
					}
				}
			}
		}(i)
	}
	dwg.Wait()
	if firstErr != nil {
		die("%v", firstErr)
	}
	tot := &Result{Labels: map[string]int{}, Fired: map[string]int{}, Probes: map[string]int{}}
	hashes := map[uint64]bool{}
	byKey := map[string]*Found{}
	var wsecs float64
	for _, r := range results {
		tot.Cases += r.Cases
		tot.Useful += r.Useful
		tot.Invalid += r.Invalid
		tot.Runs += r.Runs
		tot.Steps += r.Steps
		tot.SimNS += r.SimNS
		if r.Secs > wsecs {
			wsecs = r.Secs
		}
		for k, v := range r.Labels {
			tot.Labels[k] += v
		}
		for k, v := range r.Fired {
			tot.Fired[k] += v
		}
		for k, v := range r.Probes {
			tot.Probes[k] += v
		}
		for _, h := range r.Hashes {
			hashes[h] = true
		}
		tot.Unstable = append(tot.Unstable, r.Unstable...)
		tot.Samples = append(tot.Samples, r.Samples...)
		for _, f := range r.Found {
			if o := byKey[f.Key]; o == nil || f.Size < o.Size || f.Size == o.Size && f.Index < o.Index {
				byKey[f.Key] = f
			}
		}
	}
	for _, u := range tot.Unstable {
		fmt.Println("vsim: not confirmed in a fresh process:", u)
	}
	var ks []string
	for k := range byKey {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	known := loadKnown(id)
	violations, listed := 0, 0
	for i, k := range ks {
		f := byKey[k]
		dir := filepath.Join(verif, "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		file := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i))
		b, _ := json.MarshalIndent(map[string]any{"prop": id, "key": f.Key, "msg": f.Msg, "seed": f.Seed, "index": f.Index, "case": f.Case, "hash": f.Hash, "size_before_minimising": f.Size0, "size": f.Size}, "", " ")
		if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
			die("%v", err)
		}
		// Replaying the file must show the same.
		out, err := run("", nil, bin, "replay", file)
		again := strings.Contains(out, "REPLAY key="+f.Key)
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 || !again {
			fmt.Printf("vsim: the replay of %q does not show it again: %v %s\n", k, err, tail(out, 2000))
			die("replay of %s failed", file)
		}
		if kf := matchKnown(known, f); kf != nil {
			listed++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf.what)
			continue
		}
		violations++
		fmt.Printf("%s (seed %d, case %d, minimised from %d to %d):\n%s\n", f.Key, f.Seed, f.Index, f.Size0, f.Size, tail(f.Msg, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
	}
	if violations == 0 {
		if tot.Cases == 0 || tot.Useful == 0 {
			die("%s: no case exercised the property (%d cases, %d invalid)", id, tot.Cases, tot.Invalid)
		}
		if tot.Invalid*2 > tot.Cases {
			die("%s: %d of %d cases were unusable", id, tot.Invalid, tot.Cases)
		}
	}
	wall := time.Since(start)
	cov := map[string]any{
		"evaluations":            tot.Cases,
		"distinct_nontrivial":    min(len(hashes), tot.Useful),
		"rule":                   rules[id],
		"samples":                clipList(tot.Samples, 12),
		"simulated_runs":         tot.Runs,
		"nontrivial_cases":       tot.Useful,
		"unusable_cases":         tot.Invalid,
		"runs_per_hour":          int(float64(tot.Runs) / wsecs * 3600),
		"seeds_per_hour":         int(float64(tot.Cases) / wsecs * 3600),
		"simulated_seconds":      float64(tot.SimNS) / 1e9,
		"scheduler_steps":        tot.Steps,
		"faults_fired":           tot.Fired,
		"probes":                 tot.Probes,
		"distinct_executions":    len(hashes),
		"distinct_measure":       "different hashes over the sequence of scheduling decisions, operations, faults and results of a run",
		"kinds_of_cases":         top(tot.Labels, 60),
		"determinism_compared":   compared,
		"known_findings":         listed,
		"components_real":        e.real,
		"components_simulated":   e.stub,
		"build_s":                built.Seconds(),
		"unconfirmed_in_process": len(tot.Unstable),
	}
	for k, v := range facts {
		cov[k] = v
	}
	writeEvidence(id, tier, seed, cov, wall, violations, e)
	fmt.Printf("vsim: %s: %d cases (%d non-trivial), %d simulated runs, %d distinct executions, %.0f s, %d violations, %d known\n", id, tot.Cases, tot.Useful, tot.Runs, len(hashes), wall.Seconds(), violations, listed)
	if violations > 0 {
		cleanup()
		os.Exit(1)
	}
}

func writeEvidence(id, tier string, seed uint64, cov map[string]any, wall time.Duration, violations int, e *engine) {
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{e.seams, "a clean batch samples schedules, inputs and faults; it does not enumerate them"},
		"wall_s":      wall.Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

// reportStatic reports that the code the property is about could not even be
// brought to run although the generator produced it.
func reportStatic(id, tier string, seed uint64, msg string, facts map[string]any, start time.Time) {
	dir := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	file := filepath.Join(dir, id+"-build.json")
	b, _ := json.MarshalIndent(map[string]any{"prop": id, "key": "generated code does not build", "msg": msg, "seed": seed, "facts": facts}, "", " ")
	os.WriteFile(file, append(b, '\n'), 0o644)
	fmt.Println(tail(msg, 4000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
	writeEvidence(id, tier, seed, map[string]any{"evaluations": 1, "distinct_nontrivial": 1, "rule": "generated code must build before it can be simulated", "samples": []string{tail(msg, 500)}}, time.Since(start), 1, engineOf(id))
	cleanup()
	os.Exit(1)
}

func clipList(l []string, n int) []string {
	if len(l) > n {
		l = l[:n]
	}
	if l == nil {
		l = []string{}
	}
	return l
}

func top(m map[string]int, n int) map[string]int {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] || m[ks[i]] == m[ks[j]] && ks[i] < ks[j] })
	out := map[string]int{}
	for i, k := range ks {
		if i >= n {
			out["others"] += m[k]
			continue
		}
		out[k] = m[k]
	}
	return out
}

type knownFinding struct {
	key, match, what string
}

// loadKnown reads lines "known: property=ID key=KEY [match=TEXT] :: WHAT".
func loadKnown(id string) []*knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []*knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		head, what, ok := strings.Cut(strings.TrimPrefix(l, "known: property="+id+" "), " :: ")
		if !ok || !strings.HasPrefix(head, "key=") {
			die("bad line in known_findings.txt: %s", l)
		}
		key, match, _ := strings.Cut(strings.TrimPrefix(head, "key="), " match=")
		out = append(out, &knownFinding{key, match, what})
	}
	return out
}

func matchKnown(l []*knownFinding, f *Found) *knownFinding {
	for _, k := range l {
		if k.key == f.Key && (k.match == "" || strings.Contains(f.Msg, k.match)) {
			return k
		}
	}
	return nil
}

func replayFile(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var h struct {
		Prop string `json:"prop"`
		Key  string `json:"key"`
		Seed uint64 `json:"seed"`
	}
	if err := json.Unmarshal(b, &h); err != nil {
		die("%v", err)
	}
	abs, _ := filepath.Abs(file)
	os.Setenv("VERIF_SEED", fmt.Sprint(h.Seed)) // the schemas are those of the seed
	mkScratch()
	bin, facts := engineOf(h.Prop).build(h.Prop)
	if msg, ok := facts["violation"].(string); ok {
		fmt.Println(tail(msg, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", h.Prop, abs)
		cleanup()
		os.Exit(1)
	}
	if strings.HasSuffix(h.Key, "does not build") {
		fmt.Println("REPLAY holds")
		cleanup()
		return
	}
	out, err := run("", nil, bin, "replay", abs)
	fmt.Print(out)
	cleanup()
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() == 1 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", h.Prop, abs)
		}
		os.Exit(ee.ExitCode())
	}
}
