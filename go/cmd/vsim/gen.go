package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"vsim/instr"
)

var genEngine = &engine{
	build: buildGen,
	real:  []string{"cmd/main.go", "pkg/build", "pkg/parser", "pkg/scanner", "pkg/token", "pkg/ast", "pkg/golang", "pkg/java", "pkg/dart", "pkg/typescript", "go/format and the rest of the Go standard library that has no effects"},
	stub:  []string{"os, io/ioutil, path/filepath (in-memory file system with fault plan)", "sync (scheduler-owned locks)", "goroutine scheduling, map iteration order, time, math/rand, environment, process id, host name, standard streams, flag.CommandLine, log exit"},
	seams: "the compiler's packages run as they are except for imports, map ranges, go statements and channel operations, which are redirected to the simulator by source instrumentation of a scratch copy; code reached through uninstrumented standard library packages is deterministic",
}

func copyTree(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		to := filepath.Join(dst, rel)
		if d.IsDir() {
			return os.MkdirAll(to, 0o755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(to, b, 0o644)
	})
}

func buildGen(id string) (string, map[string]any) {
	vs, hb := filepath.Join(scratch, "vsim"), filepath.Join(scratch, "hbuf")
	for _, d := range []string{"gs", "schema", "go.mod"} {
		src := filepath.Join(verif, "go", d)
		st, err := os.Stat(src)
		if err != nil {
			die("%v", err)
		}
		if st.IsDir() {
			err = copyTree(src, filepath.Join(vs, d))
		} else {
			var b []byte
			if b, err = os.ReadFile(src); err == nil {
				err = os.WriteFile(filepath.Join(vs, d), b, 0o644)
			}
		}
		if err != nil {
			die("%v", err)
		}
	}
	if err := instr.WriteForwards(filepath.Join(vs, "gs")); err != nil {
		die("shims: %v", err)
	}
	rep, err := instr.Instrument(repo, hb)
	if err != nil {
		die("instrumenting %s: %v", repo, err)
	}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	// The copy imports the simulator.
	os.WriteFile(filepath.Join(hb, "go.mod"), append(mod, []byte("\nrequire vsim v0.0.0\n\nreplace vsim => ../vsim\n")...), 0o644)
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		die("%v", err)
	}
	os.WriteFile(filepath.Join(hb, "go.sum"), sum, 0o644)
	// The harness's module takes the versions hbuf asks for.
	req := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(l); len(f) >= 2 && strings.Contains(f[0], "/") {
			req += "\t" + f[0] + " " + f[1] + "\n"
		}
	}
	vm := "module vsim\n\ngo 1.26\n\nrequire hbuf v0.0.0\n\nreplace hbuf => ../hbuf\n\nrequire (\n" + req + ")\n"
	os.WriteFile(filepath.Join(vs, "go.mod"), []byte(vm), 0o644)
	os.WriteFile(filepath.Join(vs, "go.sum"), sum, 0o644)
	bin := filepath.Join(scratch, "harness")
	args := []string{"build", "-tags", "gensim", "-trimpath", "-o", bin}
	if id == "C08" || id == "C09" {
		args = append(args, "-race", "-gcflags=vsim/gs/...=-race=0", "-gcflags=hbuf/...=-l")
	}
	args = append(args, "./gs/harness")
	if out, err := run(vs, nil, "go", args...); err != nil {
		die("building the simulated compiler: %v\n%s", err, tail(out, 6000))
	}
	return bin, map[string]any{
		"instrumented_packages": rep.Packages,
		"instrumented_files":    rep.Files,
		"repo":                  fmt.Sprint(repo),
	}
}
