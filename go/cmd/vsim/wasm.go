package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"vsim/ss/meta"
	"vsim/svcgen"
)

const libPath = "github.com/wskfjtheqian/hbuf_golang"

// goModule writes the module file for a module in dir that uses the runtime
// library as the repository does, from a copy in scratch/lib.
func goModule(dir, name, extra string) (version string) {
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		die("%v", err)
	}
	req := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(strings.TrimPrefix(l, "require ")); len(f) >= 2 && strings.Contains(f[0], "/") {
			req += "\t" + f[0] + " " + f[1] + "\n"
			if f[0] == libPath {
				version = f[1]
			}
		}
	}
	src, err := run(repo, nil, "go", "list", "-m", "-f", "{{.Dir}}", libPath)
	src = strings.TrimSpace(src)
	if err != nil || src == "" {
		die("no runtime library: %v %s", err, src)
	}
	lib := filepath.Join(scratch, "lib")
	if err := copyTree(src, lib); err != nil {
		die("%v", err)
	}
	if err := libPatch(lib); err != nil {
		die("%v", err)
	}
	os.MkdirAll(dir, 0o755)
	rel, _ := filepath.Rel(dir, lib)
	vm := "module " + name + "\n\ngo 1.26\n\n" + extra + "require (\n" + req + ")\n\nreplace " + libPath + " => " + rel + "\n"
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte(vm), 0o644)
	os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
	return version
}

// buildWasm generates and compiles the Go side of a mixed cluster.
func buildWasm(m *meta.Meta, hbuf, in string, facts map[string]any) string {
	dir := filepath.Join(scratch, "mixed")
	if err := copyTree(filepath.Join(verif, "go", "ts", "mixed"), dir); err != nil {
		die("%v", err)
	}
	facts["library"] = libPath + " " + goModule(dir, "mixed", "")
	man := filepath.Join(scratch, "lib", "pkg", "manage")
	b, err := os.ReadFile(filepath.Join(dir, "manage.go.txt"))
	if err != nil {
		die("%v", err)
	}
	os.RemoveAll(man)
	os.MkdirAll(man, 0o755)
	os.WriteFile(filepath.Join(man, "manage.go"), b, 0o644)
	if o, err := run(scratch, nil, hbuf, "-i", filepath.Join(in, ".*.hbuf"), "-o", filepath.Join(dir, "out"), "-t", "go", "-p", "mixed/out/"); err != nil {
		return fmt.Sprintf("no Go code is generated for the schemas of seed %d: %v\n%s", m.Seed, err, tail(o, 3000))
	}
	results := map[string]string{}
	for _, s := range m.Schemas {
		for _, v := range s.Servers {
			for _, x := range v.Methods {
				results[s.Pkg+"."+v.Type+"."+x.Go] = x.Result
			}
		}
	}
	b, _ = json.Marshal(results)
	os.WriteFile(filepath.Join(dir, "results.json"), b, 0o644)
	os.WriteFile(filepath.Join(dir, "glue.go"), []byte(svcgen.Glue(m, "mixed/out/")), 0o644)
	env := []string{"GOOS=js", "GOARCH=wasm"}
	if o, err := run(dir, env, "go", "build", "./out/..."); err != nil {
		return fmt.Sprintf("the Go code generated for the schemas of seed %d does not compile: %v\n%s", m.Seed, err, tail(o, 4000))
	}
	if o, err := run(dir, env, "go", "build", "-trimpath", "-o", filepath.Join(scratch, "node.wasm"), "."); err != nil {
		if strings.Contains(o, "glue.go:") {
			return fmt.Sprintf("the Go code generated for the schemas of seed %d lacks what it is used by: %v\n%s", m.Seed, err, tail(o, 4000))
		}
		die("building the Go nodes: %v\n%s", err, tail(o, 6000))
	}
	root, err := run(dir, nil, "go", "env", "GOROOT")
	if err != nil {
		die("%v", err)
	}
	b, err = os.ReadFile(filepath.Join(strings.TrimSpace(root), "lib", "wasm", "wasm_exec.js"))
	if err != nil {
		die("%v", err)
	}
	os.WriteFile(filepath.Join(scratch, "wasm_exec.js"), b, 0o644)
	return ""
}
