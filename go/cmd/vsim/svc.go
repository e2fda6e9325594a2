package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"vsim/svcgen"
)

var svcEngine = &engine{
	build: buildSvc,
	real: []string{"the hbuf command built from the repository, run on the schemas of the seed", "the Go code it generates: data, enum, server, database, verify",
		"the runtime library hbuf_golang v1.0.12 (db, cache, rpc, erro, hbuf, manage context) from the module cache, with one method added to a scratch copy: Table(name) on db.Execute, which the generated code calls and v1.0.12 lacks",
		"database/sql, redigo, shopspring/decimal"},
	stub:  []string{"MySQL (own driver and engine for the statements the generator emits)", "Redis (own server behind redigo's real protocol code)", "the network between nodes", "the clock and goroutine scheduling (testing/synctest and a seeded cooperative scheduler)", "math/rand (seeded)", "the service registry (manage)"},
	seams: "nodes run the generated code unchanged; everything they do outside the process goes through the simulated SQL driver, the simulated Redis connection or the simulated network, where the seeded scheduler decides who goes on, when and with what fault; library faults that generated code cannot influence (errors in the middle of a result set, a flushed DEL that is lost, a cache that never answers) are left out",
}

// libPatch makes the scratch copy of the runtime library fit the generated code.
func libPatch(dir string) error {
	f := filepath.Join(dir, "pkg", "db", "database.go")
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	s := string(b)
	if strings.Contains(s, "Table(name string) string") {
		return nil
	}
	const at = "type Execute interface {\n"
	if !strings.Contains(s, at) {
		return fmt.Errorf("%s: no Execute interface", f)
	}
	s = strings.Replace(s, at, at+"\tTable(name string) string\n\n", 1)
	s += "\nfunc (v *contextValue) Table(name string) string {\n\treturn name\n}\n"
	return os.WriteFile(f, []byte(s), 0o644)
}

// Shapes of the builds: schemas with tables, how many of them cached, schemas with services.
var svcShape = map[string][3]int{
	"C10": {12, 3, 0}, "C11": {12, 3, 0}, "C12": {6, 0, 0}, "C13": {6, 0, 0},
	"C14": {5, 5, 0}, "C15": {5, 5, 0}, "C16": {5, 5, 0}, "C17": {4, 4, 0}, "C18": {4, 4, 0},
	"C19": {0, 0, 5}, "C20": {0, 0, 4}, "C21": {0, 0, 5},
}

func buildSvc(id string) (string, map[string]any) {
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		die("VERIF_SEED: %v", err)
	}
	sh := svcShape[id]
	m := svcgen.Make(seed, sh[0], sh[1], sh[2])
	vs := filepath.Join(scratch, "vsim")
	for _, d := range []string{"ss", "schema"} {
		if err := copyTree(filepath.Join(verif, "go", d), filepath.Join(vs, d)); err != nil {
			die("%v", err)
		}
	}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		die("%v", err)
	}
	req, ver := "", ""
	const lib = "github.com/wskfjtheqian/hbuf_golang"
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(strings.TrimPrefix(l, "require ")); len(f) >= 2 && strings.Contains(f[0], "/") {
			req += "\t" + f[0] + " " + f[1] + "\n"
			if f[0] == lib {
				ver = f[1]
			}
		}
	}
	dir, err := run(repo, nil, "go", "list", "-m", "-f", "{{.Dir}}", lib)
	dir = strings.TrimSpace(dir)
	if err != nil || dir == "" {
		die("no runtime library: %v %s", err, dir)
	}
	if err := copyTree(dir, filepath.Join(scratch, "lib")); err != nil {
		die("%v", err)
	}
	if err := libPatch(filepath.Join(scratch, "lib")); err != nil {
		die("%v", err)
	}
	vm := "module vsim\n\ngo 1.26\n\ngodebug (\n\trandseednop=0\n\tasynctimerchan=0\n)\n\nrequire (\n" + req + ")\n\nreplace " + lib + " => ../lib\n"
	os.WriteFile(filepath.Join(vs, "go.mod"), []byte(vm), 0o644)
	os.WriteFile(filepath.Join(vs, "go.sum"), sum, 0o644)
	// The compiler as it is.
	hbuf := filepath.Join(scratch, "hbuf")
	if out, err := run(repo, nil, "go", "build", "-o", hbuf, "./cmd"); err != nil {
		die("building hbuf: %v\n%s", err, tail(out, 4000))
	}
	in := filepath.Join(scratch, "in")
	os.MkdirAll(in, 0o755)
	files := 0
	for _, s := range m.Schemas {
		for n, t := range s.Files {
			files++
			if err := os.WriteFile(filepath.Join(in, n), []byte(t), 0o644); err != nil {
				die("%v", err)
			}
		}
	}
	facts := map[string]any{"schemas": len(m.Schemas), "schema_files": files, "library": lib + " " + ver, "schema_seed": seed}
	out, err := run(scratch, nil, hbuf, "-i", filepath.Join(in, ".*.hbuf"), "-o", filepath.Join(vs, "out"), "-t", "go", "-p", "vsim/out/")
	if err != nil {
		facts["violation"] = fmt.Sprintf("the schemas of seed %d are not generated: %v\n%s", seed, err, tail(out, 3000))
		return "", facts
	}
	if _, err := os.Stat(filepath.Join(vs, "out")); err != nil {
		facts["violation"] = fmt.Sprintf("the schemas of seed %d give no output\n%s", seed, tail(out, 3000))
		return "", facts
	}
	if out, err := run(vs, nil, "go", "build", "./out/..."); err != nil {
		facts["violation"] = fmt.Sprintf("the code generated for the schemas of seed %d does not compile: %v\n%s", seed, err, tail(out, 4000))
		return "", facts
	}
	h := filepath.Join(vs, "ss", "harness")
	b, _ := json.Marshal(m)
	os.WriteFile(filepath.Join(h, "meta.json"), b, 0o644)
	os.WriteFile(filepath.Join(h, "glue.go"), []byte(svcgen.Glue(m, "vsim/out/")), 0o644)
	bin := filepath.Join(scratch, "harness")
	if out, err := run(vs, nil, "go", "test", "-c", "-trimpath", "-o", bin, "./ss/harness"); err != nil {
		if strings.Contains(out, "glue.go:") {
			facts["violation"] = fmt.Sprintf("the code generated for the schemas of seed %d lacks what it is used by: %v\n%s", seed, err, tail(out, 4000))
			return "", facts
		}
		die("building the simulator: %v\n%s", err, tail(out, 6000))
	}
	return bin, facts
}
