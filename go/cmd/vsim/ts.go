package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"vsim/svcgen"
)

const esbuild = "/opt/veriftools/node/node_modules/.bin/esbuild"

// tsEngine is the simulator for generated TypeScript code; mixed clusters have
// nodes with generated Go code too.
func tsEngine(mixed bool) *engine {
	e := &engine{
		build: buildTS,
		real:  []string{"the hbuf command built from the repository, run on the schemas of the seed", "the TypeScript code it generates: data, enum and server files"},
		stub:  []string{"hbuf_ts, long and decimal.js (stand-ins with what generated code uses of them)", "the network, the clock, server processes and their crashes (event queue in one Node process)"},
		seams: "generated classes run unchanged; the runtime library they import is a stand-in whose transport is the simulated network, and the event queue decides which message, answer, crash or timer is next; types are not checked, only what the code does",
	}
	if mixed {
		e.real = append(e.real, "the Go code it generates from the same schemas with the runtime library hbuf_golang (rpc, hbuf, erro), compiled to WebAssembly")
		e.stub = append(e.stub, "the service registry (package manage, whose etcd client does not build for WebAssembly) and the HTTP transport")
		e.seams += "; paths between the languages are matched by service and method name, because the libraries make them"
	}
	return e
}

func buildTS(id string) (string, map[string]any) {
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		die("VERIF_SEED: %v", err)
	}
	mixed := id == "C23"
	m := svcgen.MakeTS(seed, mixed, 6)
	if err := copyTree(filepath.Join(verif, "go", "ts"), filepath.Join(scratch, "ts")); err != nil {
		die("%v", err)
	}
	ts := filepath.Join(scratch, "ts")
	hbuf := filepath.Join(scratch, "hbuf")
	if out, err := run(repo, nil, "go", "build", "-o", hbuf, "./cmd"); err != nil {
		die("building hbuf: %v\n%s", err, tail(out, 4000))
	}
	in := filepath.Join(scratch, "in")
	os.MkdirAll(in, 0o755)
	files := 0
	for _, s := range m.Schemas {
		for n, t := range s.Files {
			files++
			if err := os.WriteFile(filepath.Join(in, n), []byte(t), 0o644); err != nil {
				die("%v", err)
			}
		}
	}
	facts := map[string]any{"schemas": len(m.Schemas), "schema_files": files, "schema_seed": seed}
	out := filepath.Join(ts, "out")
	if o, err := run(scratch, nil, hbuf, "-i", filepath.Join(in, ".*.hbuf"), "-o", out, "-t", "ts"); err != nil {
		facts["violation"] = fmt.Sprintf("the schemas of seed %d are not generated: %v\n%s", seed, err, tail(o, 3000))
		return "", facts
	}
	// What the schemas mean and the modules of each.
	var glue strings.Builder
	var mods []string
	n := 0
	for _, s := range m.Schemas {
		var names []string
		for f := range s.Files {
			names = append(names, strings.TrimSuffix(f, ".hbuf"))
		}
		sort.Strings(names)
		var l []string
		for _, f := range names {
			for _, k := range []string{"data", "enum", "server"} {
				if _, err := os.Stat(filepath.Join(out, f+"."+k+".ts")); err == nil {
					n++
					fmt.Fprintf(&glue, "import * as m%d from \"./out/%s.%s\"\n", n, f, k)
					l = append(l, fmt.Sprintf("m%d", n))
				}
			}
		}
		mods = append(mods, "["+strings.Join(l, ", ")+"]")
	}
	b, _ := json.Marshal(map[string]any{"mixed": mixed, "schemas": m.Schemas})
	fmt.Fprintf(&glue, "export const meta = %s\nexport const modules = [%s]\n", b, strings.Join(mods, ", "))
	os.WriteFile(filepath.Join(ts, "glue.mjs"), []byte(glue.String()), 0o644)
	if _, err := os.Stat(esbuild); err != nil {
		die("%v", err)
	}
	alias := func(n, f string) string { return "--alias:" + n + "=" + filepath.Join(ts, f) }
	bundle := filepath.Join(scratch, "main.cjs")
	if o, err := run(ts, nil, esbuild, "main.mjs", "--bundle", "--platform=node", "--format=cjs", "--log-level=warning", "--outfile="+bundle,
		alias("hbuf_ts", "hbuf_ts.mjs"), alias("long", "long.mjs"), alias("decimal.js", "decimal.mjs"), alias("glue", "glue.mjs")); err != nil {
		if strings.Contains(o, "out/") {
			facts["violation"] = fmt.Sprintf("the TypeScript code generated for the schemas of seed %d cannot be loaded: %v\n%s", seed, err, tail(o, 4000))
			return "", facts
		}
		die("bundling: %v\n%s", err, tail(o, 4000))
	}
	if mixed {
		if msg := buildWasm(m, hbuf, in, facts); msg != "" {
			facts["violation"] = msg
			return "", facts
		}
	}
	bin := filepath.Join(scratch, "harness")
	os.WriteFile(bin, []byte("#!/bin/sh\nexec node --stack-size=4000 --max-old-space-size=3000 \""+bundle+"\" \"$@\"\n"), 0o755)
	return bin, facts
}
