//go:build gensim

package main

import (
	"fmt"
	"sort"
	"strings"

	"vsim/gs/simos"
	"vsim/gs/simrt"
	"vsim/schema"
)

var types = []string{"go", "java", "dart", "ts"}

func pick[T any](r *schema.Rng, xs ...T) T { return xs[r.N(len(xs))] }

// sources makes valid sources below dir.
func sources(r *schema.Rng, dir string, max int) (map[string]string, *schema.Schema) {
	w := &schema.Wide{R: r, MaxFiles: max}
	s := w.Schema()
	out := map[string]string{}
	for n, t := range s.Texts() {
		out[dir+"/"+n] = t
	}
	return out, s
}

func cfg(r *schema.Rng) simrt.Config {
	c := simrt.Config{
		MapSeed:  pick(r, uint64(0), 1, 2+r.U64()%1000000),
		DirSeed:  pick(r, uint64(0), 1, 2+r.U64()%1000000),
		RandSeed: r.U64() % 1000000,
		Clock:    int64(1_600_000_000+r.N(200_000_000)) * 1e9,
		Host:     pick(r, "build1", "ci-7", "laptop"),
		Pid:      100 + r.N(30000),
		CPUs:     1 + r.N(16),
		Env:      env(r),
	}
	if r.P(1, 2) {
		c.IOSeed = r.U64() % 1000000
	}
	return c
}

func env(r *schema.Rng) map[string]string {
	e := map[string]string{"HOME": pick(r, "/root", "/home/dev"), "USER": pick(r, "root", "dev"), "LANG": pick(r, "C", "zh_CN.UTF-8", "en_US.UTF-8"), "PATH": "/usr/bin", "PWD": "/work"}
	if r.P(1, 2) {
		e["TZ"] = pick(r, "UTC", "Asia/Shanghai", "America/New_York")
	}
	if r.P(1, 3) {
		e["GOPATH"] = "/go"
		e["TMPDIR"] = "/tmp"
	}
	if r.P(1, 4) {
		e["SOURCE_DATE_EPOCH"] = fmt.Sprint(r.N(1 << 30))
		e["DEBUG"] = "1"
	}
	return e
}

// target chooses the build.
func target(r *schema.Rng, c *Case) {
	c.Build.Typ = types[r.N(len(types))]
	c.Build.In = pick(r, "in/*.hbuf", "in/.*.hbuf", "/work/in/*.hbuf", "./in/*.hbuf", "in/(.*).hbuf")
	c.Out = pick(r, "/work/out", "/work/gen/a/b", "/work/out", "/work/out", "/work/a b")
	c.Build.Out = pick(r, c.Out, c.Out+"/", strings.TrimPrefix(c.Out, "/work/"), "./"+strings.TrimPrefix(c.Out, "/work/"))
	if r.P(1, 8) {
		c.Out = "/work"
		c.Build.Out = pick(r, ".", "./", "/work", "../work")
	}
	c.Build.Pack = pick(r, "demo/", "com/acme/gen/", "")
}

func base(c *Case) *Spec {
	s := &Spec{Files: map[string]string{}, Dirs: c.Dirs, RO: c.RO, Links: c.Links, Builds: []B{c.Build}, Cfg: c.Cfg}
	for n, t := range c.Files {
		s.Files[n] = t
	}
	return s
}

func withOld(c *Case, s *Spec) *Spec {
	age := int64(7200e9) // made from other sources, before these
	switch c.Cfg.RandSeed % 4 {
	case 0:
		age = 3600e9 // as old as the sources
	case 1, 2:
		age = 600e9 // made later, and not from these: other options, another version, sources put back
	}
	s.Times = map[string]int64{}
	for n, t := range c.Old {
		s.Files[n] = t
		s.Times[n] = s.Cfg.Clock - age
	}
	return s
}

// isIO tells whether a fault interferes with input or output.
func fired(o *Outcome) (n int, what string) {
	for _, k := range keys(o.Fired) {
		if k == "short-read" || k == "jump" || k == "full" {
			continue
		}
		n += o.Fired[k]
		what += k + " "
	}
	return n, strings.TrimSpace(what)
}

// faultFor chooses a fault that can hit an operation.
func faultFor(r *schema.Rng, at int, op simos.OpRec) simos.Fault {
	f := simos.Fault{At: at, Arg: r.N(1 << 16)}
	switch op.Kind {
	case "create":
		f.Kind = pick(r, "eio", "enospc", "eacces", "emfile", "erofs", "edquot")
	case "open":
		f.Kind = pick(r, "eio", "eacces", "emfile", "enoent")
	case "write":
		f.Kind = pick(r, "eio", "enospc", "short", "short", "edquot")
	case "close":
		f.Kind = pick(r, "closeerr", "closeerr", "eio")
	case "read":
		f.Kind = "eio"
	case "mkdir", "rename", "remove", "link", "symlink", "sync", "truncate", "chmod", "chtimes":
		f.Kind = pick(r, "eio", "enospc", "eacces", "erofs")
	default:
		f.Kind = pick(r, "eio", "eacces")
	}
	return f
}

// chooseOp picks an operation of a trace, every kind with equal chance.
func chooseOp(r *schema.Rng, tr []simos.OpRec, want func(o simos.OpRec) bool) int {
	by := map[string][]int{}
	for i, o := range tr {
		if want == nil || want(o) {
			by[o.Kind] = append(by[o.Kind], i)
		}
	}
	if len(by) == 0 {
		return -1
	}
	ks := keys(by)
	l := by[ks[r.N(len(ks))]]
	// The first and the last operation of a kind are special.
	switch r.N(4) {
	case 0:
		return l[0]
	case 1:
		return l[len(l)-1]
	}
	return l[r.N(len(l))]
}

func isMutation(o simos.OpRec) bool {
	switch o.Kind {
	case "create", "write", "close", "mkdir", "rename", "remove", "sync", "truncate", "chmod", "chtimes", "link", "symlink":
		return true
	}
	return false
}

// faults plans faults along a trace.
func faults(r *schema.Rng, tr []simos.OpRec, want func(o simos.OpRec) bool) []simos.Fault {
	var fs []simos.Fault
	n := pick(r, 1, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		at := chooseOp(r, tr, want)
		if at < 0 {
			break
		}
		if r.P(1, 5) {
			total := 0
			for _, o := range tr {
				if o.Kind == "write" {
					total += o.N
				}
			}
			fs = append(fs, simos.Fault{At: at, Kind: "full", Arg: r.N(total + 1)})
			continue
		}
		fs = append(fs, faultFor(r, at, tr[at]))
	}
	if r.P(1, 8) && len(tr) > 0 {
		fs = append(fs, simos.Fault{At: r.N(len(tr)), Kind: "jump", Arg: r.N(1<<20) - 1<<19})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].At < fs[j].At })
	return fs
}

// stale makes older content of an output directory from a fresh build's.
func stale(r *schema.Rng, out string, fresh map[string]string) map[string]string {
	old := map[string]string{}
	for _, n := range keys(fresh) {
		t := fresh[n]
		p := out + "/" + n
		switch r.N(8) {
		case 0:
			old[p] = t + "\n// tail of an older and longer file\nfunc old() {}\n"
		case 1:
			old[p] = ""
		case 2:
			old[p] = t[:r.N(len(t)+1)]
		case 3:
			old[p] = strings.Repeat("old ", 1+r.N(len(t)/2+10))
		case 4:
			old[p] = t
		case 5:
			b := []byte(t)
			for i := 0; i < 1+r.N(4) && len(b) > 0; i++ {
				b[r.N(len(b))] = byte(r.N(256))
			}
			old[p] = string(b)
		}
	}
	if r.P(1, 3) {
		old[out+"/notes.txt"] = "keep me\n"
	}
	if r.P(1, 4) {
		old[out+"/"+pick(r, "shop/old.data.go", "com/shop/Old.java", "old.ts", "gen.tmp")] = "left by an earlier build\n"
	}
	return old
}

var junk = []string{"", "<", ">", "[", "]", "?", "=", "{", "}", ":", ",", ";", "\"", "//", "/*", "*/", "0x", "99999999999999999999", "-1", "\x00", "\xff\xfe", "data", "enum", "server", "import", "package", "void", "int64", "string", "self", "[db:", "[verify:", "[ui:", "[format:", "[bind:", "[cache:", "null", "1.5", "\"\"", "'", "`", "@", "#", "日本", "[]", "?[]", "<string>", "(", ")", "req", "\r\n"}

func tokens(s string) []string {
	var out []string
	cur := ""
	flush := func() {
		if cur != "" {
			out = append(out, cur)
			cur = ""
		}
	}
	for _, c := range s {
		if c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			cur += string(c)
			continue
		}
		flush()
		out = append(out, string(c))
	}
	flush()
	return out
}

func isWord(t string) bool {
	c := t[0]
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// damage corrupts a text, others are further texts to splice from.
func damage(r *schema.Rng, t string, others []string) string {
	n := pick(r, 1, 1, 1, 2, 3, 6)
	for i := 0; i < n; i++ {
		t = damage1(r, t, others)
	}
	return t
}

func damage1(r *schema.Rng, t string, others []string) string {
	if len(t) == 0 {
		return junk[r.N(len(junk))]
	}
	other := t
	if len(others) > 0 {
		other = others[r.N(len(others))]
	}
	a := r.N(len(t))
	b := a + r.N(min(len(t)-a, 60)+1)
	switch r.N(21) {
	case 18, 19: // references to declarations of another kind
		var decl []string
		for _, o := range others {
			tk := strings.Fields(o)
			for i := 0; i+1 < len(tk); i++ {
				if tk[i] == "data" || tk[i] == "enum" || tk[i] == "server" {
					if n := tokens(tk[i+1]); isWord(n[0]) {
						decl = append(decl, n[0])
					}
				}
			}
		}
		if len(decl) == 0 {
			return t
		}
		tk := tokens(t)
		var at []int
		for i, w := range tk {
			for _, d := range decl {
				if w == d || w != "" && isWord(w) && i > 0 && tk[i-1] == "\"" && r.P(1, 4) {
					at = append(at, i)
					break
				}
			}
		}
		if len(at) == 0 {
			return t
		}
		tk[at[r.N(len(at))]] = decl[r.N(len(decl))]
		return strings.Join(tk, "")
	case 15: // a name replaced everywhere
		tk := tokens(t)
		for k := 0; k < 20; k++ {
			o := tk[r.N(len(tk))]
			if !isWord(o) {
				continue
			}
			w := pick(r, "_a", "a_", "A__b", "a_B_", "é", "_", "__", o+"_", "_"+o, strings.ToUpper(o), strings.ToLower(o), "Id", "id", "void", "data1", "T")
			for i := range tk {
				if tk[i] == o {
					tk[i] = w
				}
			}
			return strings.Join(tk, "")
		}
		return t
	case 16: // heirs of other types
		kw := pick(r, "\ndata ", "\nserver ")
		var at, names []string
		for _, p := range strings.Split("\n"+t, kw)[1:] {
			if h, _, ok := strings.Cut(p, "{"); ok {
				at = append(at, h)
				n, _, _ := strings.Cut(h, ":")
				names = append(names, strings.TrimSpace(n))
			}
		}
		if len(names) == 0 {
			return t
		}
		i := r.N(len(at))
		n := names[r.N(len(names))]
		if strings.Contains(at[i], ":") {
			n = ", " + n
		} else {
			n = ": " + n
		}
		return strings.Replace(t, at[i]+"{", strings.TrimRight(at[i], " ")+n+" = 7 {", 1)
	case 17: // quoted values of others
		tk, ok := strings.Split(t, "\""), strings.Split(other, "\"")
		for k := 0; k < 1+r.N(4) && len(tk) > 2 && len(ok) > 2; k++ {
			tk[min(1+2*r.N(len(tk)/2), len(tk)-1)] = ok[min(1+2*r.N(len(ok)/2), len(ok)-1)]
		}
		return strings.Join(tk, "\"")
	case 0: // torn
		return t[:a]
	case 1: // zero-filled
		return t[:a] + strings.Repeat("\x00", b-a) + t[b:]
	case 2: // bit flip
		x := []byte(t)
		x[a] ^= 1 << r.N(8)
		return string(x)
	case 3: // lost bytes
		return t[:a] + t[b:]
	case 4: // repeated bytes
		return t[:b] + t[a:]
	case 5: // two versions
		c := r.N(len(other) + 1)
		return t[:a] + other[c:]
	case 6:
		return t[:a] + junk[r.N(len(junk))] + t[a:]
	case 7, 8, 9: // words swapped for other words of the sources
		tk := tokens(t)
		ok := tokens(other)
		for k := 0; k < 20; k++ {
			i := r.N(len(tk))
			if len(tk[i]) == 0 || !isWord(tk[i]) {
				continue
			}
			for m := 0; m < 30; m++ {
				w := ok[r.N(len(ok))]
				if len(w) > 0 && isWord(w) && w != tk[i] {
					tk[i] = w
					return strings.Join(tk, "")
				}
			}
		}
		return strings.Join(tk, "")
	case 10: // a token replaced, dropped or doubled
		tk := tokens(t)
		i := r.N(len(tk))
		switch r.N(3) {
		case 0:
			tk[i] = ""
		case 1:
			tk[i] += tk[i]
		case 2:
			tk[i] = junk[r.N(len(junk))]
		}
		return strings.Join(tk, "")
	case 11, 12: // lines
		l := strings.SplitAfter(t, "\n")
		i, j := r.N(len(l)), r.N(len(l))
		switch r.N(4) {
		case 0:
			l[i], l[j] = l[j], l[i]
		case 1:
			l = append(l[:i:i], l[i+1:]...)
		case 2:
			l[i] = l[i] + l[j]
		case 3:
			ol := strings.SplitAfter(other, "\n")
			l[i] = ol[r.N(len(ol))]
		}
		return strings.Join(l, "")
	case 13: // quoted values
		tk := strings.Split(t, "\"")
		if len(tk) > 2 {
			i := 1 + 2*r.N(len(tk)/2)
			if i < len(tk) {
				tk[i] = pick(r, "", ".", "..", "x", "x.", ".x", "self", ":", "id:", "a:b:c", "-", "1e9", "?", "$", "${", "${}", "${id", "?{}", "?{id}", "\\", "%s", "0", "abc.def.ghi", " ")
				return strings.Join(tk, "\"")
			}
		}
		return t
	default: // suffixes of types
		i := strings.IndexByte(t[a:], ' ')
		if i < 0 {
			return t
		}
		return t[:a+i] + pick(r, "?", "[]", "[]?", "?[]", "<string>", "<int64>?", "<", "[") + t[a+i:]
	}
}

// breakSyntax makes a text that does not parse.
func breakSyntax(r *schema.Rng, t string) (string, string) {
	switch r.N(8) {
	case 0:
		if i := strings.LastIndexByte(t, '}'); i >= 0 {
			return t[:i], "closing brace missing"
		}
	case 1:
		return t + "\ndata {\n\tint32 a = 0\n}\n", "declaration without a name"
	case 2:
		return t + "\n@@\n", "illegal characters"
	case 3:
		return t + "\n[db:name=\"x\ndata Zz1 {\n}\n", "unterminated string"
	case 4:
		return t + "\ndata Zz2 {\n\tint32 a\n}\n", "field without a number"
	case 5:
		return t + "\nserver Zz3 {\n\tvoid f( = 1\n}\n", "method without parameters"
	case 6:
		return t + "\nenum Zz4 {\n\tA B C\n}\n", "enum items without values"
	}
	return t + "\nfoo Zz5 {\n}\n", "unknown declaration"
}

// breakMeaning makes a text that parses but fails the checks.
func breakMeaning(r *schema.Rng, s *schema.Schema, files map[string]string, dir string) (string, string) {
	return breakAt(r, s, files, dir, r.N(len(s.Files)), -1)
}

// breakAt makes mistake kind in file fi (any mistake if kind is negative).
// reserved names what nothing may be called.
func reserved(r *schema.Rng) string {
	return pick(r, "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string", "date", "decimal", "data", "server", "enum", "import", "package")
}

func breakAt(r *schema.Rng, s *schema.Schema, files map[string]string, dir string, fi, kind int) (string, string) {
	f := s.Files[fi]
	p := dir + "/" + f.Path
	add := func(text, what string) (string, string) {
		text = strings.ReplaceAll(text, "Zz", fmt.Sprintf("Zz%c", 'a'+fi))
		if r.P(1, 2) {
			files[p] += "\n" + text
		} else {
			// in front of the other declarations
			t := files[p]
			i := strings.Index(t, "\n\n")
			if i < 0 {
				files[p] = t + "\n" + text
			} else {
				files[p] = t[:i+2] + text + "\n" + t[i+2:]
			}
		}
		return p, what
	}
	head := func(line string) { files[p] = line + files[p] }
	_ = head
	dataName := func(f *schema.File) string {
		for _, d := range f.Decls {
			if d.Kind == "data" {
				return d.Name
			}
		}
		return ""
	}
	imported := map[string]bool{p: true}
	for _, i := range f.Imports {
		imported[cleanJoin(dir+"/"+f.Path, i)] = true
	}
	for k := 0; k < 50; k++ {
		n := kind
		if n < 0 || k > 0 {
			n = r.N(63)
		}
		switch n {
		case 0:
			return add("data Zz1 {\n\tMissing9 a = 0\n}\n", "unknown type")
		case 1:
			return add("data Zz1 {\n\tint32 a = 0\n}\ndata Zz1 {\n\tint32 b = 0\n}\n", "duplicate type")
		case 2:
			return add("data Zz1 {\n\tint32 a = 0\n\tint64 a = 1\n}\n", "duplicate field")
		case 3:
			return add("data Zz1 {\n\tint32 a = 3\n\tint64 b = 3\n}\n", "duplicate field number")
		case 4:
			return add("data "+reserved(r)+" {\n\tint32 a = 0\n}\n", "reserved type name")
		case 5:
			return add("data Zz1 {\n\tint32 "+reserved(r)+" = 0\n}\n", "reserved field name")
		case 6:
			return add("data Zz1 : Missing9 = 1 {\n\tint32 a = 0\n}\n", "unknown parent")
		case 7:
			return add("data Zz0 {\n\tint32 a = 0\n}\ndata Zz1 : Zz0 = 1, Zz0 = 2 {\n\tint32 b = 0\n}\n", "duplicate parent")
		case 8:
			return add("data Zz0 {\n\tint32 a = 0\n}\ndata Zz1 {\n\tint32<Zz0> b = 0\n}\n", "data as map key")
		case 9:
			return add("data Zz1 {\n\tint32<string?> b = 0\n}\n", "null map key")
		case 10:
			files[p] = "import \"missing/none.hbuf\"\n" + files[p]
			return p, "missing import"
		case 11:
			// a type of a file that is not imported
			for _, o := range s.Files {
				op := dir + "/" + o.Path
				if !imported[op] && dataName(o) != "" {
					return add("data Zz1 {\n\t"+dataName(o)+" a = 0\n}\n", "type of a file that is not imported")
				}
			}
		case 12:
			return add("enum Zz1 {\n\tA = 0\n\tA = 1\n}\n", "duplicate enum item")
		case 13:
			return add("enum Zz1 {\n\tA = 4\n\tB = 4\n}\n", "duplicate enum value")
		case 14:
			return add("enum Zz1 {\n\t"+reserved(r)+" = 4\n}\n", "reserved enum item name")
		case 15:
			return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 {\n\tvoid f(Zz0 req) = 0\n\tvoid f(Zz0 req) = 1\n}\n", "duplicate method")
		case 16:
			return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 {\n\tMissing9 f(Zz0 req) = 0\n}\n", "unknown result type")
		case 17:
			return add("server Zz1 {\n\tvoid f(Missing9 req) = 0\n}\n", "unknown parameter type")
		case 18:
			return add("enum Zz0 {\n\tA = 0\n}\nserver Zz1 {\n\tvoid f(Zz0 req) = 0\n}\n", "enum as parameter")
		case 19:
			return add("server Zz1 : Missing9 = 1 {\n}\n", "unknown parent of a server")
		case 20:
			return add("[db:name=\"a\"]\n[db:name=\"b\"]\ndata Zz1 {\n\tint32 a = 0\n}\n", "duplicate tag")
		case 21:
			return add("[ui:form=\"a\";form=\"b\"]\ndata Zz1 {\n\tint32 a = 0\n}\n", "duplicate tag key")
		case 22:
			// a name an imported file declares as well
			for _, o := range s.Files {
				if op := dir + "/" + o.Path; imported[op] && op != p && dataName(o) != "" {
					return add("data "+dataName(o)+" {\n\tint32 a = 0\n}\n", "type of an imported file declared again")
				}
			}
		case 24:
			return add("[db:name=\"a\"]\n[ui:form=\"a\";table=\"x\";form=\"b\"]\ndata Zz1 {\n\tint32 a = 0\n}\n", "duplicate key in a later tag")
		case 25:
			return add("data Zz1 {\n\t[lang:en=\"a\"]\n\t[ui:form=\"a\";form=\"b\"]\n\tint32 a = 0\n}\n", "duplicate tag key of a field")
		case 26:
			return add("enum Zz1 {\n\t[lang:en=\"a\"]\n\t[lang:en=\"b\"]\n\tA = 0\n}\n", "duplicate tag of an enum item")
		case 27:
			return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 {\n\t[tag:k=\"a\";k=\"b\"]\n\tvoid f(Zz0 req) = 0\n}\n", "duplicate tag key of a method")
		case 28:
			return add("data Zz1 : Zz2 = 1 {\n\tint32 a = 0\n}\ndata Zz2 : Zz1 = 1 {\n\tint32 b = 0\n}\n", "types that inherit from each other")
		case 29:
			return add("server Zz1 : Zz1 = 1 {\n}\n", "server that inherits from itself")
		case 30:
			return add("data Zz1 {\n\tint32<Missing9> b = 0\n}\n", "unknown map key")
		case 31:
			return add("data Zz1 {\n\tMissing9<int32> b = 0\n}\n", "unknown map value")
		case 32:
			return add("data Zz1 {\n\tint32<string[]> b = 0\n}\n", "array as map key")
		case 33:
			return add("enum Zz1 {\n\tA = 0\n}\ndata Zz1 {\n\tint32 b = 0\n}\n", "data and enum of one name")
		case 34:
			return add("server Zz1 {\n}\nenum Zz1 {\n\tA = 0\n}\n", "server and enum of one name")
		case 35:
			return add(pick(r, "enum", "server")+" "+reserved(r)+" {\n}\n", "reserved name of a server or enum")
		case 36:
			return add("enum Zz0 {\n\tA = 0\n}\ndata Zz1 : Zz0 = 1 {\n\tint32 a = 0\n}\n", "enum as parent")
		case 37:
			return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 : Zz0 = 1 {\n}\n", "data as parent of a server")
		case 38:
			return add("server Zz0 {\n}\ndata Zz1 {\n\tZz0 a = 0\n}\n", "server as field type")
		case 39:
			return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 {\n\tZz0"+pick(r, "[]", "?", "<string>")+" f(Zz0 req) = 0\n}\n", "list, map or null as result")
		case 40:
			return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 {\n\tvoid f(Zz0"+pick(r, "[]", "?", "<string>")+" req) = 0\n}\n", "list, map or null as parameter")
		case 41:
			return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 {\n\tvoid "+reserved(r)+"(Zz0 req) = 0\n}\n", "reserved method name")
		case 42:
			return add("server Zz0 {\n}\nserver Zz1 : Zz0 = 1, Zz0 = 2 {\n}\n", "duplicate parent of a server")
		case 43:
			return add("server Zz0 {\n}\nserver Zz1 {\n\tvoid f(Zz0 req) = 0\n}\n", "server as parameter")
		case 44:
			// a parent of a file that is not imported
			for _, o := range s.Files {
				op := dir + "/" + o.Path
				if !imported[op] && dataName(o) != "" {
					return add("data Zz1 : "+dataName(o)+" = 1 {\n\tint32 a = 0\n}\n", "parent of a file that is not imported")
				}
			}
		case 45:
			return add("[lang:en=\"a\"]\n[lang:en=\"b\"]\nenum Zz1 {\n\tA = 0\n}\n", "duplicate tag of an enum")
		case 46:
			return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 {\n\tvoid f(Zz0 "+reserved(r)+") = 0\n}\n", "reserved parameter name")
		case 47:
			return add("[lang:en=\"a\"]\n[lang:en=\"b\"]\nserver Zz1 {\n}\n", "duplicate tag of a server")
		case 48:
			return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 {\n\t[tag:k=\"a\"]\n\t[lang:en=\"a\"]\n\t[tag:k=\"b\"]\n\tvoid f(Zz0 req) = 0\n}\n", "duplicate tag of a method")
		case 49:
			return add("data Zz1 : Zz2 = 1 {\n\tint32 a = 0\n}\ndata Zz2 : Zz3 = 1 {\n\tint32 b = 0\n}\ndata Zz3 : Zz1 = 1 {\n\tint32 c = 0\n}\n", "three types that inherit from each other")
		case 50:
			return add("server Zz1 : Zz2 = 1 {\n}\nserver Zz2 : Zz1 = 1 {\n}\n", "servers that inherit from each other")
		case 51, 52:
			// a method's types of a file that is not imported
			for _, o := range s.Files {
				op := dir + "/" + o.Path
				if !imported[op] && dataName(o) != "" {
					if n == 51 {
						return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 {\n\tvoid f("+dataName(o)+" req) = 0\n}\n", "parameter of a file that is not imported")
					}
					return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 {\n\t"+dataName(o)+" f(Zz0 req) = 0\n}\n", "result of a file that is not imported")
				}
			}
		case 53:
			return add("data Zz1 {\n\tvoid a = 0\n}\n", "field of type void")
		case 54:
			return add("data Zz1 {\n\tint32 a = 0\n\tint32 b = 1\n\tstring[] c = 2\n\tstring a = 3\n}\n", "duplicate field further on")
		case 55:
			return add("data Zz1 {\n\tint32 a = 5\n\tint32 b = 1\n\tstring[] c = 2\n\tstring? d = 5\n}\n", "duplicate field number further on")
		case 56:
			return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 {\n\tvoid f(Zz0 req) = 0\n\tZz0 g(Zz0 req) = 1\n\tZz0 f(Zz0 req) = 2\n}\n", "duplicate method further on")
		case 57:
			return add("enum Zz1 {\n\tA = 4\n\tB = 3\n\t"+pick(r, "C = 4", "A = 5")+"\n}\n", "duplicate enum item or value further on")
		case 58:
			return add("server Zz1 {\n\tvoid f("+pick(r, "int32", "string", "void", "date")+" req) = 0\n}\n", "base type as parameter")
		case 59:
			return add("data Zz0 {\n\tint32 a = 0\n}\nserver Zz1 {\n\t"+pick(r, "int32", "string", "bool", "decimal")+" f(Zz0 req) = 0\n}\n", "base type as result")
		case 60:
			return add("enum Zz0 {\n\tA = 0\n}\nserver Zz1 {\n\tZz0 f(Zz0 req) = 0\n}\n", "enum as result")
		case 61:
			return add("server Zz0 {\n}\ndata Zz1 {\n\t"+pick(r, "Zz0[]", "Zz0<string>", "Zz0?", "int32<Zz0>")+" a = 0\n}\n", "server in a field's type")
		case 62:
			return add("data Zz0 {\n\tint32 a = 0\n}\ndata Zz2 {\n\tint32 b = 0\n}\ndata Zz1 : Zz0 = 1, Zz2 = 2, Zz0 = 3 {\n\tint32 c = 0\n}\n", "duplicate parent further on")
		case 23:
			return add("data Zz1 {\n\tMissing9[] a = 0\n}\n", "unknown element type")
		}
	}
	return add("data Zz1 {\n\tMissing9 a = 0\n}\n", "unknown type")
}

func cleanJoin(file, imp string) string {
	parts := strings.Split(file[:strings.LastIndexByte(file, '/')]+"/"+imp, "/")
	var out []string
	for _, s := range parts {
		switch s {
		case ".":
		case "..":
			out = out[:len(out)-1]
		default:
			out = append(out, s)
		}
	}
	return strings.Join(out, "/")
}
