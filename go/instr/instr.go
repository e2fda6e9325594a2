// Package instr copies the packages of the program under test into a scratch
// module and rewrites them to run under the simulator: imports with effects are
// redirected to simulated packages, statements get scheduling points, and map
// iteration, goroutines and channel operations go through the simulator.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Shims maps import paths to their simulated replacements.
var Shims = map[string]string{
	"os":            "vsim/gs/simos",
	"sync":          "vsim/gs/simsync",
	"fmt":           "vsim/gs/shims/fmt",
	"path/filepath": "vsim/gs/shims/filepath",
	"io/ioutil":     "vsim/gs/shims/ioutil",
	"time":          "vsim/gs/shims/time",
	"log":           "vsim/gs/shims/log",
	"flag":          "vsim/gs/shims/flag",
	"math/rand":     "vsim/gs/shims/rand",
	"math/rand/v2":  "vsim/gs/shims/randv2",
	"runtime":       "vsim/gs/shims/runtime",
	"maps":          "vsim/gs/shims/maps",
}

// handWritten shims need no forwarding.
var handWritten = map[string]bool{"os": true, "sync": true, "maps": true}

// Pkg is what go list says about a package.
type Pkg struct {
	ImportPath string
	Name       string
	Dir        string
	Standard   bool
	Export     string
	GoFiles    []string
	EmbedFiles []string
	Imports    []string
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

// List runs go list.
func List(dir string, args ...string) ([]*Pkg, error) {
	cmd := exec.Command("go", append([]string{"list", "-json=ImportPath,Name,Dir,Standard,Export,GoFiles,EmbedFiles,Imports,Error"}, args...)...)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list %v: %v\n%s", args, err, errb.String())
	}
	var pkgs []*Pkg
	d := json.NewDecoder(&out)
	for {
		var p Pkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pkgs = append(pkgs, &p)
	}
	return pkgs, nil
}

type edit struct {
	off  int
	end  int
	text string
	seq  int
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	edits []edit
}

func (f *file) insert(off int, text string) {
	f.edits = append(f.edits, edit{off, off, text, len(f.edits)})
}
func (f *file) replace(off, end int, text string) {
	f.edits = append(f.edits, edit{off, end, text, len(f.edits)})
}

func (f *file) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].off != f.edits[j].off {
			return f.edits[i].off < f.edits[j].off
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range f.edits {
		if e.off < pos {
			// Nested replacement: keep the outer one.
			continue
		}
		b.Write(f.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(f.src[pos:])
	return b.Bytes()
}

// Report says what was instrumented.
type Report struct {
	Packages []string
	Files    int
	Points   int
	MapIters int
	GoStmts  int
	ChanOps  int
	Imports  map[string]int
}

// Instrument copies the packages reachable from ./cmd of the module in repo to
// dst (module hbuf) and rewrites them.
func Instrument(repo, dst string) (*Report, error) {
	pkgs, err := List(repo, "-deps", "-export", "./cmd")
	if err != nil {
		return nil, err
	}
	exports := map[string]string{}
	var own []*Pkg
	modPath := ""
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if !p.Standard {
			own = append(own, p)
		}
	}
	modPath = "hbuf"
	rep := &Report{Imports: map[string]int{}}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	checked := map[string]*types.Package{}
	imp := importFunc(func(path string) (*types.Package, error) {
		if p := checked[path]; p != nil {
			return p, nil
		}
		return gc.Import(path)
	})
	needed := map[string]bool{}
	for _, p := range own {
		if p.ImportPath != modPath && !strings.HasPrefix(p.ImportPath, modPath+"/") {
			continue // third party: left alone
		}
		var files []*file
		var asts []*ast.File
		for _, n := range p.GoFiles {
			path := filepath.Join(p.Dir, n)
			src, err := os.ReadFile(path)
			if err != nil {
				return nil, err
			}
			a, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			files = append(files, &file{name: n, src: src, ast: a})
			asts = append(asts, a)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Uses:  map[*ast.Ident]types.Object{},
			Defs:  map[*ast.Ident]types.Object{},
		}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		tp, err := conf.Check(p.ImportPath, fset, asts, info)
		if err != nil {
			return nil, fmt.Errorf("type checking %s: %v", p.ImportPath, err)
		}
		checked[p.ImportPath] = tp
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		if p.Name == "main" {
			rel = "zzmain"
		}
		out := filepath.Join(dst, rel)
		if err := os.MkdirAll(out, 0o755); err != nil {
			return nil, err
		}
		for i, f := range files {
			in := &inst{f: f, fset: fset, info: info, rep: rep, needed: needed}
			in.run(p.Name == "main", i == 0)
			if err := os.WriteFile(filepath.Join(out, f.name), f.apply(), 0o644); err != nil {
				return nil, err
			}
			rep.Files++
		}
		for _, e := range p.EmbedFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, e))
			if err != nil {
				return nil, err
			}
			os.MkdirAll(filepath.Dir(filepath.Join(out, e)), 0o755)
			if err := os.WriteFile(filepath.Join(out, e), b, 0o644); err != nil {
				return nil, err
			}
		}
		rep.Packages = append(rep.Packages, p.ImportPath)
	}
	return rep, nil
}

type importFunc func(string) (*types.Package, error)

func (f importFunc) Import(p string) (*types.Package, error) { return f(p) }

type inst struct {
	f      *file
	fset   *token.FileSet
	info   *types.Info
	rep    *Report
	needed map[string]bool
	tmp    int
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }
func (in *inst) text(n ast.Node) string {
	return string(in.f.src[in.off(n.Pos()):in.off(n.End())])
}

func (in *inst) run(isMain, first bool) {
	a := in.f.ast
	if isMain {
		in.f.replace(in.off(a.Name.Pos()), in.off(a.Name.End()), "zzmain")
	}
	in.f.insert(in.off(a.Name.End()), `; import zzrt "vsim/gs/simrt"`)
	for _, im := range a.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		in.rep.Imports[path]++
		if to, ok := Shims[path]; ok {
			in.needed[path] = true
			name := filepath.Base(path)
			if path == "math/rand/v2" {
				name = "rand"
			}
			if im.Name != nil {
				name = ""
			}
			in.f.replace(in.off(im.Path.Pos()), in.off(im.Path.End()), strings.TrimSpace(name+" "+strconv.Quote(to)))
		}
	}
	for _, d := range a.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				in.body(d.Body)
			}
		case *ast.GenDecl:
			ast.Inspect(d, in.exprVisit)
		}
	}
	in.f.insert(len(in.f.src), "\nvar _ = zzrt.Y\n")
	if isMain && first {
		in.f.insert(len(in.f.src), "\nfunc ZZMain() { main() }\n")
	}
}

// body instruments a function body.
func (in *inst) body(b *ast.BlockStmt) {
	in.f.insert(in.off(b.Lbrace)+1, " zzrt.Enter(); defer zzrt.Leave(); ")
	in.block(b.List)
}

func (in *inst) block(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		in.f.insert(in.off(s.Pos()), "zzrt.Y(); ")
		in.rep.Points++
		in.stmt(s)
	}
}

func (in *inst) exprVisit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.FuncLit:
		in.body(n.Body)
		return false
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			in.rep.ChanOps++
			in.f.replace(in.off(n.OpPos), in.off(n.OpPos)+2, "zzrt.Recv(")
			in.f.insert(in.off(n.End()), ")")
		}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "print" || id.Name == "println") {
			if _, ok := in.info.Uses[id].(*types.Builtin); ok {
				to := "zzrt.Print"
				if id.Name == "println" {
					to = "zzrt.Println"
				}
				in.f.replace(in.off(id.Pos()), in.off(id.End()), to)
			}
		}
	}
	return true
}

func (in *inst) expr(e ast.Expr) {
	if e != nil {
		ast.Inspect(e, in.exprVisit)
	}
}

func (in *inst) node(n ast.Node) {
	if n != nil {
		ast.Inspect(n, in.exprVisit)
	}
}

// recv2 rewrites v, ok := <-ch.
func (in *inst) recv2(rhs []ast.Expr, nl int) bool {
	if len(rhs) == 1 && nl == 2 {
		if u, ok := ast.Unparen(rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			in.rep.ChanOps++
			in.f.replace(in.off(u.OpPos), in.off(u.OpPos)+2, "zzrt.Recv2(")
			in.expr(u.X)
			in.f.insert(in.off(u.End()), ")")
			return true
		}
	}
	return false
}

func (in *inst) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case nil:
	case *ast.BlockStmt:
		in.block(s.List)
	case *ast.LabeledStmt:
		in.stmt(s.Stmt)
	case *ast.IfStmt:
		in.stmt(s.Init)
		in.expr(s.Cond)
		in.block(s.Body.List)
		in.stmt(s.Else)
	case *ast.ForStmt:
		in.stmt(s.Init)
		in.expr(s.Cond)
		in.stmt(s.Post)
		in.f.insert(in.off(s.Body.Lbrace)+1, " zzrt.Y(); ")
		in.block(s.Body.List)
	case *ast.RangeStmt:
		in.rangeStmt(s)
	case *ast.SwitchStmt:
		in.stmt(s.Init)
		in.expr(s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				in.expr(e)
			}
			in.block(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		in.stmt(s.Init)
		in.node(s.Assign)
		for _, c := range s.Body.List {
			in.block(c.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		in.tmp++
		v := "zzb" + strconv.Itoa(in.tmp)
		hasDefault := false
		for _, c := range s.Body.List {
			if c.(*ast.CommClause).Comm == nil {
				hasDefault = true
			}
		}
		if !hasDefault {
			in.f.insert(in.off(s.Pos()), v+" := zzrt.BlockBegin(); ")
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			in.rep.ChanOps++
			if !hasDefault {
				in.f.insert(in.off(cc.Colon)+1, " zzrt.BlockEnd("+v+"); ")
			}
			in.block(cc.Body)
		}
	case *ast.GoStmt:
		in.goStmt(s)
	case *ast.SendStmt:
		in.rep.ChanOps++
		in.f.insert(in.off(s.Pos()), "zzrt.Send(")
		in.expr(s.Chan)
		in.f.replace(in.off(s.Arrow), in.off(s.Arrow)+2, ",")
		in.expr(s.Value)
		in.f.insert(in.off(s.End()), ")")
	case *ast.AssignStmt:
		if in.recv2(s.Rhs, len(s.Lhs)) {
			return
		}
		in.node(s)
	default:
		in.node(s)
	}
}

func (in *inst) goStmt(s *ast.GoStmt) {
	in.rep.GoStmts++
	c := s.Call
	in.tmp++
	n := strconv.Itoa(in.tmp)
	// { zzf := fun; zza0 := arg...; zzrt.Go(func() { zzf(zza0) }) }
	in.f.replace(in.off(s.Go), in.off(c.Fun.Pos()), "{ zzf"+n+" := ")
	in.expr(c.Fun)
	var args []string
	prev := c.Fun.End()
	for i, a := range c.Args {
		tv := in.info.Types[a]
		if tv.IsNil() || tv.Value != nil {
			in.f.replace(in.off(prev), in.off(a.End()), "; ")
			args = append(args, in.text(a))
			prev = a.End()
			continue
		}
		v := "zza" + n + "x" + strconv.Itoa(i)
		in.f.replace(in.off(prev), in.off(a.Pos()), "; "+v+" := ")
		in.expr(a)
		args = append(args, v)
		prev = a.End()
	}
	call := strings.Join(args, ", ")
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	in.f.replace(in.off(prev), in.off(c.Rparen)+1, "; zzrt.Go(func() { zzf"+n+"("+call+") }) }")
}

func (in *inst) rangeStmt(s *ast.RangeStmt) {
	tv := in.info.Types[s.X]
	var under types.Type
	if tv.Type != nil {
		under = coreType(tv.Type)
	}
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch under.(type) {
	case *types.Map:
		in.rep.MapIters++
		in.tmp++
		it := "zzl" + strconv.Itoa(in.tmp)
		k, v := !isBlank(s.Key), !isBlank(s.Value)
		fn, lhs, ka, va := "Iter", it, "nil", "nil"
		if s.Tok == token.DEFINE {
			if k {
				fn += "K"
				lhs += ", " + in.text(s.Key)
				ka = "&" + in.text(s.Key)
			}
			if v {
				fn += "V"
				lhs += ", " + in.text(s.Value)
				va = "&" + in.text(s.Value)
			}
		} else {
			if k {
				ka = "&" + in.text(s.Key)
			}
			if v {
				va = "&" + in.text(s.Value)
			}
		}
		in.f.replace(in.off(s.For), in.off(s.X.Pos()), "for "+lhs+" := zzrt."+fn+"(")
		in.expr(s.X)
		in.f.insert(in.off(s.X.End()), "); "+it+".Next("+ka+", "+va+"); ")
	case *types.Chan:
		in.rep.ChanOps++
		in.tmp++
		it := "zzc" + strconv.Itoa(in.tmp)
		if !isBlank(s.Key) && s.Tok == token.DEFINE {
			in.f.replace(in.off(s.For), in.off(s.X.Pos()), "for "+it+", "+in.text(s.Key)+" := zzrt.ChanIter1(")
			in.expr(s.X)
			in.f.insert(in.off(s.X.End()), "); "+it+".Next(&"+in.text(s.Key)+"); ")
		} else {
			a := "nil"
			if !isBlank(s.Key) {
				a = "&" + in.text(s.Key)
			}
			in.f.replace(in.off(s.For), in.off(s.X.Pos()), "for "+it+" := zzrt.ChanIter(")
			in.expr(s.X)
			in.f.insert(in.off(s.X.End()), "); "+it+".Next("+a+"); ")
		}
	default:
		in.expr(s.X)
	}
	in.f.insert(in.off(s.Body.Lbrace)+1, " zzrt.Y(); ")
	in.block(s.Body.List)
}

func coreType(t types.Type) types.Type {
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		iface := tp.Constraint().Underlying().(*types.Interface)
		var core types.Type
		for i := 0; i < iface.NumEmbeddeds(); i++ {
			et := iface.EmbeddedType(i)
			if un, ok := et.(*types.Union); ok {
				for j := 0; j < un.Len(); j++ {
					core = un.Term(j).Type().Underlying()
				}
			} else {
				core = et.Underlying()
			}
		}
		return core
	}
	return u
}

// WriteForwards writes, for every shim, a file that forwards the exported names
// of the real package that the shim does not define itself.
func WriteForwards(gsDir string) error {
	var std []string
	for p := range Shims {
		if !handWritten[p] {
			std = append(std, p)
		}
	}
	sort.Strings(std)
	pkgs, err := List(gsDir, append([]string{"-deps", "-export"}, std...)...)
	if err != nil {
		return err
	}
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		return os.Open(exports[path])
	})
	for _, path := range std {
		dir := filepath.Join(gsDir, strings.TrimPrefix(Shims[path], "vsim/gs/"))
		defined := map[string]bool{}
		pname := ""
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || e.Name() == "forward.go" {
				continue
			}
			a, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
			if err != nil {
				return err
			}
			pname = a.Name.Name
			for _, d := range a.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						defined[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, sp := range d.Specs {
						switch sp := sp.(type) {
						case *ast.TypeSpec:
							defined[sp.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range sp.Names {
								defined[n.Name] = true
							}
						}
					}
				}
			}
		}
		pkg, err := gc.Import(path)
		if err != nil {
			return err
		}
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport real %q\n\n", pname, path)
		for _, name := range pkg.Scope().Names() {
			o := pkg.Scope().Lookup(name)
			if !o.Exported() || defined[name] {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real.%s\n", name, name)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
			case *types.TypeName:
				if n, ok := o.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = real.%s\n", name, name)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
			}
		}
		fmt.Fprintf(&b, "\nvar _ = real.%s\n", firstValue(pkg))
		if err := os.WriteFile(filepath.Join(dir, "forward.go"), []byte(b.String()), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func firstValue(pkg *types.Package) string {
	for _, name := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(name)
		if f, ok := o.(*types.Func); ok && f.Exported() && f.Type().(*types.Signature).TypeParams().Len() == 0 {
			return name
		}
	}
	return ""
}
