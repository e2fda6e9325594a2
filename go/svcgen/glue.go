package svcgen

import (
	"fmt"
	"sort"
	"strings"

	"vsim/schema"
	"vsim/ss/meta"
)

// Make builds the description of one simulator build.
func Make(seed uint64, db, cached, svc int) *meta.Meta {
	m := &meta.Meta{Seed: seed}
	for i := 0; i < db; i++ {
		m.Schemas = append(m.Schemas, DB(schema.NewRng(seed*1000003+uint64(i)*7919+1), i, i < cached))
	}
	for i := 0; i < svc; i++ {
		m.Schemas = append(m.Schemas, Services(schema.NewRng(seed*1000003+uint64(i)*104729+500000), i, Opt{Of: svc}))
	}
	return m
}

// MakeTS builds the description of the services that are generated in
// TypeScript too; with mixed they run in Go as well.
func MakeTS(seed uint64, mixed bool, n int) *meta.Meta {
	m := &meta.Meta{Seed: seed}
	for i := 0; i < n; i++ {
		m.Schemas = append(m.Schemas, Services(schema.NewRng(seed*1000003+uint64(i)*104729+900000), i, Opt{NoZero: true, Keys: !mixed, Of: n}))
	}
	return m
}

// Glue renders the Go file that makes the generated packages known to the harness.
func Glue(m *meta.Meta, prefix string) string {
	imports := map[string]bool{}
	var body strings.Builder
	body.WriteString("func init() {\n")
	for _, s := range m.Schemas {
		typ := func(pkg, n string) {
			imports[pkg] = true
			fmt.Fprintf(&body, "\tTypes[%q] = reflect.TypeOf(%s.%s{})\n", s.Pkg+"."+n, pkg, n)
		}
		for _, t := range s.Tables {
			typ(s.Pkg, t.Type)
		}
		for _, t := range s.Reqs {
			typ(s.Pkg, t.Type)
		}
		for _, t := range s.Datas {
			typ(t.Pkg, t.Type)
		}
	}
	var impls strings.Builder
	for _, s := range m.Schemas {
		pkgOf := func(n string) string { return s.Data(n).Pkg }
		for _, v := range s.Servers {
			imports[v.Pkg] = true
			q := v.Pkg + "." + v.Type
			fmt.Fprintf(&body, "\tServices[%q] = &Service{\n", s.Pkg+"."+v.Type)
			fmt.Fprintf(&body, "\t\tClient: func(c rpc.Client) any { return %s.New%sClient(c) },\n", v.Pkg, v.Type)
			fmt.Fprintf(&body, "\t\tRouter: func(s any) rpc.ServerRouter { return %s.New%sRouter(s.(%s)) },\n", v.Pkg, v.Type, q)
			fmt.Fprintf(&body, "\t\tImpl: func(h Handler) any { return %s(&impl_%s_%s{h}) },\n", q, s.Pkg, v.Type)
			fmt.Fprintf(&body, "\t\tGet: func(ctx context.Context) any { return %s.Get%s(ctx) },\n", v.Pkg, v.Type)
			fmt.Fprintf(&body, "\t\tDefault: func() any { return %s(&%s.Default%s{}) },\n", q, v.Pkg, v.Type)
			fmt.Fprintf(&body, "\t\tNotFound: func() any { return %s.NotFound%s },\n", v.Pkg, v.Type)
			fmt.Fprintf(&body, "\t\tIs: func(x any) bool { _, ok := x.(%s); return ok },\n", q)
			body.WriteString("\t}\n")
			fmt.Fprintf(&impls, "type impl_%s_%s struct{ h Handler }\n\n", s.Pkg, v.Type)
			fmt.Fprintf(&impls, "func (i *impl_%s_%s) Init(ctx context.Context) {}\n\n", s.Pkg, v.Type)
			for _, x := range v.Methods {
				imports[pkgOf(x.Param)] = true
				p := pkgOf(x.Param) + "." + x.Param
				if x.Result == "" {
					fmt.Fprintf(&impls, "func (i *impl_%s_%s) %s(ctx context.Context, req *%s) error {\n\t_, err := i.h(ctx, %q, %q, req)\n\treturn err\n}\n\n", s.Pkg, v.Type, x.Go, p, s.Pkg+"."+v.Type, x.Go)
					continue
				}
				imports[pkgOf(x.Result)] = true
				res := pkgOf(x.Result) + "." + x.Result
				fmt.Fprintf(&impls, "func (i *impl_%s_%s) %s(ctx context.Context, req *%s) (*%s, error) {\n\tr, err := i.h(ctx, %q, %q, req)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn r.(*%s), nil\n}\n\n", s.Pkg, v.Type, x.Go, p, res, s.Pkg+"."+v.Type, x.Go, res)
			}
		}
	}
	body.WriteString("}\n\n")
	var out strings.Builder
	out.WriteString("package main\n\nimport (\n\t\"context\"\n\t\"reflect\"\n\n\t\"github.com/wskfjtheqian/hbuf_golang/pkg/rpc\"\n\n")
	var ps []string
	for p := range imports {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Fprintf(&out, "\t%s %q\n", p, prefix+p)
	}
	out.WriteString(")\n\nvar _ context.Context\nvar _ rpc.Client\nvar _ reflect.Type\n\n")
	out.WriteString(body.String())
	out.WriteString(impls.String())
	return out.String()
}
