//go:build gensim

package main

import (
	"fmt"
	"path"
	"strings"

	"vsim/gs/simos"
	"vsim/gs/simrt"
	"vsim/schema"
)

func viol(key, f string, a ...any) Verdict {
	return Verdict{Useful: true, Viol: &Viol{Key: key, Msg: fmt.Sprintf(f, a...)}}
}

func keep(v Verdict) Verdict {
	v.Viol.Keep = true
	return v
}

func invalid(why string) Verdict { return Verdict{Invalid: true, Label: why} }

// trouble reports how a build failed to end.
func trouble(o *Outcome) string {
	switch {
	case o.Panic != "":
		return "panic: " + o.PanicKey
	case o.Overrun != "":
		return "overrun"
	case o.Deadlock != "":
		return "deadlock"
	}
	return ""
}

func detail(o *Outcome) string { return clip(o.Panic+o.Overrun+o.Deadlock, 1500) }

func outOf(o *Outcome, dir string) map[string]string { return FilesOf(Sub(o.Tree, dir)) }

// freshOf is what a build added to the output directory.
func freshOf(o *Outcome, c *Case) map[string]string {
	m := outOf(o, c.Out)
	for n := range m {
		if _, ok := c.Files[c.Out+"/"+n]; ok {
			delete(m, n)
		}
	}
	return m
}

func incomplete(want, got map[string]string) map[string]string {
	g := map[string]string{}
	for n := range want {
		if v, ok := got[n]; ok {
			g[n] = v
		}
	}
	return g
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func init() {
	props["C01"] = &prop{gen: genC01, judge: judgeC01}
	props["C02"] = &prop{gen: genC02, judge: judgeC02}
	props["C03"] = &prop{gen: genC03, judge: judgeC03}
	props["C04"] = &prop{gen: genC04, judge: judgeC04}
	props["C05"] = &prop{gen: genC05, judge: judgeC05}
	props["C06"] = &prop{gen: genC06, judge: judgeC06}
	props["C07"] = &prop{gen: genC07, judge: judgeC07}
	props["C08"] = &prop{gen: genC08, judge: judgeC08}
	props["C09"] = &prop{gen: genC09, judge: judgeC09}
}

// C01: success means complete.

func genC01(r *schema.Rng, c *Case) {
	c.Kind = "faults"
	c.Files, _ = sources(r, "/work/in", 3)
	if r.P(1, 12) {
		c.Kind = "names may clash"
		c.Files = map[string]string{}
		for n, t := range (&schema.Wide{R: r, MaxFiles: 4, Clash: true}).Schema().Texts() {
			c.Files["/work/in/"+n] = t
		}
	}
	target(r, c)
	c.Cfg = cfg(r)
	ref := Exec(base(c))
	fresh := freshOf(ref, c)
	if r.P(1, 2) {
		c.Old = stale(r, c.Out, fresh)
		if len(fresh) > 0 && r.P(1, 6) {
			// something that cannot be overwritten
			n := keys(fresh)[r.N(len(fresh))]
			if r.P(1, 2) {
				c.Old[c.Out+"/"+n] = "read only"
				c.RO = append(c.RO, c.Out+"/"+n)
			} else {
				delete(c.Old, c.Out+"/"+n)
				c.Dirs = append(c.Dirs, c.Out+"/"+n)
			}
		}
	}
	if r.P(11, 12) {
		tr := Exec(withOld(c, base(c))).Trace
		c.Faults = faults(r, tr, pick(r, isMutation, isMutation, isMutation, nil))
	}
}

func judgeC01(c *Case) Verdict {
	rs := base(c)
	rs.RO, rs.Dirs = nil, nil
	rs.Cfg.IOSeed = 0
	ref := Exec(rs)
	if !ref.OK[0] {
		if t := trouble(ref); c.Kind == "names may clash" && t == "" {
			return Verdict{Useful: true, Label: c.Build.Typ + " clash of names reported"}
		}
		return invalid("sources rejected: " + ref.Errs[0] + trouble(ref))
	}
	want := outOf(ref, c.Out)
	if why := notWhole(c.Build.Typ, c.Files, want); why != "" {
		return viol("success with incomplete output/"+c.Build.Typ, "build -t %s reported success, but %s", c.Build.Typ, why)
	}
	s := withOld(c, base(c))
	s.Faults = c.Faults
	o := Exec(s)
	n, what := fired(o)
	if o.OK[0] {
		got := incomplete(want, outOf(o, c.Out))
		if !same(want, got) {
			return viol("success with incomplete output/"+c.Build.Typ, "build -t %s with faults [%s] reported success, but: %s", c.Build.Typ, what, Diff(want, got))
		}
	} else if t := trouble(o); t != "" && n > 0 {
		return viol(t, "build -t %s with faults [%s] did not report failure: %s\n%s", c.Build.Typ, what, t, detail(o))
	}
	l := "failure reported"
	if o.OK[0] {
		l = "complete"
	}
	return Verdict{Useful: len(want) > 0 && (n > 0 || len(c.Old) > 0), Label: c.Build.Typ + " " + what + " " + l}
}

// C02: the exit status.

func cli(r *schema.Rng, b B) []string {
	a := [][]string{{"-o", b.Out}, {"-i", b.In}, {"-t", b.Typ}}
	if b.Pack != "" {
		a = append(a, []string{"-p", b.Pack})
	}
	for i := range a {
		j := r.N(i + 1)
		a[i], a[j] = a[j], a[i]
	}
	var out []string
	for _, x := range a {
		switch r.N(3) {
		case 0:
			out = append(out, x...)
		case 1:
			out = append(out, x[0]+"="+x[1])
		case 2:
			out = append(out, "-"+x[0], x[1])
		}
	}
	return out
}

func genC02(r *schema.Rng, c *Case) {
	var s *schema.Schema
	c.Files, s = sources(r, "/work/in", 3)
	target(r, c)
	c.Cfg = cfg(r)
	args := cli(r, c.Build)
	switch k := r.N(10); {
	case k < 2:
		c.Kind, c.Valid = "valid", true
		if r.P(1, 2) {
			c.Old = stale(r, c.Out, freshOf(Exec(base(c)), c))
		}
	case k < 4:
		c.Kind = "options"
		drop := func(f string) {
			var a []string
			for i := 0; i < len(args); i++ {
				n := strings.TrimLeft(args[i], "-")
				if n == f {
					i++
					continue
				}
				if strings.HasPrefix(n, f+"=") {
					continue
				}
				a = append(a, args[i])
			}
			args = a
		}
		switch r.N(9) {
		case 0:
			drop("o")
		case 1:
			drop("i")
		case 2:
			drop("t")
		case 3:
			drop("t")
			args = append(args, "-t", pick(r, "rust", "Go", "golang", "c++", "py", "x"))
		case 4:
			drop("o")
			args = append(args, "-o", "")
		case 5:
			args = append([]string{pick(r, "-x", "--out=1", "-O", "--target")}, args...)
		case 6:
			drop("i")
			args = append(args, "-i", "nowhere/*.hbuf")
		case 7:
			args = nil
		case 8:
			drop("t")
			args = append(args, "-t=")
		}
	case k < 6:
		c.Kind = "bad sources"
		if r.P(1, 3) {
			n := keys(c.Files)[r.N(len(c.Files))]
			c.Files[n], _ = breakSyntax(r, c.Files[n])
		} else {
			breakMeaning(r, s, c.Files, "/work/in")
		}
	case k < 7 && r.P(1, 3):
		c.Kind = "version"
		args = []string{pick(r, "-v", "--v", "-v=true")}
		if r.P(1, 2) {
			args = append(args, cli(r, c.Build)...)
		}
	default:
		c.Kind = "faults"
		c.Build.CLI = args
		tr := Exec(base(c)).Trace
		c.Faults = faults(r, tr, nil)
	}
	if args == nil {
		args = []string{}
	}
	c.Build.CLI = args
}

func judgeC02(c *Case) Verdict {
	s := withOld(c, base(c))
	s.Faults = c.Faults
	o := Exec(s)
	said := strings.TrimSpace(o.Stdout+o.Stderr) != ""
	if t := trouble(o); t == "overrun" || t == "deadlock" {
		return viol(t, "the command did not end: %s", detail(o))
	}
	n, what := fired(o)
	label := fmt.Sprintf("%s exit %d %s", c.Kind, min(o.Exit, 2), what)
	v := Verdict{Useful: true, Label: label}
	cmd := "hbuf " + strings.Join(c.Build.CLI, " ")
	switch c.Kind {
	case "options", "bad sources":
		if o.Exit == 0 {
			return keep(viol("exit 0 for "+c.Kind, "%s: exit status 0, output %q", cmd, clip(o.Stdout+o.Stderr, 300)))
		}
		if !said {
			return keep(viol("no diagnostic for "+c.Kind, "%s: exit status %d without a diagnostic", cmd, o.Exit))
		}
		return v
	case "version":
		if o.Exit != 0 {
			return viol("version fails", "%s: exit status %d", cmd, o.Exit)
		}
		return v
	}
	rc := *c
	rc.Build.CLI = nil
	rs := base(&rc)
	rs.Cfg.IOSeed = 0
	ref := Exec(rs)
	if !ref.OK[0] && !c.Valid {
		return invalid("sources rejected: " + ref.Errs[0] + trouble(ref))
	}
	if o.Exit == 0 {
		want := outOf(ref, c.Out)
		got := incomplete(want, outOf(o, c.Out))
		if !same(want, got) {
			return viol("exit 0 with incomplete output", "%s with faults [%s]: exit status 0, but: %s", cmd, what, Diff(want, got))
		}
		return v
	}
	if !said {
		return viol("no diagnostic", "%s with faults [%s]: exit status %d without a diagnostic", cmd, what, o.Exit)
	}
	if n == 0 && len(c.RO) == 0 {
		return keep(viol("valid build fails", "%s: exit status %d on valid sources: %s", cmd, o.Exit, clip(o.Stdout+o.Stderr, 600)))
	}
	return v
}

// C03: determinism.

func genC03(r *schema.Rng, c *Case) {
	var s *schema.Schema
	c.Files, s = sources(r, "/work/in", 4)
	target(r, c)
	c.Cfg = cfg(r)
	c2 := cfg(r)
	c.Cfg2 = &c2
	switch k := r.N(10); {
	case k < 5:
		c.Kind = "valid"
	case k < 6:
		// files of the same name in several directories
		c.Kind = "same names"
		more, _ := sources(r, "/work/in/other", 2)
		have := keys(c.Files)
		for _, n := range keys(more) {
			p := path.Dir(n) + "/" + path.Base(have[r.N(len(have))])
			if _, ok := c.Files[p]; !ok {
				c.Files[p] = more[n]
			}
		}
	default:
		c.Kind = "errors"
		n := 1 + r.N(3)
		if len(s.Files) > 1 && r.P(1, 2) {
			// One mistake in several files: which one is reported?
			n = 0
			kind := r.N(46)
			if r.P(1, 3) {
				kind = 28 + r.N(2)
			}
			for i := range s.Files {
				if i < 2 || r.P(1, 2) {
					breakAt(r, s, c.Files, "/work/in", i, kind)
				}
			}
		}
		for i := 0; i < n; i++ {
			if r.P(1, 4) {
				f := keys(c.Files)[r.N(len(c.Files))]
				c.Files[f], _ = breakSyntax(r, c.Files[f])
			} else {
				breakMeaning(r, s, c.Files, "/work/in")
			}
		}
		if r.P(1, 4) {
			f := keys(c.Files)[r.N(len(c.Files))]
			c.Files[f] = damage(r, c.Files[f], nil)
		}
		if r.P(1, 3) {
			// files whose names differ by case or by a character that
			// sorts oddly: which of them is reported?
			for _, f := range keys(c.Files) {
				if r.P(1, 3) {
					continue
				}
				d, b := path.Split(f)
				b = strings.TrimSuffix(b, ".hbuf")
				c.Files[d+pick(r, strings.ToUpper(b), strings.ToUpper(b[:1])+b[1:], b+"é", b+"-a", b+".a")+".hbuf"] = c.Files[f]
			}
		}
	}
	if r.P(1, 3) {
		c.Old = stale(r, c.Out, freshOf(Exec(base(c)), c))
	}
	if r.P(1, 4) {
		// an earlier build in the same process
		o := c.Build
		o.Typ = types[r.N(4)]
		o.Out = "/other/elsewhere"
		c.Also = append(c.Also, o)
	}
}

func judgeC03(c *Case) Verdict {
	a := Exec(base(c))
	s := withOld(c, base(c))
	if c.Cfg2 != nil {
		s.Cfg = *c.Cfg2
	}
	s.Builds = append(append([]B(nil), c.Also...), c.Build)
	s.Seq = true
	b := Exec(s)
	i := len(c.Also)
	if trouble(a) != "" || trouble(b) != "" {
		if trouble(a) != trouble(b) {
			return viol("one build ends otherwise", "first build: %q, second: %q", a.Errs[0]+trouble(a), b.Errs[i]+trouble(b))
		}
		return Verdict{}
	}
	if a.OK[0] != b.OK[i] || a.Errs[0] != b.Errs[i] {
		return viol("diagnostics differ", "the first build of the same sources says %q, the second %q", orOK(a.Errs[0]), orOK(b.Errs[i]))
	}
	label := c.Kind
	if a.OK[0] {
		want, got := outOf(a, c.Out), outOf(b, c.Out)
		for n := range got {
			p := c.Out + "/" + n
			if _, ok := want[n]; !ok {
				if old, ok := c.Old[p]; ok && old == got[n] {
					delete(got, n)
				}
			}
		}
		if !same(want, got) {
			return viol("outputs differ/"+c.Build.Typ, "two builds -t %s of the same sources differ: %s", c.Build.Typ, Diff(want, got))
		}
	} else {
		label += " rejected"
	}
	if a.Stdout != b.Stdout && len(c.Also) == 0 {
		return viol("printed text differs", "two builds print %q and %q", clip(a.Stdout, 300), clip(b.Stdout, 300))
	}
	return Verdict{Useful: true, Label: c.Build.Typ + " " + label}
}

func orOK(s string) string {
	if s == "" {
		return "ok"
	}
	return s
}

// C04: an interrupted build is repaired by running it again.

func genC04(r *schema.Rng, c *Case) {
	c.Kind = "interrupted"
	c.Files, _ = sources(r, "/work/in", 3)
	target(r, c)
	c.Cfg = cfg(r)
	if r.P(1, 3) {
		c.Old = stale(r, c.Out, freshOf(Exec(base(c)), c))
	}
	tr := Exec(withOld(c, base(c))).Trace
	n := pick(r, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		at := chooseOp(r, tr, pick(r, isMutation, isMutation, nil))
		if at < 0 {
			at = 0
		}
		if r.P(1, 10) {
			at = len(tr) + 1 // after the build
		}
		rd := Round{Faults: []simos.Fault{{At: at, Kind: "crash"}}}
		if r.P(1, 2) {
			rd.Power = 1 + r.U64()%1000000
		}
		if r.P(1, 8) {
			rd.Faults = append(rd.Faults, faults(r, tr, isMutation)...)
		}
		c.Rounds = append(c.Rounds, rd)
	}
}

// carry puts the tree a run left into the next one.
func carry(s *Spec, o *Outcome) {
	tree := o.Tree
	s.Times = map[string]int64{}
	for n, t := range o.Times {
		s.Times["/"+n] = t
	}
	if s.Cfg.Clock < o.Now {
		s.Cfg.Clock = o.Now
	}
	s.Cfg.Clock += 5e9
	s.Files = map[string]string{}
	s.Dirs = nil
	for _, n := range sortedKeys(tree) {
		t := tree[n]
		if strings.HasSuffix(n, "/") {
			s.Dirs = append(s.Dirs, "/"+strings.TrimSuffix(n, "/"))
		} else {
			s.Files["/"+n] = t
		}
	}
}

func judgeC04(c *Case) Verdict {
	first := withOld(c, base(c))
	ref := Exec(first)
	if !ref.OK[0] {
		return invalid("sources rejected: " + ref.Errs[0] + trouble(ref))
	}
	want := outOf(ref, c.Out)
	s := withOld(c, base(c))
	hit := 0
	msg := ""
	for _, rd := range c.Rounds {
		s.Faults, s.Power = rd.Faults, rd.Power
		o := Exec(s)
		if o.Crashed {
			hit++
		}
		if t := trouble(o); t != "" {
			return viol("interrupted run: "+t, "%s", detail(o))
		}
		msg += "; " + describeEnd(o)
		carry(s, o)
	}
	s.Faults, s.Power = nil, 0
	o := Exec(s)
	if !o.OK[0] {
		return viol("second build fails", "after %s, running the build again fails: %s%s", strings.TrimPrefix(msg, "; "), o.Errs[0], detail(o))
	}
	got := outOf(o, c.Out)
	if !same(want, got) {
		return viol("second build leaves other output/"+c.Build.Typ, "after %s, running the build again leaves: %s", strings.TrimPrefix(msg, "; "), Diff(want, got))
	}
	return Verdict{Useful: hit > 0 && len(want) > 0, Label: fmt.Sprintf("%s, %d interruptions", c.Build.Typ, hit)}
}

func describeEnd(o *Outcome) string {
	m := "a complete run"
	if o.Crashed && len(o.Trace) > 0 {
		l := o.Trace[len(o.Trace)-1]
		m = fmt.Sprintf("a kill at operation %d (%s %s)", len(o.Trace)-1, l.Kind, l.Path)
	} else if !o.OK[0] {
		m = "a failed run"
	}
	if o.PowerMsg != "" {
		m += " and " + clip(o.PowerMsg, 300)
	}
	return m
}

// C05: faulty sources leave the output alone.

func genC05(r *schema.Rng, c *Case) {
	var s *schema.Schema
	c.Files, s = sources(r, "/work/in", 4)
	target(r, c)
	c.Cfg = cfg(r)
	ref := Exec(base(c))
	if r.P(2, 3) {
		c.Old = stale(r, c.Out, freshOf(ref, c))
	}
	switch r.N(5) {
	case 0, 1:
		n := keys(c.Files)[r.N(len(c.Files))]
		if r.P(2, 3) {
			t := schema.Spoil(r, c.Files[n])
			c.Kind = "syntax: malformed text"
			if schema.Wellformed(t) {
				c.Kind = "other text"
			}
			c.Files[n] = t
			return
		}
		var what string
		c.Files[n], what = breakSyntax(r, c.Files[n])
		c.Kind = "syntax: " + what
	case 2, 3:
		_, what := breakMeaning(r, s, c.Files, "/work/in")
		c.Kind = "check: " + what
	case 4:
		c.Kind = "unreadable"
		ref = Exec(withOld(c, base(c)))
		at := chooseOp(r, ref.Trace, func(o simos.OpRec) bool {
			return (!isMutation(o) || o.Kind == "close") && strings.HasPrefix(o.Path, "/work/in")
		})
		if at >= 0 {
			c.Faults = []simos.Fault{faultFor(r, at, ref.Trace[at])}
		}
	}
}

func judgeC05(c *Case) Verdict {
	s := withOld(c, base(c))
	s.Faults = c.Faults
	before := map[string]string{}
	for n, t := range s.Files {
		if strings.HasPrefix(n, c.Out+"/") {
			before[strings.TrimPrefix(n, c.Out+"/")] = t
		}
	}
	o := Exec(s)
	n, what := fired(o)
	if t := trouble(o); t != "" {
		return viol(t, "%s: the build does not report failure: %s", c.Kind, detail(o))
	}
	if c.Kind == "unreadable" {
		if n == 0 {
			return Verdict{}
		}
		if o.OK[0] {
			rs := base(c)
			rs.Cfg.IOSeed = 0
			ref := Exec(rs)
			want := outOf(ref, c.Out)
			if got := incomplete(want, outOf(o, c.Out)); !ref.OK[0] || !same(want, got) {
				return viol("unreadable source ignored", "with [%s] on reading the sources the build reports success, but: %s", what, Diff(want, got))
			}
			return Verdict{Useful: true, Label: "unreadable, tolerated"}
		}
	} else if c.Kind == "other text" && o.OK[0] {
		return Verdict{}
	} else if o.OK[0] {
		return keep(viol("accepted: "+c.Kind, "sources with a fault (%s) were accepted", c.Kind))
	}
	if strings.TrimSpace(o.Errs[0]) == "" {
		return viol("no diagnostic", "%s: the build fails without a diagnostic", c.Kind)
	}
	got := outOf(o, c.Out)
	if !same(before, got) {
		return keep(viol("output touched", "%s: the build fails (%s) but changed the output: %s", c.Kind, o.Errs[0], Diff(before, got)))
	}
	return Verdict{Useful: true, Label: c.Build.Typ + " " + c.Kind + " " + what}
}

// C06: nothing outside the output directory changes.

func genC06(r *schema.Rng, c *Case) {
	var s *schema.Schema
	c.Kind = "containment"
	c.Files, s = sources(r, "/work/in", 3)
	target(r, c)
	c.Cfg = cfg(r)
	c.Out = pick(r, "/work/in", "/work/in/gen", "/work/out", "/work", "/work/in/sub", "/work/a/b/c")
	c.Build.Out = pick(r, c.Out, c.Out+"/")
	if c.Out != "/work" && r.P(1, 2) {
		c.Build.Out = strings.TrimPrefix(c.Out, "/work/")
	}
	if c.Out == "/work" && r.P(1, 2) {
		c.Build.Out = "."
	}
	// Files beside the sources, some under names generated files might take.
	for _, n := range []string{"/work/other/shop0.data.go", "/work/README", "/work/in/notes.txt", "/etc/passwd", "/work/in/sub/keep.bin"} {
		if r.P(1, 2) {
			c.Files[n] = "not yours " + n
		}
	}
	if r.P(1, 4) {
		f := s.Files[r.N(len(s.Files))]
		n := "/work/in/" + f.Path
		for _, l := range sortedKeys(f.Packages) {
			p := f.Packages[l]
			if r.P(1, 2) {
				c.Files[n] = strings.Replace(c.Files[n], "package "+l+" = \""+p+"\"", "package "+l+" = \""+pick(r, "../x", "..", "../../etc", "a/../../b", "/etc", "....x")+"\"", 1)
			}
		}
	}
	switch r.N(5) {
	case 0:
	case 1:
		if r.P(1, 2) {
			breakMeaning(r, s, c.Files, "/work/in")
		} else {
			n := keys(c.Files)[r.N(len(c.Files))]
			if strings.HasSuffix(n, ".hbuf") {
				c.Files[n] = damage(r, c.Files[n], nil)
			}
		}
	default:
		tr := Exec(base(c)).Trace
		if r.P(1, 3) && len(tr) > 0 {
			c.Faults = []simos.Fault{{At: r.N(len(tr)), Kind: "crash"}}
		} else {
			c.Faults = faults(r, tr, nil)
		}
	}
}

func inside(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") || dir == "/" }

func judgeC06(c *Case) Verdict {
	s := withOld(c, base(c))
	s.Faults = c.Faults
	o := Exec(s)
	mut := 0
	for _, op := range o.Trace {
		switch op.Kind {
		case "open", "read", "stat", "readdir", "readlink", "close", "sync", "chdir":
			continue
		}
		mut++
		for _, p := range []string{op.Path, op.Path2} {
			if p == "" || inside(p, c.Out) {
				continue
			}
			if op.Kind == "mkdir" && inside(c.Out, p) {
				continue
			}
			return viol("operation outside the output directory: "+op.Kind, "the build does %s %s, which is outside the output directory %s", op.Kind, p, c.Out)
		}
	}
	for _, n := range sortedKeys(s.Files) {
		t := s.Files[n]
		src := strings.HasSuffix(n, ".hbuf")
		if inside(n, c.Out) && !src {
			continue
		}
		g, ok := o.Tree[strings.TrimPrefix(n, "/")]
		if !ok {
			return viol("file lost", "%s is gone after the build", n)
		}
		if g != t {
			return viol("file changed", "%s changed: %s", n, firstDiff(t, g))
		}
	}
	for _, n := range sortedKeys(o.Tree) {
		p := "/" + strings.TrimSuffix(n, "/")
		if inside(p, c.Out) || strings.HasSuffix(n, "/") && inside(c.Out, p) {
			continue
		}
		if _, ok := s.Files[p]; !ok && !strings.HasSuffix(n, "/") {
			return viol("file appeared", "%s appeared outside the output directory %s", p, c.Out)
		}
	}
	n, what := fired(o)
	_ = n
	return Verdict{Useful: mut > 0, Label: c.Build.Typ + " out=" + c.Out + " " + what}
}

// C07: damaged sources.

// lattice declares layers of types that inherit from all of the layer before,
// so that there are many ways from the last to the first.
func lattice(r *schema.Rng) string {
	var b strings.Builder
	b.WriteString("package go = \"lat\"\npackage java = \"com.lat\"\n")
	n, wide := 2+r.N(28), 1+r.N(3)
	loop := -1
	if r.P(1, 4) {
		loop = r.N(n)
	}
	for _, k := range pick(r, []string{"data"}, []string{"data", "server"}, []string{"data", "server"}) {
		for i := 0; i < n; i++ {
			for j := 0; j < wide; j++ {
				fmt.Fprintf(&b, "%s %c%d_%d", k, k[0]-32, i, j)
				sep := " : "
				for l := 0; l < wide; l++ {
					if i > 0 && (l < 2 || r.P(1, 2)) {
						fmt.Fprintf(&b, "%s%c%d_%d = %d", sep, k[0]-32, i-1, l, l+1)
						sep = ", "
					}
				}
				if i == loop && j == 0 {
					fmt.Fprintf(&b, "%s%c%d_0 = 9", sep, k[0]-32, r.N(n))
				}
				if k == "data" {
					fmt.Fprintf(&b, " {\n\tstring f%d%d = 1\n}\n", i, j)
				} else {
					fmt.Fprintf(&b, " {\n\tD0_0 m%d%d(D0_0 req) = 1\n}\n", i, j)
				}
			}
		}
	}
	return b.String()
}

func genC07(r *schema.Rng, c *Case) {
	c.Kind = "damaged"
	var all []string
	c.Files, _ = sources(r, "/work/in", 3)
	if r.P(1, 8) {
		// files without a directory part or of unusual names
		c.Files["/work/in/"+pick(r, "a.hbuf", "x.y.hbuf", ".hbuf", "sub/.hbuf")] = "package go = \"p\"\ndata A {\n\tint32 a = 0\n}\n"
	}
	for _, n := range keys(c.Files) {
		all = append(all, c.Files[n])
	}
	target(r, c)
	c.Cfg = cfg(r)
	for i := 0; i < pick(r, 1, 1, 1, 2); i++ {
		n := keys(c.Files)[r.N(len(c.Files))]
		c.Files[n] = damage(r, c.Files[n], all)
	}
	if r.P(1, 30) {
		// deep nesting and long texts
		n := keys(c.Files)[r.N(len(c.Files))]
		c.Files[n] += strings.Repeat(pick(r, "[", "{", "data a{", "<", "int32<", "(", "/*", "\"", "[a:"), 1+r.N(3000))
	}
	if r.P(1, 25) {
		c.Files = map[string]string{"/work/in/lat.hbuf": lattice(r)}
		if r.P(1, 4) {
			c.Files["/work/in/lat.hbuf"] = damage(r, c.Files["/work/in/lat.hbuf"], all)
		}
	}
	if r.P(1, 25) {
		n := keys(c.Files)[r.N(len(c.Files))]
		b := make([]byte, r.N(400))
		for i := range b {
			b[i] = byte(r.N(256))
		}
		c.Files[n] = string(b)
	}
}

func judgeC07(c *Case) Verdict {
	// Every target generates in its own way.
	var v Verdict
	for i, t := range append([]string{c.Build.Typ}, types...) {
		if i > 0 && t == c.Build.Typ {
			continue
		}
		s := base(c)
		s.Builds[0].Typ = t
		o := Exec(s)
		if x := trouble(o); x != "" {
			return viol(x, "build -t %s: %s\n%s", t, x, detail(o))
		}
		if !o.Finished[0] {
			return viol("not finished", "build -t %s did not end", t)
		}
		if i == 0 {
			v.Useful = true
			v.Label = "accepted"
			if !o.OK[0] {
				v.Label = "rejected"
				if strings.TrimSpace(o.Errs[0]) == "" {
					return viol("no diagnostic", "the build fails without a message")
				}
			}
		}
		if !o.OK[0] && i == 0 && strings.Contains(o.Errs[0], ".hbuf:") && v.Label == "rejected" {
			v.Label = "rejected at a position"
		}
	}
	return v
}

// C08: concurrent builds.

func genC08(r *schema.Rng, c *Case) {
	c.Kind = pick(r, "concurrent", "concurrent", "concurrent", "concurrent", "concurrent", "concurrent", "concurrent", "one after the other")
	c.Solo = r.P(1, 8)
	c.Files = map[string]string{}
	n := 2 + r.N(2)
	c.Cfg = cfg(r)
	c.Cfg.SchedSeed = r.U64() % 1000000000
	c.Cfg.Preempt = pick(r, 2, 5, 20, 100, 1000)
	for i := 0; i < n; i++ {
		dir := fmt.Sprintf("/work/p%d", i)
		if i > 0 && r.P(1, 3) {
			dir = "/work/p0" // the same sources
		} else {
			fs, s := sources(r, dir, 2)
			if r.P(1, 6) {
				breakMeaning(r, s, fs, dir)
			}
			for k, t := range fs {
				c.Files[k] = t
			}
		}
		c.Also = append(c.Also, B{Out: fmt.Sprintf("/work/out%d", i), In: dir + "/*.hbuf", Typ: types[r.N(4)], Pack: pick(r, "demo/", "com/acme/")})
	}
}

func judgeC08(c *Case) Verdict {
	mk := func(bs []B, seq bool) *Spec {
		return &Spec{Files: c.Files, Builds: bs, Cfg: c.Cfg, Seq: seq}
	}
	if len(c.Also) < 1 {
		return Verdict{}
	}
	was := Isolated
	var alone []*Outcome
	for _, b := range c.Also {
		// A process of its own shows state that builds leave in the process.
		Isolated = was || c.Solo || c.Kind != "concurrent"
		s := mk([]B{b}, false)
		s.Cfg.Preempt = 0
		alone = append(alone, Exec(s))
		Isolated = was
	}
	o := Exec(mk(c.Also, c.Kind != "concurrent"))
	for i, b := range c.Also {
		a := alone[i]
		if trouble(a) != "" || trouble(o) != "" {
			if trouble(a) == "" {
				return viol("together: "+trouble(o), "builds that end alone do not end together: %s", detail(o))
			}
			return Verdict{}
		}
		if a.OK[0] != o.OK[i] || a.Errs[0] != o.Errs[i] {
			return viol("result differs", "build %d (-t %s) says %q alone and %q beside the others", i, b.Typ, orOK(a.Errs[0]), orOK(o.Errs[i]))
		}
		want, got := outOf(a, b.Out), outOf(o, b.Out)
		if !same(want, got) {
			return viol("output differs/"+b.Typ, "build %d (-t %s) leaves other output beside the others than alone: %s", i, b.Typ, Diff(want, got))
		}
	}
	if len(o.Races) > 0 {
		return viol("data race", "data race between concurrent builds: %s", strings.Join(o.Races, "; "))
	}
	return Verdict{Useful: len(c.Also) > 1 && (o.Switches > len(c.Also) || c.Kind != "concurrent"), Label: c.Kind}
}

// C09: a shared position set.

func genC09(r *schema.Rng, c *Case) {
	c.Kind = "parsers"
	c.Cfg = simrt.Config{SchedSeed: r.U64() % 1000000000, Preempt: pick(r, 2, 3, 10, 50, 300), MapSeed: r.U64() % 1000, CPUs: 4}
	fs, _ := sources(r, "/work/in", 4)
	names := keys(fs)
	p := &ParseSpec{}
	nt := 2 + r.N(4)
	for t := 0; t < nt; t++ {
		var ops []POp
		for i := 0; i < 1+r.N(4); i++ {
			switch r.N(6) {
			case 0, 1, 2:
				n := names[r.N(len(names))]
				text := fs[n]
				if r.P(1, 8) {
					text = damage(r, text, nil)
				}
				if r.P(1, 10) {
					text = ""
				}
				ops = append(ops, POp{Op: "parse", Name: fmt.Sprintf("%s#%d.%d", n, t, i), Text: text})
			case 3:
				o := POp{Op: "add", Name: fmt.Sprintf("add%d.%d", t, i), Size: r.N(200)}
				l := 0
				for k := 0; k < r.N(8); k++ {
					l += 1 + r.N(20)
					if l < o.Size {
						o.Lines = append(o.Lines, l)
					}
				}
				ops = append(ops, o)
			case 4:
				ops = append(ops, POp{Op: "look", N: r.N(1000)})
			case 5:
				ops = append(ops, POp{Op: "iter", N: r.N(1000)})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	c.Parse = p
}

func judgeC09(c *Case) Verdict {
	o := Exec(&Spec{Parse: c.Parse, Cfg: c.Cfg})
	if t := trouble(o); t != "" {
		return viol(t, "%s", detail(o))
	}
	var res []string
	for _, p := range o.Problems {
		if !strings.HasPrefix(p, "RESULT ") {
			return viol("position set", "%s", p)
		}
		res = append(res, p)
	}
	sp := *c.Parse
	sp.Split = true
	k := c.Cfg
	k.Preempt = 0
	ref := Exec(&Spec{Parse: &sp, Cfg: k})
	if strings.Join(res, "\n") != strings.Join(ref.Problems, "\n") {
		return viol("parse results differ", "parsing into a shared set gives\n%s\nand into sets of their own\n%s", strings.Join(res, "\n"), strings.Join(ref.Problems, "\n"))
	}
	if len(o.Races) > 0 {
		return viol("data race", "data race on a shared position set: %s", strings.Join(o.Races, "; "))
	}
	return Verdict{Useful: len(c.Parse.Tasks) > 1 && o.Switches > len(c.Parse.Tasks), Label: fmt.Sprintf("%d tasks", len(c.Parse.Tasks))}
}
