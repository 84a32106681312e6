package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() { checks["C09"] = checkC09 }

// tieSubject is a module in which most functions have many equally short
// paths to a capability, and many functions compare equal by name.
func (r *Run) tieSubject(rnd *rand.Rand) *Subject {
	files := map[string]string{}
	n := 6
	sinks := []string{"os.Getenv(\"x\")", "os.Getpid()", "os.Remove(\"x\")", "os.Exit(1)", "os.StartProcess(\"\", nil, nil)", "os.Chdir(\"/\")"}
	perm := rnd.Perm(n)
	for i := 0; i < n; i++ {
		var b strings.Builder
		fmt.Fprintf(&b, "package p\n\nimport (\n\t\"os\"\n")
		if i > 0 {
			for j := 0; j < i; j++ {
				fmt.Fprintf(&b, "\tp%d \"ex.com/m/d%d/p\"\n", j, perm[j])
			}
		}
		fmt.Fprintf(&b, ")\n\ntype I interface{ M() }\n\n")
		for k := 0; k < 6; k++ {
			fmt.Fprintf(&b, "type T%d struct{}\n\nfunc (T%d) M() { %s }\nfunc (*T%d) N() { %s; %s }\n", k, k, sinks[(k+i)%len(sinks)], k, sinks[k], sinks[k])
			fmt.Fprintf(&b, "func S%d() { %s; os.Getenv(\"a\"); os.Getenv(\"b\") }\n", k, sinks[rnd.Intn(len(sinks))])
		}
		fmt.Fprintf(&b, "func All(i I) {\n\ti.M()\n")
		for _, k := range rnd.Perm(6) {
			fmt.Fprintf(&b, "\tS%d(); S%d()\n", k, (k+1)%6)
		}
		fmt.Fprintf(&b, "}\n\nvar is = []I{T0{}, T1{}, T2{}, T3{}, T4{}, T5{}}\n\nfunc Dyn() { for _, i := range is { All(i); i.M() } }\n")
		fmt.Fprintf(&b, "func Fns() {\n\tfor _, f := range []func(){")
		for _, k := range rnd.Perm(6) {
			fmt.Fprintf(&b, "S%d, ", k)
		}
		fmt.Fprintf(&b, "func() { os.Getuid() }, func() { os.Getuid(); S0() }} {\n\t\tf()\n\t}\n}\n")
		fmt.Fprintf(&b, "func Local() {\n")
		for k := 0; k < 3; k++ {
			fmt.Fprintf(&b, "\t{\n\t\ttype L struct{ T%d }\n\t\tvar i I = L{}\n\t\ti.M()\n\t}\n", k)
		}
		fmt.Fprintf(&b, "}\n\nfunc G[T I](t T) { t.M(); S1() }\n\nfunc Gs() { G(T0{}); G(T1{}); G(T2{}); G(struct{ T3 }{}); G(struct{ T4 }{}) }\n\nfunc init() { S0() }\nfunc init() { S1() }\nfunc init() { Dyn() }\n")
		if i > 0 {
			fmt.Fprintf(&b, "\nfunc Cross() {\n")
			for j := 0; j < i; j++ {
				fmt.Fprintf(&b, "\tp%d.Dyn(); p%d.Fns(); p%d.All(p%d.T1{}); p%d.Gs()\n", j, j, j, j, j)
			}
			fmt.Fprintf(&b, "}\n\nfunc CrossDyn() { for _, f := range []func(){")
			for j := 0; j < i; j++ {
				fmt.Fprintf(&b, "p%d.S0, p%d.S1, p%d.Dyn, ", j, j, j)
			}
			fmt.Fprintf(&b, "} { f() } }\n")
		}
		files[fmt.Sprintf("d%d/p/x.go", perm[i])] = b.String()
		files[fmt.Sprintf("d%d/p/y.go", perm[i])] = "package p\n\nimport \"os\"\n\nfunc init() { os.Getegid() }\n"
	}
	s := r.srcSubject("ties", files)
	s.Patterns = nil
	for i := 0; i < n; i++ {
		s.Patterns = append(s.Patterns, fmt.Sprintf("./d%d/p", i))
	}
	return s
}

type detMode struct {
	name string
	args []string
	set  bool // compare as a set of lines
}

// decompress returns the output in the form that is compared.
func (m detMode) form(s string) string {
	if m.set {
		return lineSet(s)
	}
	return s
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			x := ""
			if i < len(lb) {
				x = lb[i]
			}
			// Long lines: show the part around the difference.
			k := 0
			for k < len(la[i]) && k < len(x) && la[i][k] == x[k] {
				k++
			}
			k = max(0, k-150)
			return fmt.Sprintf("line %d: %q and %q", i+1, clip(la[i][k:], 400), clip(x[min(k, len(x)):], 400))
		}
	}
	return fmt.Sprintf("%d and %d lines", len(la), len(lb))
}

func (r *Run) repeats(s *Subject, k int) {
	rnd := r.rng("rep/" + s.Name)
	c := &Case{S: s, Name: "det"}
	if s.Prog != nil {
		c.User, c.NoBlt = sinkMap(rnd, s.Prog), s.NoBuilt
	}
	base := filepath.Join(r.tmp("base"), "b.json")
	first := r.capslock(s.Dir, c.Args(r, "-output=json")...)
	if first.Code != 0 {
		if s.Prog != nil && !s.builds() {
			r.Count("invalid generated programs skipped", 1)
			return
		}
		r.Violate("exit/"+s.Name, fmt.Sprintf("exit %d: %s", first.Code, clip(first.Err, 1000)), nil, c.replayDir())
		return
	}
	rep, err := parseReport(first.Out)
	r.must(err)
	// A baseline with two thirds of the entries and some that are gone.
	bl := &Report{}
	for i, e := range rep.CapabilityInfo {
		if (i+int(rnd.Int31n(2)))%3 != 0 {
			bl.CapabilityInfo = append(bl.CapabilityInfo, e)
		}
	}
	for i := 0; i < 20; i++ {
		g := &CapInfo{PackageName: "gone", PackageDir: fmt.Sprintf("gone.org/p%d", i%5), Capability: "CAPABILITY_" + reportCaps[i%len(reportCaps)], CapabilityType: "CAPABILITY_TYPE_DIRECT", Path: []PathFn{{Name: fmt.Sprintf("gone.org/p%d.F%d", i%5, i), Package: "gone"}}}
		g.DepPath = g.Path[0].Name
		bl.CapabilityInfo = append(bl.CapabilityInfo, g)
	}
	b, err := json.Marshal(bl)
	r.must(err)
	r.must(os.WriteFile(base, b, 0o644))
	modes := []detMode{
		{"json", []string{"-output=json"}, false},
		{"json-package", []string{"-output=json", "-granularity=package"}, false},
		{"json-intermediate", []string{"-output=json", "-granularity=intermediate"}, false},
		{"machine", []string{"-output=m"}, false},
		{"default", nil, false},
		{"verbose", []string{"-output=v"}, false},
		{"graph", []string{"-output=graph"}, true},
		{"graph-caps", []string{"-output=graph", "-capabilities=-FILES,-UNANALYZED"}, true},
		{"compare", []string{"-output=compare", base}, false},
		{"compare-function", []string{"-output=compare", "-granularity=function", base}, false},
		{"compare-intermediate", []string{"-output=compare", "-granularity=intermediate", base}, false},
		{"compare-omit", []string{"-output=compare", "-granularity=function", "-omit_paths", base}, false},
		{"json-noisy", []string{"-output=json", "-noisy"}, false},
	}
	copyTo := func() string {
		d := r.tmp([]string{"z", "a-much-longer-directory-name.with.dots", "A b"}[rnd.Intn(3)])
		d = filepath.Join(d, []string{"0", "mmmm", "zz/y"}[rnd.Intn(3)])
		if os.MkdirAll(d, 0o755) != nil || copyDir(s.Dir, d) != nil {
			r.inconclusive("copying %s", s.Name)
		}
		return d
	}
	type variant struct {
		what string
		dir  string
		env  []string
		pats []string
	}
	procs := []string{"1", "2", "3", "8", "32"}
	var vars []variant
	for i := 0; i < k; i++ {
		v := variant{what: "repetition", dir: s.Dir, pats: s.Patterns}
		v.env = []string{"GOMAXPROCS=" + procs[(i+rnd.Intn(2))%len(procs)]}
		if rnd.Intn(3) == 0 {
			v.env = append(v.env, "GOGC="+[]string{"5", "off", "400"}[rnd.Intn(3)])
		}
		if rnd.Intn(3) == 0 {
			v.env = append(v.env, "GODEBUG=asyncpreemptoff=1")
		}
		switch {
		case i%3 == 1 && len(s.Patterns) > 1:
			v.what = "other package order"
			p := append([]string{}, s.Patterns...)
			rnd.Shuffle(len(p), func(a, b int) { p[a], p[b] = p[b], p[a] })
			if sort.StringsAreSorted(p) {
				sort.Sort(sort.Reverse(sort.StringSlice(p)))
			}
			if rnd.Intn(2) == 0 {
				p = append(p, p[rnd.Intn(len(p))])
				v.what += " with a duplicate"
			}
			v.pats = p
		case i%3 == 2 && s.Dir != "/repo" && !strings.Contains(s.Dir, "stdmod"):
			v.what = "other directory"
			v.dir = copyTo()
		}
		vars = append(vars, v)
	}
	if !r.thorough() && s.Name != "ties" {
		rest := modes[1:]
		rnd.Shuffle(len(rest), func(a, b int) { rest[a], rest[b] = rest[b], rest[a] })
		modes = append([]detMode{modes[0]}, rest[:3]...)
	}
	for _, m := range modes {
		ref := r.capslock(s.Dir, c.Args(r, m.args...)...)
		want := m.form(ref.Out)
		if m.name == "json" && want != first.Out {
			r.Violate("repetition/json/"+s.Name, fmt.Sprintf("two runs gave different JSON reports: %s", firstDiff(first.Out, ref.Out)), nil, c.replayDir())
		}
		for _, v := range vars {
			cc := *c
			s2 := &Subject{Name: s.Name, Dir: v.dir, Patterns: v.pats, Prog: s.Prog}
			cc.S = s2
			args := cc.Args(r, m.args...)
			got := r.capslockOpt(CmdOpt{Dir: v.dir, Env: v.env}, args...)
			if got.Code != ref.Code || m.form(got.Out) != want {
				r.Violate(fmt.Sprintf("%s/%s/%s", v.what, m.name, s.Name), fmt.Sprintf("%s, %s output, %s (%v): exit %d and %d; %s", s.Name, m.name, v.what, v.env, ref.Code, got.Code, firstDiff(want, m.form(got.Out))),
					map[string]string{"command.txt": "capslock " + strings.Join(args, " "), "out1.txt": ref.Out, "out2.txt": got.Out, "base.json": string(b)}, c.replayDir())
			}
			r.Count(v.what+" runs compared", 1)
			r.Count("output bytes compared", len(got.Out))
			if len(want) > 0 {
				r.Eval(fmt.Sprintf("%s %s %s %v", s.Name, m.name, v.what, v.env))
			} else {
				r.Eval("")
			}
		}
		r.Sample(map[string]any{"subject": s.Name, "mode": m.name, "bytes": len(ref.Out), "exit": ref.Code, "variants": len(vars)})
	}
}

// histories runs random sequences of library calls on the same packages in one
// process; every result must be the one a fresh process gives.
func (r *Run) histories(s *Subject, i int) {
	rnd := r.rng(fmt.Sprintf("hist/%s/%d", s.Name, i))
	text := "func os.Getenv CAPABILITY_NETWORK\nunanalyzed os.Getpid\n"
	if s.Prog != nil {
		text = sinkMap(rnd, s.Prog).String()
	}
	pre := []LibOp{
		{Op: "classifier", ID: "c0", Source: "default"},
		{Op: "classifier", ID: "c1", Source: "noisy"},
		{Op: "classifier", ID: "c2", Source: "user", Text: text},
		{Op: "classifier", ID: "c3", Source: "user", Text: text, Exclude: true},
		{Op: "load", ID: "p", Dir: s.Dir, Patterns: s.Patterns},
	}
	base := filepath.Join(r.tmp("base"), "b.json")
	r.must(os.WriteFile(base, []byte(`{"capabilityInfo":[{"packageName":"x","capability":"CAPABILITY_FILES","depPath":"gone.F","path":[{"name":"gone.F"}],"packageDir":"gone","capabilityType":"CAPABILITY_TYPE_DIRECT"}]}`), 0o644))
	mk := func() LibOp {
		o := LibOp{Op: []string{"info", "info", "counts", "stats", "graph", "run", "run", "run"}[rnd.Intn(8)], Load: "p", Class: fmt.Sprintf("c%d", rnd.Intn(4))}
		o.Disable = o.Class == "c3"
		o.Gran = []string{"", "", "package", "function", "intermediate"}[rnd.Intn(5)]
		o.Omit = rnd.Intn(4) == 0
		if rnd.Intn(3) == 0 {
			cs := randomCaps(rnd, nil)
			o.Caps = &cs
		}
		if o.Op == "run" {
			o.Output = []string{"json", "m", "", "v", "graph", "compare"}[rnd.Intn(6)]
			if o.Output == "compare" {
				o.Args = []string{base}
			}
		}
		return o
	}
	var seq []LibOp
	shared := map[string]LibOp{}
	for k := 0; k < r.pick(4, 12); k++ {
		o := mk()
		// Some operations share a Config value, so all its settings agree.
		if rnd.Intn(2) == 0 {
			id := fmt.Sprintf("cfg%d", rnd.Intn(2))
			if p, ok := shared[id]; ok {
				o.Class, o.Disable, o.Gran, o.Omit, o.Caps = p.Class, p.Disable, p.Gran, p.Omit, p.Caps
			} else {
				shared[id] = o
			}
			o.Config = id
		}
		seq = append(seq, o)
		if rnd.Intn(3) == 0 {
			seq = append(seq, o)
		}
	}
	ops := append(append([]LibOp{}, pre...), seq...)
	got, pr := r.lib(r.Lib, ops)
	if got == nil {
		r.Violate(fmt.Sprintf("history-crash/%s", s.Name), "library driver failed: "+clip(pr.Err, 3000), map[string]string{"ops.json": opsJSON(ops)}, "")
		return
	}
	for _, p := range got[:len(pre)] {
		if p.Err != "" || p.Panic != "" {
			if s.Prog != nil && !s.builds() {
				return
			}
			r.inconclusive("history setup: %s%s", p.Err, p.Panic)
		}
	}
	memo := map[string]LibRes{}
	for k, o := range seq {
		f := o
		f.Config = ""
		kb, _ := json.Marshal(f)
		want, ok := memo[string(kb)]
		if !ok {
			fresh, pr := r.lib(r.Lib, append(append([]LibOp{}, pre...), f))
			if fresh == nil {
				r.Violate(fmt.Sprintf("history-crash/%s", s.Name), "library driver failed: "+clip(pr.Err, 3000), map[string]string{"ops.json": opsJSON([]LibOp{f})}, "")
				return
			}
			want = fresh[len(pre)]
			memo[string(kb)] = want
		}
		g := got[len(pre)+k]
		if o.Op == "run" && o.Output == "graph" {
			g.Out, want.Out = lineSet(g.Out), lineSet(want.Out)
		}
		d := ""
		switch {
		case g.Panic != want.Panic:
			d = "panic " + clip(g.Panic, 1500)
		case g.Err != want.Err:
			d = fmt.Sprintf("error %q and %q", want.Err, g.Err)
		case g.Out != want.Out:
			d = firstDiff(want.Out, g.Out)
		case strings.Join(g.List, "\n") != strings.Join(want.List, "\n"):
			d = firstDiff(strings.Join(want.List, "\n"), strings.Join(g.List, "\n"))
		}
		if d != "" {
			r.Violate(fmt.Sprintf("history/%s/%s-%s-%s", s.Name, o.Op, o.Output, o.Gran), fmt.Sprintf("%s: operation %d of a sequence (%s %s granularity %q) differs from the result in a fresh process: %s", s.Name, k, o.Op, o.Output, o.Gran, d),
				map[string]string{"ops.json": opsJSON(ops), "operation.json": opsJSON([]LibOp{o})}, "")
		}
		r.Count("history results compared", 1)
		r.Eval(fmt.Sprintf("history %s %d: %s after %d", s.Name, i, kb, k))
	}
}

func checkC09(r *Run) {
	r.rule = "one evaluation = one output compared with the output of another run or a fresh process; non-trivial = distinct subject, mode and perturbation with non-empty output"
	r.assume = []string{"hash seeds and goroutine schedules are perturbed by repetition and GOMAXPROCS, not enumerated"}
	var subs []*Subject
	subs = append(subs, r.tieSubject(r.rng("ties")))
	shapes := r.shapeSubjects()
	subs = append(subs, shapes...)
	subs = append(subs, r.oddSubjects()...)
	subs = append(subs, &Subject{Name: "testpkgs", Dir: "/repo", Patterns: []string{"./testpkgs/callos", "./testpkgs/rewrites", "./testpkgs/usegenerics", "./testpkgs/indirectcalls"}})
	if r.thorough() {
		subs = append(subs, r.stdSubjects("net/http,encoding/json", "text/template,os/exec,go/types")...)
	} else {
		subs = append(subs, r.stdSubjects("text/template,os/exec")...)
	}
	for i := 0; i < r.pick(2, 30); i++ {
		rnd := r.rng(fmt.Sprint("gen", i))
		subs = append(subs, r.genSubject(fmt.Sprintf("gen%d", i), rnd, 3+rnd.Intn(4), 10+rnd.Intn(18), 40+rnd.Intn(60), 4, rnd.Intn(4)))
	}
	type job func()
	var jobs []job
	for i, s := range subs {
		k := r.pick(3, 5)
		if i == 0 {
			k = r.pick(4, 12)
		}
		jobs = append(jobs, func() { r.repeats(s, k) })
	}
	for i, s := range subs {
		n := 2
		if !r.thorough() {
			n = (i + int(r.Seed)) % 2
		}
		if i == 0 {
			n = r.pick(2, 6)
		}
		for k := 0; k < n; k++ {
			jobs = append(jobs, func() { r.histories(s, k) })
		}
	}
	r.parallel(len(jobs), 8, func(i int) { jobs[i]() })
	r.Require("repetition runs compared", 50)
	r.Require("history results compared", 30)
}
