package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func init() { checks["C17"] = checkC17 }

// A faultCase is a source tree or command line with an error, or a control
// without one.
type faultCase struct {
	name  string
	files map[string]string
	pats  string
	flags []string
	env   []string
	ok    bool // control: must succeed
}

func (r *Run) faultCases() []faultCase {
	const goodGo = "package good\n\nimport \"ex.com/m/leaf\"\n\nfunc F() { leaf.L() }\n"
	const leaf = "package leaf\n\nfunc L() {}\n"
	tree := func(more map[string]string) map[string]string {
		f := map[string]string{"go.mod": "module ex.com/m\n\ngo 1.23\n", "good/good.go": goodGo, "leaf/leaf.go": leaf, "mid/mid.go": "package mid\n\nimport \"ex.com/m/bad\"\n\nfunc M() { bad.B() }\n", "bad/bad.go": "package bad\n\nfunc B() {}\n", "top/top.go": "package top\n\nimport \"ex.com/m/mid\"\n\nfunc T() { mid.M() }\n"}
		for k, v := range more {
			if v == "" {
				delete(f, k)
			} else {
				f[k] = v
			}
		}
		return f
	}
	var out []faultCase
	// Faults of package bad, queried directly, through a dependency, through two
	// dependencies, and next to a good package.
	bads := map[string]map[string]string{
		"syntax error":            {"bad/bad.go": "package bad\n\nfunc B() {\n"},
		"not go":                  {"bad/bad.go": "hello\n"},
		"empty file":              {"bad/extra.go": "\n"},
		"type error":              {"bad/bad.go": "package bad\n\nfunc B() { var x int = \"s\"; _ = x }\n"},
		"undefined name":          {"bad/bad.go": "package bad\n\nfunc B() { undefined() }\n"},
		"unused variable":         {"bad/bad.go": "package bad\n\nfunc B() { x := 1 }\n"},
		"unused import":           {"bad/bad.go": "package bad\n\nimport \"ex.com/m/leaf\"\n\nfunc B() {}\n"},
		"missing return":          {"bad/bad.go": "package bad\n\nfunc B() int {}\n\nfunc C() {}\n"},
		"duplicate declaration":   {"bad/two.go": "package bad\n\nfunc B() {}\n"},
		"package clash":           {"bad/two.go": "package other\n\nfunc Two() {}\n"},
		"unresolved import":       {"bad/bad.go": "package bad\n\nimport _ \"ex.com/m/nothere\"\n\nfunc B() {}\n"},
		"unresolved std import":   {"bad/bad.go": "package bad\n\nimport _ \"no/such/std\"\n\nfunc B() {}\n"},
		"missing module":          {"bad/bad.go": "package bad\n\nimport _ \"missing.example/x\"\n\nfunc B() {}\n"},
		"import cycle":            {"bad/bad.go": "package bad\n\nimport _ \"ex.com/m/cyc\"\n\nfunc B() {}\n", "cyc/cyc.go": "package cyc\n\nimport _ \"ex.com/m/bad\"\n"},
		"self import":             {"bad/bad.go": "package bad\n\nimport _ \"ex.com/m/bad\"\n\nfunc B() {}\n"},
		"constraints exclude all": {"bad/bad.go": "//go:build never\n\npackage bad\n\nfunc B() {}\n"},
		"initialization cycle":    {"bad/bad.go": "package bad\n\nvar a, b = b, a\n\nfunc B() {}\n"},
		"import of main":          {"bad/bad.go": "package bad\n\nimport _ \"ex.com/m/cmd\"\n\nfunc B() {}\n", "cmd/main.go": "package main\n\nfunc main() {}\n"},
		"internal package":        {"bad/bad.go": "package bad\n\nimport _ \"ex.com/m/leaf/x/internal/i\"\n\nfunc B() {}\n", "leaf/x/internal/i/i.go": "package i\n"},
		"wrong argument count":    {"bad/bad.go": "package bad\n\nfunc f(int) {}\n\nfunc B() { f() }\n"},
		"invalid utf8":            {"bad/bad.go": "package bad\n\nfunc B() { _ = \"\xff\" }\n"},
		"error in second file":    {"bad/two.go": "package bad\n\nfunc Two() { undefined2() }\n"},
		"language version":        {"bad/bad.go": "//go:build go1.17\n\npackage bad\n\nimport \"ex.com/m/leaf\"\n\nfunc B() { leaf.Nope() }\n"},
		"generic misuse":          {"bad/bad.go": "package bad\n\nfunc g[T ~int](t T) {}\n\nfunc B() { g(\"x\") }\n"},
		"removed dependency":      {"bad/bad.go": ""},
	}
	gopathEnv := []string{"GO111MODULE=off", "GOFLAGS=", "GOPATH={dir}"}
	gopath := func(f map[string]string) map[string]string {
		g := map[string]string{}
		for n, t := range f {
			g["src/ex.com/m/"+n] = t
		}
		return g
	}
	for _, n := range sortedKeys(bads) {
		for _, q := range []string{"./bad", "./mid", "./top", "./good,./bad", "./top,./good", "ex.com/m/...", "./top/top.go"} {
			out = append(out, faultCase{name: n + " " + q, files: tree(bads[n]), pats: q})
		}
		// The same without modules.
		out = append(out, faultCase{name: n + " in GOPATH mode", files: gopath(tree(bads[n])), pats: []string{"ex.com/m/top", "ex.com/m/bad", "ex.com/m/mid,ex.com/m/good"}[len(out)%3], env: gopathEnv})
	}
	mods := map[string]string{
		"malformed go.mod":           "module ex.com/m\n\ngo 1.23\n\nrequire (\n",
		"bad go version":             "module ex.com/m\n\ngo one\n",
		"unsatisfied requirement":    "module ex.com/m\n\ngo 1.23\n\nrequire missing.example/y v1.0.0\n",
		"replacement does not exist": "module ex.com/m\n\ngo 1.23\n\nrequire missing.example/y v1.0.0\n\nreplace missing.example/y => ./nothere\n",
		"future go version":          "module ex.com/m\n\ngo 1.99\n",
	}
	for _, n := range sortedKeys(mods) {
		t := tree(map[string]string{"go.mod": mods[n]})
		if n == "unsatisfied requirement" || strings.HasPrefix(n, "replacement") {
			t["bad/bad.go"] = "package bad\n\nimport _ \"missing.example/y\"\n\nfunc B() {}\n"
		}
		out = append(out, faultCase{name: n, files: t, pats: "./bad"})
	}
	g := tree(nil)
	flags := []faultCase{
		{name: "unknown granularity", flags: []string{"-granularity=module"}},
		{name: "capitalised granularity", flags: []string{"-granularity=Package"}},
		{name: "unknown capability", flags: []string{"-capabilities=FILE"}},
		{name: "mixed capabilities", flags: []string{"-capabilities=FILES,-NETWORK"}},
		{name: "disable_builtin without map", flags: []string{"-disable_builtin"}},
		{name: "missing map", flags: []string{"-capability_map=nothere.cm"}},
		{name: "map is a directory", flags: []string{"-capability_map=good"}},
		{name: "malformed map", flags: []string{"-capability_map=bad.cm"}},
		{name: "malformed map without builtin", flags: []string{"-capability_map=bad.cm", "-disable_builtin"}},
		{name: "map with duplicate", flags: []string{"-capability_map=dup.cm"}},
		{name: "unknown flag", flags: []string{"-nosuchflag"}},
		{name: "bad flag value", flags: []string{"-noisy=maybe"}},
		{name: "unexpected argument", flags: []string{"extra"}},
		{name: "unknown goos", flags: []string{"-goos=bogus"}},
		{name: "unknown goarch", flags: []string{"-goarch=bogus"}},
		{name: "cpu profile cannot be created", flags: []string{"-cpuprofile=nothere/x"}},
		{name: "unknown package", pats: "./nothere"},
		{name: "unknown package next to a good one", pats: "./good,./nothere"},
		{name: "unknown import path", pats: "missing.example/z"},
		{name: "unknown std package", pats: "no/such/package"},
		{name: "no packages match", pats: "ex.com/m/nothere/..."},
		{name: "no packages match pattern in directory", pats: "./nothere/..."},
		{name: "empty directory", pats: "./empty"},
		{name: "directory with only tests", pats: "./onlytest"},
		{name: "file that does not exist", pats: "nothere.go"},
		{name: "path outside the module", pats: "../.."},
		{name: "bad pattern", pats: "./good/%%"},
		{name: "go command missing", pats: "./good", env: []string{"PATH=/nonexistent"}},
		{name: "bad GOFLAGS", pats: "./good", env: []string{"GOFLAGS=-nosuchflag"}},
		{name: "bad GOOS in environment", pats: "./good", env: []string{"GOOS=bogus"}},
		{name: "go command fails", pats: "./good", env: []string{"PATH=" + r.fakeGo("exit 1")}},
		{name: "go command prints garbage", pats: "./good", env: []string{"PATH=" + r.fakeGo("echo garbage")}},
		{name: "go command is killed", pats: "./good", env: []string{"PATH=" + r.fakeGo("kill -9 $$")}},
		{name: "build cache unusable", pats: "./good", env: []string{"GOCACHE=off"}},
	}
	g["bad.cm"], g["dup.cm"], g["empty/readme"], g["onlytest/x_test.go"] = "func a.b CAPABILITY_FILES\nx\n", "func a.b CAPABILITY_FILES\nfunc a.b CAPABILITY_FILES\n", "x", "//go:build never\n\npackage onlytest\n"
	g["ok.cm"] = "func ex.com/m/leaf.L CAPABILITY_FILES\n"
	for _, f := range flags {
		f.files = g
		if f.pats == "" {
			f.pats = "./good"
		}
		out = append(out, f)
	}
	// Controls: problems elsewhere do not matter.
	ctl := tree(map[string]string{"bad/bad.go": "package bad\n\nfunc B() {\n", "good/good_test.go": "package good\n\nfunc syntax error\n", "good/ignored.go": "//go:build never\n\npackage zzz\n\nfunc (\n", "good/_x.go": "junk"})
	out = append(out,
		faultCase{name: "control: errors in other packages", files: ctl, pats: "./good", ok: true},
		faultCase{name: "control: several packages", files: ctl, pats: "./good,./leaf", ok: true},
		faultCase{name: "control: clean tree", files: g, pats: "./top", ok: true},
		faultCase{name: "control: files", files: ctl, pats: "./good/good.go", ok: true},
		faultCase{name: "control: GOPATH mode", files: gopath(ctl), pats: "ex.com/m/good,ex.com/m/leaf", env: gopathEnv, ok: true},
		faultCase{name: "control: forced local", files: g, pats: "./top", flags: []string{"-force_local_module"}, ok: true},
		faultCase{name: "control: map", files: g, pats: "./good", flags: []string{"-capability_map=ok.cm"}, ok: true},
		faultCase{name: "control: map only", files: g, pats: "./good", flags: []string{"-capability_map=ok.cm", "-disable_builtin", "-noisy", "-v=2"}, ok: true},
		faultCase{name: "control: no capabilities", files: g, pats: "./leaf", flags: []string{"-omit_paths"}, ok: true},
	)
	return out
}

// fakeGo makes a directory with a go command that behaves as given.
func (r *Run) fakeGo(script string) string {
	d := r.tmp("fakego")
	r.must(os.WriteFile(filepath.Join(d, "go"), []byte("#!/bin/sh\n"+script+"\n"), 0o755))
	return d + ":/usr/bin:/bin"
}

var reportModes = []string{"json", "m", "", "v", "graph", "compare"}

func checkC17(r *Run) {
	r.Level = "fault_enumeration"
	r.rule = "one evaluation = one run with an injected fault (or a control run) whose exit status and streams were observed; non-trivial = distinct fault, output mode and write position"
	r.assume = []string{"a process killed by a signal because its output is a broken pipe counts as not successful"}
	cases := r.faultCases()
	dirs := map[string]string{}
	type job struct {
		c    faultCase
		mode string
		dir  string
	}
	var jobs []job
	for i, c := range cases {
		key := fmt.Sprint(c.files)
		if dirs[key] == "" {
			dirs[key] = r.tmp("fault")
			r.writeFiles(dirs[key], c.files)
			r.must(os.WriteFile(filepath.Join(dirs[key], "baseline.json"), []byte("{}"), 0o644))
		}
		modes := []string{reportModes[i%6], reportModes[(i+1+i/6)%6]}
		if c.ok || r.thorough() {
			modes = reportModes
		}
		for k, m := range modes {
			cc := c
			if k%2 == 1 && !c.ok {
				cc.flags = append([]string{"-force_local_module"}, c.flags...)
			}
			jobs = append(jobs, job{cc, m, dirs[key]})
		}
	}
	r.parallel(len(jobs), 8, func(i int) {
		j := jobs[i]
		args := []string{"-packages=" + j.c.pats}
		if j.mode != "" {
			args = append(args, "-output="+j.mode)
		}
		args = append(args, j.c.flags...)
		if j.mode == "compare" {
			args = append(args, "baseline.json")
		}
		if j.c.name == "unexpected argument" && j.mode == "compare" {
			return
		}
		var env []string
		for _, e := range j.c.env {
			env = append(env, strings.ReplaceAll(e, "{dir}", j.dir))
		}
		res := r.capslockOpt(CmdOpt{Dir: j.dir, Env: env}, args...)
		files := map[string]string{"command.txt": fmt.Sprintf("env %v capslock %s", j.c.env, strings.Join(args, " ")), "stdout.txt": clip(res.Out, 5000), "stderr.txt": clip(res.Err, 5000)}
		if j.c.ok {
			good := res.Code == 0 && res.Out != ""
			if j.mode == "m" {
				good = res.Code == 0
			}
			if j.mode == "compare" {
				good = res.Code == 0 && res.Out == "" || res.Code == 1 && res.Out != ""
			}
			if !good {
				r.Violate("control/"+j.c.name, fmt.Sprintf("%s, output %q: exit %d, %d bytes of output: %s", j.c.name, j.mode, res.Code, len(res.Out), clip(res.Err, 500)), files, j.dir)
			}
			r.Count("control runs", 1)
		} else {
			if res.Code != 2 || res.Out != "" || strings.TrimSpace(res.Err) == "" {
				r.Violate("fault/"+j.c.name, fmt.Sprintf("%s, output %q: exit %d, output %q, message %q", j.c.name, j.mode, res.Code, clip(res.Out, 200), clip(res.Err, 300)), files, j.dir)
			}
			r.Count("faults injected in sources, flags and environment", 1)
		}
		r.Eval(j.c.name + " " + j.mode)
	})
	r.writeFaults()
	r.Require("faults injected in sources, flags and environment", 100)
	r.Require("control runs", 20)
	r.Require("write failures injected", 10)
}

// writeFaults makes writing the report fail, at once and after each number of
// successful writes.
func (r *Run) writeFaults() {
	src := "package a\n\nimport \"ex.com/m/sink\"\n\n"
	for i := 0; i < 40; i++ {
		src += fmt.Sprintf("func F%d() { sink.S%d() }\n", i, i%5)
	}
	sink := "package sink\n\n"
	m := newCapMap()
	for i := 0; i < 5; i++ {
		sink += fmt.Sprintf("func S%d() {}\n", i)
		m.Func[fmt.Sprintf("ex.com/m/sink.S%d", i)] = []string{"FILES", "NETWORK", "EXEC", "CGO", "REFLECT"}[i]
	}
	s := r.srcSubject("writes", map[string]string{"a/a.go": src, "sink/sink.go": sink, "m.cm": m.String(), "empty.json": "{}"}, "./a")
	none := []string{"-capability_map=none.cm"}
	r.must(os.WriteFile(filepath.Join(s.Dir, "none.cm"), []byte("# nothing\n"), 0o644))
	strace := r.haveStrace()
	type job struct {
		mode  string
		flags []string
	}
	var jobs []job
	for _, m := range reportModes {
		jobs = append(jobs, job{m, []string{"-capability_map=m.cm"}})
		if m != "compare" && m != "m" {
			jobs = append(jobs, job{m, none})
		}
		// Asking for profiles or messages does not turn failure into success.
		prof := r.tmp("prof")
		jobs = append(jobs, job{m, []string{"-capability_map=m.cm", "-memprofile=" + filepath.Join(prof, "mem"), "-cpuprofile=" + filepath.Join(prof, "cpu"), "-v=2"}})
	}
	jobs = append(jobs, job{"json", []string{"-capability_map=m.cm", "-granularity=package"}}, job{"json", []string{"-capability_map=m.cm", "-granularity=intermediate"}}, job{"graph", []string{"-capability_map=m.cm", "-capabilities=FILES"}}, job{"json", []string{"-capability_map=m.cm", "-omit_paths"}})
	r.parallel(len(jobs), 8, func(i int) {
		j := jobs[i]
		args := append([]string{"-packages=./a", "-disable_builtin", "-output=" + j.mode}, j.flags...)
		if j.mode == "compare" {
			args = append(args, "empty.json")
		}
		okRes := r.capslock(s.Dir, args...)
		okCode := 0
		if j.mode == "compare" {
			okCode = 1
		}
		if okRes.Code != okCode {
			r.Violate("writeok/"+j.mode, fmt.Sprintf("exit %d without fault: %s", okRes.Code, clip(okRes.Err, 300)), nil, s.Dir)
			return
		}
		verdict := func(what string, res Result) {
			if res.Code == 0 {
				r.Violate(fmt.Sprintf("write/%s/%v", j.mode, j.flags), fmt.Sprintf("output %q %v: %s, but exit status 0", j.mode, j.flags, what), map[string]string{"command.txt": "capslock " + strings.Join(args, " ")}, s.Dir)
			} else if j.mode != "compare" && (res.Code != 2 || strings.TrimSpace(res.Err) == "") {
				r.Violate(fmt.Sprintf("write/%s/%v", j.mode, j.flags), fmt.Sprintf("output %q %v: %s: exit %d, message %q", j.mode, j.flags, what, res.Code, clip(res.Err, 200)), map[string]string{"command.txt": "capslock " + strings.Join(args, " ")}, s.Dir)
			}
			r.Count("write failures injected", 1)
			r.Eval(fmt.Sprintf("write %s %v %s", j.mode, j.flags, what))
		}
		// Standard output not open for writing.
		ro, err := os.Open(filepath.Join(s.Dir, "a/a.go"))
		r.must(err)
		verdict("writing fails with EBADF", r.capslockOpt(CmdOpt{Dir: s.Dir, Stdout: ro}, args...))
		ro.Close()
		if full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
			verdict("writing fails with ENOSPC", r.capslockOpt(CmdOpt{Dir: s.Dir, Stdout: full}, args...))
			full.Close()
		}
		if !strace {
			return
		}
		// Count the writes, then make each of them fail.
		dir := r.tmp("strace")
		count := func(inject string) (int, bool, Result, string) {
			name := filepath.Join(dir, "out"+inject)
			f, err := os.Create(name)
			r.must(err)
			defer f.Close()
			tr := filepath.Join(dir, "trace"+inject)
			a := []string{"-f", "-o", tr, "-P", name, "-e", "trace=write,writev,pwrite64"}
			if inject != "" {
				a = append(a, "-e", "inject=write:error=ENOSPC:when="+inject)
			}
			res := runCmd(CmdOpt{Dir: s.Dir, Stdout: f}, "strace", append(append(a, r.CLI), args...)...)
			if res.Timeout {
				r.inconclusive("strace: watchdog timeout")
			}
			b, _ := os.ReadFile(tr)
			o, _ := os.ReadFile(name)
			// strace counts the calls of each thread separately, so that the call
			// to fail may not exist.
			return strings.Count(string(b), "write("), strings.Contains(string(b), "(INJECTED)"), res, string(o)
		}
		n, _, res, out := count("")
		if res.Code != okCode || lineSet(out) != lineSet(okRes.Out) {
			r.inconclusive("strace changes the behaviour: exit %d", res.Code)
		}
		if j.mode == "compare" {
			return
		}
		step := 1
		if max := r.pick(14, 60); n > max {
			step = (n + max - 1) / max
		}
		for k := 1; k <= n; k += step {
			_, injected, res, _ := count(fmt.Sprint(k))
			if !injected {
				r.Count("injections skipped because the writes were spread over threads", 1)
				continue
			}
			verdict(fmt.Sprintf("write %d of %d fails", k, n), res)
			r.Count("writes of reports failed one by one", 1)
		}
		if _, injected, res, _ := count(fmt.Sprintf("%d+", n)); injected {
			verdict(fmt.Sprintf("last of %d writes fails", n), res)
		}
	})
	r.cov["strace_available"] = strace
}

func (r *Run) haveStrace() bool {
	if _, err := exec.LookPath("strace"); err != nil {
		return false
	}
	res := runCmd(CmdOpt{Dir: r.Scratch}, "strace", "-f", "-o", filepath.Join(r.Scratch, "probe.trace"), "-e", "trace=write", "/bin/true")
	return res.Code == 0
}
