package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

func init() { checks["C16"] = checkC16 }

// A listedPkg is what the go command says about a package.
type listedPkg struct {
	Dir, ImportPath, Name                                         string
	Standard                                                      bool
	GoFiles, CgoFiles, IgnoredGoFiles, IgnoredOtherFiles, Imports []string
	CompiledGoFiles                                               []string
	Module                                                        *struct {
		Path, Version string
		Replace       *struct{ Path, Version string }
	}
	Error       *struct{ Err string }
	DepOnly     bool
	ForTest     string
	TestGoFiles []string
}

// goList runs the go command and returns the packages with dependencies.
func (r *Run) goList(dir string, env []string, tags string, pats ...string) ([]*listedPkg, error) {
	args := []string{"list", "-json", "-deps"}
	if tags != "" {
		args = append(args, "-tags="+tags)
	}
	res := runCmd(CmdOpt{Dir: dir, Env: env}, "go", append(append(args, "--"), pats...)...)
	if res.Timeout {
		r.inconclusive("go list: watchdog timeout")
	}
	r.Count("go list runs", 1)
	if res.Code != 0 {
		return nil, fmt.Errorf("go list: %s", clip(res.Err, 500))
	}
	var out []*listedPkg
	dec := json.NewDecoder(strings.NewReader(res.Out))
	for dec.More() {
		p := new(listedPkg)
		if err := dec.Decode(p); err != nil {
			return nil, err
		}
		out = append(out, p)
	}
	return out, nil
}

func genConstraint(rnd *rand.Rand, depth int) string {
	atoms := []string{"foo", "bar", "baz", "linux", "windows", "darwin", "amd64", "arm64", "386", "unix", "cgo", "go1.21", "go1.99", "gc", "gccgo", "ignore", "race", "js", "wasm"}
	if depth == 0 || rnd.Intn(3) == 0 {
		a := atoms[rnd.Intn(len(atoms))]
		if rnd.Intn(2) == 0 {
			a = atoms[rnd.Intn(5)]
		}
		if rnd.Intn(3) == 0 {
			return "!" + a
		}
		return a
	}
	op := []string{" && ", " || "}[rnd.Intn(2)]
	s := genConstraint(rnd, depth-1) + op + genConstraint(rnd, depth-1)
	if rnd.Intn(2) == 0 {
		return "(" + s + ")"
	}
	return "!(" + s + ")"
}

// tagModule generates a module whose packages consist of constrained files.
func (r *Run) tagModule(name string, rnd *rand.Rand, cgo bool) (string, map[string]map[string]string) {
	files := map[string]string{"go.mod": "module ex.com/tags\n\ngo 1.23\n", "sink/sink.go": "package sink\n\nfunc A() {}\nfunc B() {}\n"}
	funcs := map[string]map[string]string{} // package -> file -> function
	suffixes := []string{"", "", "", "", "_linux", "_windows", "_darwin", "_amd64", "_arm64", "_linux_amd64", "_windows_arm64", "_unix", "_linux_x", "_test", "_amd64_linux", "_foo", "_js_wasm", "_cgo", "_linux_test"}
	for p := 0; p < 3; p++ {
		pkg := fmt.Sprintf("p%d", p)
		path := "ex.com/tags/" + pkg
		funcs[path] = map[string]string{}
		imp := "import \"ex.com/tags/sink\"\n"
		files[pkg+"/base.go"] = fmt.Sprintf("package %s\n\n%s\nfunc Base() { sink.A() }\n", pkg, imp)
		funcs[path]["base.go"] = "Base"
		n := 5 + rnd.Intn(8)
		for i := 0; i < n; i++ {
			fname := fmt.Sprintf("f%d%s.go", i, suffixes[rnd.Intn(len(suffixes))])
			switch rnd.Intn(14) {
			case 0:
				fname = "_" + fname
			case 1:
				fname = "." + fname
			}
			head := ""
			switch rnd.Intn(5) {
			case 0:
			case 1:
				head = "// Some comment.\n\n//go:build " + genConstraint(rnd, 1) + "\n\n"
			default:
				head = "//go:build " + genConstraint(rnd, 2) + "\n\n"
			}
			fn := fmt.Sprintf("F%d", i)
			files[pkg+"/"+fname] = fmt.Sprintf("%spackage %s\n\n%s\nfunc %s() { sink.A() }\n", head, pkg, imp, fn)
			funcs[path][fname] = fn
		}
		// Files for code with and without cgo.
		if p == 1 {
			files[pkg+"/with.go"] = fmt.Sprintf("//go:build cgo\n\npackage %s\n\n%s\nfunc WithCgo() { sink.A() }\n", pkg, imp)
			files[pkg+"/without.go"] = fmt.Sprintf("//go:build !cgo\n\npackage %s\n\n%s\nfunc WithoutCgo() { sink.A() }\n", pkg, imp)
			funcs[path]["with.go"], funcs[path]["without.go"] = "WithCgo", "WithoutCgo"
		}
		// A non-Go file with a constraint.
		if rnd.Intn(2) == 0 {
			files[pkg+"/asm_windows.s"] = "// empty\n"
		}
		if cgo && p == 0 {
			files[pkg+"/c.go"] = fmt.Sprintf("package %s\n\n// static int f(void) { return 1; }\nimport \"C\"\n\nimport \"ex.com/tags/sink\"\n\nfunc UsesC() { sink.A() }\n", pkg)
			funcs[path]["c.go"] = "UsesC"
		}
	}
	// A dependency whose implementation depends on the settings.
	files["dep/dep.go"] = "package dep\n"
	files["dep/v_yes.go"] = "//go:build foo && !bar\n\npackage dep\n\nimport \"ex.com/tags/sink\"\n\nfunc V() { sink.A() }\n"
	files["dep/v_no.go"] = "//go:build !foo || bar\n\npackage dep\n\nimport \"ex.com/tags/sink\"\n\nfunc V() { sink.B() }\n"
	files["dep/os_windows.go"] = "package dep\n\nimport \"ex.com/tags/sink\"\n\nfunc O() { sink.B() }\n"
	files["dep/os_other.go"] = "//go:build !windows\n\npackage dep\n\nimport \"ex.com/tags/sink\"\n\nfunc O() { sink.A() }\n"
	files["p0/usedep.go"] = "package p0\n\nimport \"ex.com/tags/dep\"\n\nfunc DepV() { dep.V() }\nfunc DepO() { dep.O() }\n"
	dir := r.tmp(name)
	r.writeFiles(dir, files)
	return dir, funcs
}

func checkC16(r *Run) {
	r.rule = "one evaluation = one analysis with some build settings whose reported functions and ignored files were compared with the go command's file selection; non-trivial = some file is excluded, distinguished by the set of selected files"
	r.assume = []string{"go list of the installed toolchain is the reference for file selection"}
	type setting struct {
		flags []string
		env   []string // for the tool
		lenv  []string // for go list
		tags  string   // for go list
	}
	mk := func(rnd *rand.Rand, cgo bool) setting {
		var s setting
		oses := []string{"", "", "linux", "windows", "darwin", "freebsd", "js"}
		arches := []string{"", "", "amd64", "arm64", "386"}
		goos, goarch := oses[rnd.Intn(len(oses))], arches[rnd.Intn(len(arches))]
		if goos == "js" {
			goarch = "wasm"
		}
		if goos == "darwin" && goarch == "386" || goos == "freebsd" && goarch == "wasm" {
			goarch = "amd64"
		}
		tagList := []string{"", "foo", "bar", "foo,bar", "foo,baz", "bar,baz,foo", "linux2", "windows"}
		if cgo {
			// The standard library, which cgo needs, does not compile with the
			// name of another system as a tag.
			tagList = tagList[:len(tagList)-1]
		}
		tags := tagList[rnd.Intn(len(tagList))]
		viaEnv := rnd.Intn(3) == 0
		if goos != "" {
			s.lenv = append(s.lenv, "GOOS="+goos)
		}
		if goarch != "" {
			s.lenv = append(s.lenv, "GOARCH="+goarch)
		}
		s.tags = tags
		if viaEnv {
			s.env = append(s.env, s.lenv...)
			if tags != "" {
				s.env = append(s.env, "GOFLAGS=-mod=mod -tags="+tags)
			}
		} else {
			if goos != "" {
				s.flags = append(s.flags, "-goos="+goos)
			}
			if goarch != "" {
				s.flags = append(s.flags, "-goarch="+goarch)
			}
			if tags != "" {
				s.flags = append(s.flags, "-buildtags="+tags)
			}
			// Settings given as flags win over the environment.
			if rnd.Intn(3) == 0 {
				if goos != "" && goos != "js" {
					s.env = append(s.env, "GOOS=plan9")
				}
				if goarch != "" && goarch != "wasm" {
					s.env = append(s.env, "GOARCH=amd64")
				}
			}
		}
		native := (goos == "" || goos == runtime.GOOS) && (goarch == "" || goarch == runtime.GOARCH)
		if cgo && !native || rnd.Intn(3) == 0 {
			s.env = append(s.env, "CGO_ENABLED=0")
			s.lenv = append(s.lenv, "CGO_ENABLED=0")
		}
		return s
	}
	user := newCapMap()
	user.Func["ex.com/tags/sink.A"], user.Func["ex.com/tags/sink.B"] = "FILES", "NETWORK"
	mapFile := filepath.Join(r.tmp("map"), "m.cm")
	r.must(os.WriteFile(mapFile, []byte(user.String()), 0o644))
	nmod, nset := r.pick(30, 80), r.pick(8, 14)
	type job struct {
		dir   string
		funcs map[string]map[string]string
		s     setting
		name  string
	}
	var jobs []job
	for i := 0; i < nmod; i++ {
		rnd := r.rng(fmt.Sprint("mod", i))
		cgo := i%5 == 4
		dir, funcs := r.tagModule(fmt.Sprintf("tags%d", i), rnd, cgo)
		for k := 0; k < nset; k++ {
			s := mk(rnd, cgo)
			if k == 0 {
				s = setting{}
			}
			if k == 1 {
				// The settings of the host, given explicitly.
				s = setting{flags: []string{"-goos=" + runtime.GOOS}, lenv: []string{"GOOS=" + runtime.GOOS}}
				if i%2 == 0 {
					s = setting{flags: []string{"-goarch=" + runtime.GOARCH}, lenv: []string{"GOARCH=" + runtime.GOARCH}}
				}
			}
			jobs = append(jobs, job{dir, funcs, s, fmt.Sprintf("mod%d/%v/%v", i, s.flags, s.env)})
		}
	}
	r.parallel(len(jobs), 8, func(i int) {
		j := jobs[i]
		pats := []string{"./p0", "./p1", "./p2"}
		listed, err := r.goList(j.dir, j.s.lenv, j.s.tags, pats...)
		if err != nil {
			r.Count("settings the go command rejects", 1)
			return
		}
		selected, ignored := map[string]map[string]bool{}, map[string]map[string]bool{}
		key := ""
		for _, p := range listed {
			selected[p.ImportPath], ignored[p.ImportPath] = map[string]bool{}, map[string]bool{}
			for _, f := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
				selected[p.ImportPath][f] = true
				key += f + " "
			}
			for _, f := range append(append([]string{}, p.IgnoredGoFiles...), p.IgnoredOtherFiles...) {
				ignored[p.ImportPath][f] = true
			}
		}
		want := map[string]bool{}
		some := false
		for _, pk := range pats {
			path := "ex.com/tags/" + pk[2:]
			for f, fn := range j.funcs[path] {
				if selected[path][f] {
					want[path+"."+fn+" FILES"] = true
				} else {
					some = true
				}
			}
		}
		pick := func(a, b, fn string) {
			if selected["ex.com/tags/dep"][a] {
				want["ex.com/tags/p0."+fn+" FILES"] = true
			}
			if selected["ex.com/tags/dep"][b] {
				want["ex.com/tags/p0."+fn+" NETWORK"] = true
			}
		}
		if selected["ex.com/tags/dep"] != nil {
			pick("v_yes.go", "v_no.go", "DepV")
			pick("os_other.go", "os_windows.go", "DepO")
		}
		args := append([]string{"-packages", strings.Join(pats, ","), "-output=json", "-capability_map", mapFile, "-disable_builtin"}, j.s.flags...)
		res := r.capslockOpt(CmdOpt{Dir: j.dir, Env: j.s.env}, args...)
		files := map[string]string{"command.txt": fmt.Sprintf("env %v capslock %s", j.s.env, strings.Join(args, " ")), "m.cm": user.String()}
		rep, err := parseReport(res.Out)
		if res.Code != 0 || err != nil {
			r.Violate("exit/"+j.name, fmt.Sprintf("the go command accepts the settings, capslock exits %d: %v %s", res.Code, err, clip(res.Err, 500)), files, j.dir)
			return
		}
		got := map[string]bool{}
		for k := range rep.pairs() {
			got[k] = true
		}
		if m, x := diffSets(got, want); len(m)+len(x) > 0 {
			r.Violate("files/"+j.name, fmt.Sprintf("settings %v env %v: missing %v, unexpected %v", j.s.flags, j.s.env, head(m, 8), head(x, 8)), files, j.dir)
		}
		gi := map[string]map[string]bool{}
		for _, p := range rep.PackageInfo {
			gi[p.Path] = map[string]bool{}
			for _, f := range p.IgnoredFiles {
				if gi[p.Path][f] {
					r.Violate("ignored/"+j.name, "ignored file listed twice: "+f, files, j.dir)
				}
				gi[p.Path][f] = true
			}
		}
		for _, p := range listed {
			if p.Standard {
				continue
			}
			if m, x := diffSets(gi[p.ImportPath], ignored[p.ImportPath]); len(m)+len(x) > 0 {
				r.Violate("ignored/"+j.name, fmt.Sprintf("ignored files of %s: missing %v, unexpected %v", p.ImportPath, m, x), files, j.dir)
			}
			r.Count("ignored files compared", len(ignored[p.ImportPath]))
		}
		r.Count("functions compared", len(want))
		if !some {
			key = ""
		}
		r.Eval(key)
		r.Sample(map[string]any{"flags": j.s.flags, "env": j.s.env, "selected": len(want), "p1 ignored": sortedKeys(ignored["ex.com/tags/p1"])})
	})
	r.Require("functions compared", 100)
	r.Require("ignored files compared", 50)
}
