package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
)

func init() { checks["C21"] = checkC21 }

type goListPkg struct {
	ImportPath        string
	Standard          bool
	IgnoredGoFiles    []string
	IgnoredOtherFiles []string
	Module            *struct {
		Path, Version string
		Main          bool
	}
}

// inventoryCase is one module setup with the packages asked for.
type inventoryCase struct {
	name         string
	dir          string
	pats         []string
	env          []string
	goos, goarch string
	tags         string
	temp         bool // analysed through the temporary module
}

// checkInventory compares the reported lists with the go command's listing.
func (r *Run) checkInventory(c inventoryCase) {
	env := append([]string{}, c.env...)
	if c.goos != "" || c.goarch != "" {
		env = append(env, "CGO_ENABLED=0")
	}
	lenv := append([]string{}, env...)
	if c.goos != "" {
		lenv = append(lenv, "GOOS="+c.goos)
	}
	if c.goarch != "" {
		lenv = append(lenv, "GOARCH="+c.goarch)
	}
	la := []string{"list", "-deps", "-json=ImportPath,Standard,Module,IgnoredGoFiles,IgnoredOtherFiles"}
	if c.tags != "" {
		la = append(la, "-tags="+c.tags)
	}
	ldir := c.dir
	if c.temp {
		// What `go get` in an empty module selects.
		ldir = r.tmp("getmod")
		r.writeFiles(ldir, map[string]string{"go.mod": "module getmod\n"})
		for _, p := range c.pats {
			if res := runCmd(CmdOpt{Dir: ldir, Env: lenv}, "go", "get", p); res.Code != 0 {
				r.inconclusive("go get %s: %s", p, clip(res.Err, 1000))
			}
		}
	}
	res := runCmd(CmdOpt{Dir: ldir, Env: lenv}, "go", append(la, c.pats...)...)
	if res.Code != 0 {
		r.inconclusive("%s: go list: %s", c.name, clip(res.Err, 1500))
	}
	mods := map[string]string{}
	pkgs := map[string]string{}
	nstd := 0
	dec := json.NewDecoder(strings.NewReader(res.Out))
	for dec.More() {
		var p goListPkg
		r.must(dec.Decode(&p))
		if p.Standard {
			nstd++
			continue
		}
		ign := append(append([]string{}, p.IgnoredGoFiles...), p.IgnoredOtherFiles...)
		sort.Strings(ign)
		pkgs[p.ImportPath] = strings.Join(ign, ",")
		if m := p.Module; m != nil && m.Version != "" {
			mods[m.Path] = m.Version
		}
	}
	var wantM, wantP []string
	for _, k := range sortedKeys(mods) {
		wantM = append(wantM, k+" "+mods[k])
	}
	for _, k := range sortedKeys(pkgs) {
		wantP = append(wantP, k)
	}
	args := []string{"-packages", strings.Join(c.pats, ",")}
	if c.goos != "" {
		args = append(args, "-goos", c.goos)
	}
	if c.goarch != "" {
		args = append(args, "-goarch", c.goarch)
	}
	if c.tags != "" {
		args = append(args, "-buildtags", c.tags)
	}
	bad := func(what, mode string, got, want []string) {
		r.Violate(what+"/"+c.name, fmt.Sprintf("%s %s: capslock %v reports %s %q, the go command lists %q", c.name, mode, args, what, head(got, 40), head(want, 40)),
			map[string]string{"command.txt": "capslock " + strings.Join(args, " "), "env.txt": strings.Join(env, "\n"), "got.txt": strings.Join(got, "\n"), "want.txt": strings.Join(want, "\n")}, "")
	}
	grans := []string{"", "package", "function"}
	if !r.thorough() {
		k := len(c.name) % 2
		grans = grans[k : k+2]
	}
	for _, g := range grans {
		a := append([]string{"-output=json"}, args...)
		if g != "" {
			a = append(a, "-granularity="+g)
		}
		res := r.capslockOpt(CmdOpt{Dir: c.dir, Env: env}, a...)
		rep, err := parseReport(res.Out)
		if res.Code != 0 || err != nil {
			r.Violate("exit/"+c.name, fmt.Sprintf("%s: capslock %v: exit %d %v: %s", c.name, a, res.Code, err, clip(res.Err, 1500)), nil, "")
			return
		}
		var gotM, gotP []string
		for _, m := range rep.ModuleInfo {
			gotM = append(gotM, m.Path+" "+m.Version)
		}
		for _, p := range rep.PackageInfo {
			gotP = append(gotP, p.Path)
			ign := append([]string{}, p.IgnoredFiles...)
			sort.Strings(ign)
			if w, ok := pkgs[p.Path]; ok && strings.Join(ign, ",") != w {
				bad("ignored files of "+p.Path, g, ign, strings.Split(w, ","))
			} else if w != "" {
				r.Count("packages with ignored files", 1)
			}
		}
		if strings.Join(gotM, "\n") != strings.Join(wantM, "\n") {
			bad("modules", g, gotM, wantM)
		}
		if strings.Join(gotP, "\n") != strings.Join(wantP, "\n") {
			bad("packages", g, gotP, wantP)
		}
	}
	for _, o := range []string{"", "v"} {
		a := args
		if o != "" {
			a = append([]string{"-output=" + o}, args...)
		}
		res := r.capslockOpt(CmdOpt{Dir: c.dir, Env: env}, a...)
		if res.Code != 0 {
			r.Violate("exit/"+c.name, fmt.Sprintf("%s: capslock %v: exit %d: %s", c.name, a, res.Code, clip(res.Err, 1500)), nil, "")
			continue
		}
		got, _ := listedModules(res.Out)
		if strings.Join(got, "\n") != strings.Join(wantM, "\n") {
			bad("modules in text", "-output="+o, got, wantM)
		}
	}
	r.Count("modules listed", len(wantM))
	r.Count("packages listed", len(wantP))
	r.Count("standard packages excluded", nstd)
	if len(wantM) == 0 {
		r.Count("cases without versioned modules", 1)
	}
	r.Eval(strings.Join(wantM, " ") + "|" + strings.Join(wantP, " ") + "|" + c.goos + c.goarch + c.tags)
	r.Sample(map[string]any{"case": c.name, "modules": head(wantM, 6), "packages": head(wantP, 6), "goos": c.goos})
}

// listedModules returns the module lines of the default or verbose output.
func listedModules(out string) (mods []string, rest string) {
	lines := strings.Split(out, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "Analyzed packages:") {
			for j := i + 1; j < len(lines); j++ {
				if !strings.HasPrefix(lines[j], "  ") {
					return mods, strings.Join(lines[j:], "\n")
				}
				mods = append(mods, strings.TrimSpace(lines[j]))
			}
		}
	}
	return mods, out
}

// genModules makes a random graph of modules with several versions each, and
// a main module that uses some of them.
func (r *Run) genModules(rnd *rand.Rand, n int) (proxy []ProxyMod, main map[string]string) {
	type mod struct {
		path string
		vers []string
		subs []string
		dep  map[string][]int // version → indices of modules it requires
	}
	var mods []*mod
	used := map[string]bool{}
	subsAll := []string{"", "sub", "internal/x", "sub/deep", "z", "A", "v2stuff"}
	for i := 0; i < n; i++ {
		bases := []string{"a.io/m%d", "b.io/x/M%d", "c.example/m%d/nested", "a.io/m%d/v2", "gopkg.in/yaml%d.v3", "d.io/m%d-with.dots_and~t", "a.io/m%d/sub"}
		p := fmt.Sprintf(bases[rnd.Intn(len(bases))], rnd.Intn(n))
		// Often a path inside that of another module: its next major version
		// or a module nested in its directory.
		if len(mods) > 0 && rnd.Intn(2) == 0 {
			if q := mods[rnd.Intn(len(mods))].path; !strings.HasPrefix(q, "gopkg.in/") {
				ends := []string{"/v2", "/verbose", "/sub", "/z", "-v2", "2"}
				if strings.HasSuffix(q, "/v2") {
					ends = ends[1:4]
				}
				p = q + ends[rnd.Intn(len(ends))]
			}
		}
		if used[p] {
			continue
		}
		used[p] = true
		m := &mod{path: p, dep: map[string][]int{}}
		switch {
		case strings.HasSuffix(p, "/v2"):
			m.vers = []string{"v2.0.0", "v2.1.0-beta.1", "v2.3.4"}
		case strings.HasSuffix(p, ".v3"):
			m.vers = []string{"v3.0.0", "v3.0.1"}
		default:
			m.vers = [][]string{{"v1.0.0", "v1.2.0", "v1.10.0"}, {"v0.0.0-20200102030405-0123456789ab", "v0.1.0"}, {"v1.0.0", "v1.0.1-0.20210101010101-abcdefabcdef"}, {"v0.9.0", "v2.0.0+incompatible"}}[rnd.Intn(4)]
		}
		m.subs = []string{""}
		for _, s := range subsAll[1:] {
			if rnd.Intn(3) == 0 {
				m.subs = append(m.subs, s)
			}
		}
		for _, v := range m.vers {
			for j := range mods {
				if rnd.Intn(3) == 0 {
					m.dep[v] = append(m.dep[v], j)
				}
			}
		}
		mods = append(mods, m)
	}
	// A package of another module must not be provided by two modules.
	provides := map[string]bool{}
	for _, m := range mods {
		var subs []string
		for _, s := range m.subs {
			ip := strings.TrimSuffix(m.path+"/"+s, "/")
			if !provides[ip] {
				provides[ip] = true
				subs = append(subs, s)
			}
		}
		m.subs = subs
	}
	importable := func(m *mod) []string {
		var out []string
		for _, s := range m.subs {
			if !strings.Contains(s, "internal") {
				out = append(out, strings.TrimSuffix(m.path+"/"+s, "/"))
			}
		}
		return out
	}
	src := func(imports []string) string {
		std := []string{"os", "errors", "unsafe", "strings", "io", "sort"}
		imports = append(append([]string{}, imports...), std[rnd.Intn(len(std))])
		s := "package p\n\nimport (\n"
		for _, i := range imports {
			s += "\t_ \"" + i + "\"\n"
		}
		return s + ")\n\nfunc F() {}\n"
	}
	for _, m := range mods {
		for _, v := range m.vers {
			gm := "module " + m.path + "\n\ngo 1.20\n"
			inc := strings.HasSuffix(v, "+incompatible")
			var imps []string
			for _, j := range m.dep[v] {
				d := mods[j]
				dv := d.vers[rnd.Intn(len(d.vers))]
				gm += fmt.Sprintf("\nrequire %s %s\n", d.path, dv)
				imp := importable(d)
				if len(imp) > 0 && rnd.Intn(3) != 0 { // sometimes required but not imported
					imps = append(imps, imp[rnd.Intn(len(imp))])
				}
			}
			files := map[string]string{}
			if inc {
				gm = "module " + m.path + "\n"
				imps = nil
			} else {
				files["go.mod"] = gm
			}
			for _, s := range m.subs {
				var im []string
				for _, i := range imps {
					if rnd.Intn(2) == 0 {
						im = append(im, i)
					}
				}
				files[strings.TrimPrefix(s+"/f.go", "/")] = src(im)
				if rnd.Intn(3) == 0 {
					files[strings.TrimPrefix(s+"/g_windows.go", "/")] = "package p\n\nimport _ \"syscall\"\n"
					files[strings.TrimPrefix(s+"/h_plan9.s", "/")] = "\n"
				}
				if rnd.Intn(3) == 0 {
					files[strings.TrimPrefix(s+"/t_test.go", "/")] = "package p\n\nimport _ \"testing\"\n"
				}
				if rnd.Intn(4) == 0 {
					files[strings.TrimPrefix(s+"/tagged.go", "/")] = "//go:build special\n\npackage p\n"
				}
			}
			proxy = append(proxy, ProxyMod{Path: m.path, Version: v, Files: files})
		}
	}
	main = map[string]string{}
	gm := "module " + []string{"main.io/prog", "prog", "main.io/prog/v3"}[rnd.Intn(3)] + "\n\ngo 1.21\n"
	mainPath := strings.Fields(gm)[1]
	repl := 0
	imports := map[int][]string{}
	for j, m := range mods {
		if rnd.Intn(3) == 0 {
			continue
		}
		v := m.vers[rnd.Intn(len(m.vers))]
		gm += fmt.Sprintf("\nrequire %s %s\n", m.path, v)
		switch rnd.Intn(8) {
		case 0: // replaced by a directory
			d := fmt.Sprintf("repl%d", j)
			gm += fmt.Sprintf("\nreplace %s => ./%s\n", m.path, d)
			main[d+"/go.mod"] = "module " + m.path + "\n\ngo 1.20\n"
			for _, s := range m.subs {
				main[d+"/"+strings.TrimPrefix(s+"/f.go", "/")] = src(nil)
			}
			repl++
		case 1: // replaced by another version
			gm += fmt.Sprintf("\nreplace %s => %s %s\n", m.path, m.path, m.vers[rnd.Intn(len(m.vers))])
			repl++
		}
		if imp := importable(m); len(imp) > 0 {
			imports[j%3] = append(imports[j%3], imp[rnd.Intn(len(imp))])
		}
	}
	main["go.mod"] = gm
	main["f.go"] = src(imports[0])
	main["lib/f.go"] = src(imports[1])
	main["cmd/tool/f.go"] = strings.Replace(src(append(imports[2], mainPath+"/lib")), "package p", "package main", 1) + "\nfunc main() {}\n"
	main["lib/only_windows.go"] = "package p\n\nimport _ \"golang.org/none\"\n"
	main["alone/f.go"] = "package alone\n"
	main["x.io/y/f.go"] = "package y\n"
	main["std/f.go"] = "package std\n"
	r.Count("replaced modules", repl)
	return proxy, main
}

func checkC21(r *Run) {
	r.rule = "one evaluation = module and package lists of five outputs compared with go list for one module setup, pattern list and platform; non-trivial = distinct lists"
	var cases []inventoryCase
	n := r.pick(8, 60)
	type setup struct {
		proxy []ProxyMod
		main  map[string]string
	}
	for i := 0; i < n; i++ {
		rnd := r.rng(fmt.Sprint("mods", i))
		proxy, main := r.genModules(rnd, 3+rnd.Intn(7))
		env := r.modProxy(proxy, "-mod=mod")
		dir := r.tmp("main")
		r.writeFiles(dir, main)
		tidy := runCmd(CmdOpt{Dir: dir, Env: env}, "go", "list", "-deps", "./...")
		if tidy.Code != 0 {
			r.Count("invalid module graphs skipped", 1)
			continue
		}
		patSets := [][]string{{"./..."}, {"./lib"}, {"./cmd/...", "./lib"}, {".", "./alone", "."}, {"./alone"}, {"./x.io/..."}, {"./std", "./cmd/tool", "fmt"}}
		rnd.Shuffle(len(patSets), func(a, b int) { patSets[a], patSets[b] = patSets[b], patSets[a] })
		for k := 0; k < r.pick(3, 5); k++ {
			c := inventoryCase{name: fmt.Sprintf("graph%d.%d", i, k), dir: dir, pats: patSets[k], env: env}
			if k == 1 {
				c.goos, c.goarch = []string{"darwin", "freebsd", "linux"}[rnd.Intn(3)], []string{"arm64", "amd64"}[rnd.Intn(2)]
			}
			if k == 2 {
				c.tags = "special"
			}
			cases = append(cases, c)
		}
		// A package of a dependency, named by its import path.
		deps := runCmd(CmdOpt{Dir: dir, Env: env}, "go", "list", "-deps", "-f", "{{if .Module}}{{if not .Module.Main}}{{.ImportPath}}{{end}}{{end}}", "./...")
		if f := strings.Fields(deps.Out); len(f) > 0 {
			var ok []string
			for _, p := range f {
				if !strings.Contains(p, "internal") {
					ok = append(ok, p)
				}
			}
			if len(ok) > 0 {
				cases = append(cases, inventoryCase{name: fmt.Sprintf("dep%d", i), dir: dir, pats: []string{ok[rnd.Intn(len(ok))]}, env: env})
			}
		}
		// The same main module with vendored dependencies.
		if i%3 == 0 {
			vdir := r.tmp("vend")
			r.must(copyDir(dir, vdir))
			if res := runCmd(CmdOpt{Dir: vdir, Env: env}, "go", "mod", "tidy", "-e"); res.Code == 0 {
				if runCmd(CmdOpt{Dir: vdir, Env: env}, "go", "mod", "vendor", "-e").Code == 0 {
					venv := append(append([]string{}, env...), "GOFLAGS=-mod=vendor")
					if runCmd(CmdOpt{Dir: vdir, Env: venv}, "go", "list", "-deps", "./lib", "./cmd/...").Code == 0 {
						cases = append(cases, inventoryCase{name: fmt.Sprintf("vendor%d", i), dir: vdir, pats: []string{"./lib", "./cmd/..."}, env: venv})
						r.Count("vendored setups", 1)
					}
				}
			}
		}
		// A workspace of the main module and a second one.
		if i%3 == 1 {
			wdir := r.tmp("work")
			r.must(copyDir(dir, filepath.Join(wdir, "one")))
			r.writeFiles(wdir, map[string]string{
				"go.work":      "go 1.21\n\nuse (\n\t./one\n\t./two\n)\n",
				"two/go.mod":   "module second.io/two\n\ngo 1.21\n",
				"two/two.go":   "package two\n\nimport _ \"second.io/two/in\"\n",
				"two/in/in.go": "package in\n\nimport _ \"os/exec\"\n",
			})
			wenv := append(append([]string{}, env...), "GOWORK="+filepath.Join(wdir, "go.work"), "GOFLAGS=-mod=readonly -modcacherw")
			if runCmd(CmdOpt{Dir: wdir, Env: wenv}, "go", "list", "-deps", "./one/...", "./two/...").Code == 0 {
				cases = append(cases, inventoryCase{name: fmt.Sprintf("work%d", i), dir: wdir, pats: []string{"./two/...", "./one/lib"}, env: wenv})
				cases = append(cases, inventoryCase{name: fmt.Sprintf("worksub%d", i), dir: filepath.Join(wdir, "one"), pats: []string{"second.io/two", "./..."}, env: wenv})
				r.Count("workspaces", 1)
			}
		}
		// A package that is not a dependency: fetched in a temporary module.
		if i%2 == 0 {
			var latest []string
			for _, m := range proxy {
				if f, ok := m.Files["f.go"]; ok && f != "" && !strings.Contains(m.Version, "incompatible") && strings.Count(m.Version, "-") == 0 {
					latest = append(latest, m.Path)
				}
			}
			if len(latest) > 0 {
				edir := r.tmp("outside")
				r.writeFiles(edir, map[string]string{"go.mod": "module ex.com/outside\n\ngo 1.21\n", "o.go": "package outside\n"})
				// -mod=mod would let the go command add the dependency to the
				// module in the current directory.
				tenv := append(append([]string{}, env...), "GOFLAGS=-mod=readonly -modcacherw")
				p := latest[rnd.Intn(len(latest))]
				probe := r.tmp("probe")
				r.writeFiles(probe, map[string]string{"go.mod": "module probe\n"})
				if runCmd(CmdOpt{Dir: probe, Env: tenv}, "go", "get", p).Code == 0 {
					cases = append(cases, inventoryCase{name: fmt.Sprintf("fetched%d", i), dir: edir, pats: []string{p}, env: tenv, temp: true})
					r.Count("temporary modules", 1)
				}
			}
		}
	}
	// Modules whose paths lie inside one another, met in every order.
	{
		var fam []ProxyMod
		paths := []string{"fam.io/d", "fam.io/d/v2", "fam.io/d/v2/in", "fam.io/d/in", "fam.io/d-v2", "fam.io/e", "fam.io/d/v2/in/v3"}
		vers := []string{"v1.4.0", "v2.0.1", "v0.3.0", "v1.4.0", "v1.4.0", "v1.5.0", "v3.0.0"}
		main := map[string]string{}
		gm := "module fam.io/d/main\n\ngo 1.21\n"
		var pats [][]string
		for i, p := range paths {
			fam = append(fam, ProxyMod{Path: p, Version: vers[i], Files: map[string]string{
				"go.mod": "module " + p + "\n\ngo 1.20\n", "f.go": "package p\n\nimport _ \"os\"\n", "pk/g.go": "package pk\n", "pk/g_plan9.go": "package pk\n"}})
			gm += "\nrequire " + p + " " + vers[i] + "\n"
			for j, q := range paths {
				if j != i {
					// The first of the two is met first: the packages are named
					// in this order and imports are visited before importers.
					main[fmt.Sprintf("x%d%d/f.go", i, j)] = fmt.Sprintf("package x\n\nimport (\n\t_ %q\n\t_ %q\n)\n", p, q+"/pk")
					pats = append(pats, []string{fmt.Sprintf("./x%d%d", i, j)})
				}
			}
		}
		main["go.mod"] = gm
		env := r.modProxy(fam, "-mod=mod")
		dir := r.tmp("family")
		r.writeFiles(dir, main)
		if res := runCmd(CmdOpt{Dir: dir, Env: env}, "go", "list", "-deps", "./..."); res.Code != 0 {
			r.inconclusive("related modules: %s", clip(res.Err, 1000))
		}
		rnd := r.rng("family")
		rnd.Shuffle(len(pats), func(a, b int) { pats[a], pats[b] = pats[b], pats[a] })
		cases = append(cases, inventoryCase{name: "family", dir: dir, pats: []string{"./..."}, env: env})
		cases = append(cases, inventoryCase{name: "family-main", dir: dir, pats: []string{"./x01"}, env: env})
		for k := 0; k < r.pick(4, len(pats)); k++ {
			cases = append(cases, inventoryCase{name: fmt.Sprintf("family%d", k), dir: dir, pats: pats[k], env: env})
		}
		r.Count("related modules", len(paths))
	}
	// Modules and packages named like the last element of a standard-library
	// path, and below paths of the standard library.
	{
		dir := r.tmp("names")
		names := []string{"template", "rand", "json", "exec", "tabwriter", "ast", "httptest", "main", "runtime2", "internal2", "stdlib"}
		main := map[string]string{}
		gm, imp := "module prog\n\ngo 1.21\n", ""
		for i, n := range names {
			if i%2 == 0 {
				gm += "\nrequire " + n + " v1.0.0\n\nreplace " + n + " v1.0.0 => ./mods/" + n + "\n"
			} else {
				gm += "\nrequire " + n + " v0.0.0-20200102030405-0123456789ab\n\nreplace " + n + " => ./mods/" + n + "\n"
			}
			main["mods/"+n+"/go.mod"] = "module " + n + "\n\ngo 1.20\n"
			main["mods/"+n+"/f.go"] = "package p\n\nimport _ \"os\"\n"
			main["mods/"+n+"/f_plan9.go"] = "package p\n"
			main["mods/"+n+"/os/f.go"] = "package os\n"
			imp += fmt.Sprintf("import _ %q\n\nimport _ %q\n\n", n, n+"/os")
		}
		main["go.mod"] = gm
		main["all/f.go"] = "package all\n\n" + imp
		main["os/f.go"] = "package os\n"
		main["encoding/json/f.go"] = "package json\n\nimport _ \"json\"\n"
		env := []string{"GOFLAGS=-mod=mod"}
		r.writeFiles(dir, main)
		if res := runCmd(CmdOpt{Dir: dir, Env: env}, "go", "list", "-deps", "./..."); res.Code != 0 {
			r.inconclusive("modules named like standard packages: %s", clip(res.Err, 1000))
		}
		for i, p := range [][]string{{"./..."}, {"./all"}, {"./encoding/json", "encoding/json"}, {"template", "rand/os"}} {
			cases = append(cases, inventoryCase{name: fmt.Sprintf("names%d", i), dir: dir, pats: p, env: env})
		}
		r.Count("modules named like standard packages", len(names))
	}
	// The repository and standard-library packages for several platforms.
	plats := [][2]string{{"", ""}, {"windows", "amd64"}, {"darwin", "arm64"}, {"js", "wasm"}, {"plan9", "386"}, {"linux", "arm"}, {"", "arm64"}, {"aix", "ppc64"}, {"wasip1", "wasm"}}
	for i, p := range plats {
		if !r.thorough() && i > 0 && (i+int(r.Seed))%3 != 0 && p[0] != "windows" {
			continue
		}
		cases = append(cases, inventoryCase{name: "repo-" + p[0] + p[1], dir: "/repo", pats: []string{"./cmd/...", "./testpkgs/callnet"}, goos: p[0], goarch: p[1]})
		s := r.stdSubjects("x")[0]
		cases = append(cases, inventoryCase{name: "std-" + p[0] + p[1], dir: s.Dir, pats: []string{"net", "os/..."}, goos: p[0], goarch: p[1]})
	}
	r.parallel(len(cases), 8, func(i int) { r.checkInventory(cases[i]) })
	r.Require("modules listed", 20)
	r.Require("packages with ignored files", 3)
}
