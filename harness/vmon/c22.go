package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() { checks["C22"] = checkC22 }

func checkC22(r *Run) {
	r.rule = "one evaluation = one run of capslock in a directory with a known build list, judged by exit status, or by the capabilities and module versions that follow from the versions the go command selects; non-trivial = distinct combination of scene, patterns and options"
	n := r.pick(5, 30)
	for k := 0; k < n && !r.tooMany(); k++ {
		r.moduleScenes(k)
	}
	r.Require("runs that used a temporary module", 10)
	r.Require("runs that used the current module", 10)
	r.Require("runs refused", 4)
	r.Require("capability pairs compared", 100)
}

// A univMod is a module of which several versions exist.
type univMod struct {
	path string
	vers []*univVer
}

// A univVer is one version, or a local copy, of a module.
type univVer struct {
	mod  *univMod
	ver  string
	pkgs []*univPkg
	reqs map[*univMod]string
}

type univPkg struct {
	path  string
	caps  []string // capabilities of F itself
	tagd  string   // capability of T, which needs the build tag special
	win   string   // capability of W, which needs GOOS=windows
	arm   string   // capability of A, which needs GOARCH=386
	calls []string // packages whose F is called
	// hidden tells that build constraints exclude the package.
	hidden bool
}

type universe struct {
	mods []*univMod
}

var univCaps = []string{"FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE", "EXEC", "REFLECT", "SYSTEM_CALLS", "OPERATING_SYSTEM"}

func newUniverse(rnd *rand.Rand) *universe {
	paths := []string{"ex.com/ua", "ex.com/ub/v2", "ex.com/Uc", "ex.com/Uc/sub", "ex.com/ud", "ex.com/ue/deep/mod"}
	u := &universe{}
	for _, p := range paths {
		u.mods = append(u.mods, &univMod{path: p})
	}
	for i := len(paths) - 1; i >= 0; i-- {
		m := u.mods[i]
		major := "v1"
		if strings.HasSuffix(m.path, "/v2") {
			major = "v2"
		}
		vs := []string{major + ".0.0", major + ".1.0", major + ".2.0", major + ".10.0"}
		if rnd.Intn(2) == 0 {
			vs = append(vs, major+".11.0-rc.1")
		}
		for _, v := range vs {
			m.vers = append(m.vers, u.newVersion(rnd, m, i, v))
		}
	}
	return u
}

// fixedModules returns two modules, of which the second needs a later version
// of a dependency of the first, and no package of it.
func fixedModules() *universe {
	a, b, d := &univMod{path: "ex.com/fa"}, &univMod{path: "ex.com/fb"}, &univMod{path: "ex.com/fd"}
	d1 := &univVer{mod: d, ver: "v1.0.0", pkgs: []*univPkg{{path: d.path, caps: []string{"FILES"}}}}
	d2 := &univVer{mod: d, ver: "v1.1.0", pkgs: []*univPkg{{path: d.path, caps: []string{"NETWORK"}}}}
	d.vers = []*univVer{d1, d2}
	a.vers = []*univVer{{mod: a, ver: "v1.0.0", pkgs: []*univPkg{{path: a.path, calls: []string{d.path}}}, reqs: map[*univMod]string{d: "v1.0.0"}}}
	b.vers = []*univVer{{mod: b, ver: "v1.0.0", pkgs: []*univPkg{{path: b.path, caps: []string{"EXEC"}}}, reqs: map[*univMod]string{d: "v1.1.0"}}}
	// The old version of this module has nothing to build.
	e := &univMod{path: "ex.com/fe"}
	e.vers = []*univVer{
		{mod: e, ver: "v1.0.0", pkgs: []*univPkg{{path: e.path, caps: []string{"FILES"}, hidden: true}}},
		{mod: e, ver: "v1.1.0", pkgs: []*univPkg{{path: e.path, caps: []string{"EXEC"}}}},
	}
	return &universe{mods: []*univMod{a, b, d, e}}
}

// newVersion makes up the content of a version.  It requires only modules with
// a higher index.
func (u *universe) newVersion(rnd *rand.Rand, m *univMod, i int, v string) *univVer {
	uv := &univVer{mod: m, ver: v, reqs: map[*univMod]string{}}
	names := []string{m.path, m.path + "/in"}
	if rnd.Intn(2) == 0 {
		names = append(names, m.path+"/more")
	}
	for _, n := range names {
		p := &univPkg{path: n}
		for _, c := range rnd.Perm(len(univCaps))[:1+rnd.Intn(2)] {
			p.caps = append(p.caps, univCaps[c])
		}
		if rnd.Intn(2) == 0 {
			p.tagd = univCaps[rnd.Intn(len(univCaps))]
		}
		if rnd.Intn(2) == 0 {
			p.win = univCaps[rnd.Intn(len(univCaps))]
		}
		if rnd.Intn(2) == 0 {
			p.arm = univCaps[rnd.Intn(len(univCaps))]
		}
		for j := i + 1; j < len(u.mods); j++ {
			if rnd.Intn(3) > 0 {
				continue
			}
			d := u.mods[j]
			dv := d.vers[rnd.Intn(4)]
			if old, ok := uv.reqs[d]; ok {
				for _, x := range d.vers {
					if x.ver == old {
						dv = x
					}
				}
			}
			uv.reqs[d] = dv.ver
			// Packages that every version has.
			p.calls = append(p.calls, []string{d.path, d.path + "/in"}[rnd.Intn(2)])
		}
		uv.pkgs = append(uv.pkgs, p)
	}
	return uv
}

func (uv *univVer) files() map[string]string {
	var b strings.Builder
	fmt.Fprintf(&b, "module %s\n\ngo 1.21\n", uv.mod.path)
	var reqs []string
	for d, v := range uv.reqs {
		reqs = append(reqs, d.path+" "+v)
	}
	sort.Strings(reqs)
	for _, q := range reqs {
		fmt.Fprintf(&b, "\nrequire %s\n", q)
	}
	fs := map[string]string{"go.mod": b.String()}
	for _, p := range uv.pkgs {
		dir := strings.TrimPrefix(strings.TrimPrefix(p.path, uv.mod.path), "/")
		var b strings.Builder
		name := "p" + strings.ToLower(strings.NewReplacer("/", "", ".", "").Replace(p.path))
		if p.hidden {
			b.WriteString("//go:build neverset\n\n")
		}
		fmt.Fprintf(&b, "package %s\n\n", name)
		for k, c := range p.calls {
			fmt.Fprintf(&b, "import d%d %q\n\n", k, c)
		}
		have := map[string]bool{}
		for _, c := range p.caps {
			have[c] = true
			fmt.Fprintf(&b, "func S%s() {}\n\n", c)
		}
		fmt.Fprintf(&b, "func F() {\n")
		for _, c := range p.caps {
			fmt.Fprintf(&b, "\tS%s()\n", c)
		}
		for k := range p.calls {
			fmt.Fprintf(&b, "\td%d.F()\n", k)
		}
		fmt.Fprintf(&b, "}\n")
		fs[filepath.Join(dir, "p.go")] = b.String()
		if p.tagd != "" {
			fs[filepath.Join(dir, "tagged.go")] = fmt.Sprintf("//go:build special\n\npackage %s\n\nfunc TT%s() {}\n\nfunc T() { TT%s() }\n", name, p.tagd, p.tagd)
		}
		if p.win != "" {
			fs[filepath.Join(dir, "w_windows.go")] = fmt.Sprintf("package %s\n\nfunc WW%s() {}\n\nfunc W() { WW%s() }\n", name, p.win, p.win)
		}
		if p.arm != "" {
			fs[filepath.Join(dir, "a_386.go")] = fmt.Sprintf("package %s\n\nfunc AA%s() {}\n\nfunc A() { AA%s() }\n", name, p.arm, p.arm)
		}
	}
	return fs
}

// capMap categorises the sinks of all packages.
func (u *universe) capMap() string {
	seen := map[string]bool{}
	var lines []string
	for _, m := range u.mods {
		for _, p := range []string{m.path, m.path + "/in", m.path + "/more"} {
			for _, c := range univCaps {
				for _, k := range []string{"S", "TT", "WW", "AA"} {
					l := fmt.Sprintf("func %s.%s%s CAPABILITY_%s\n", p, k, c, c)
					if !seen[l] {
						seen[l] = true
						lines = append(lines, l)
					}
				}
			}
		}
	}
	return strings.Join(lines, "")
}

// expected returns the (function, capability) pairs of the packages roots,
// given the content of every package.
func univExpected(content map[string]*univPkg, roots []string, tag, win, arm bool) map[string]bool {
	memo := map[string]map[string]bool{}
	var reach func(p string) map[string]bool
	reach = func(p string) map[string]bool {
		if m, ok := memo[p]; ok {
			return m
		}
		m := map[string]bool{}
		memo[p] = m
		pk := content[p]
		for _, c := range pk.caps {
			m[c] = true
		}
		for _, d := range pk.calls {
			for c := range reach(d) {
				m[c] = true
			}
		}
		return m
	}
	want := map[string]bool{}
	for _, p := range roots {
		pk := content[p]
		for c := range reach(p) {
			want[p+".F "+c] = true
		}
		for _, c := range pk.caps {
			want[p+".S"+c+" "+c] = true
		}
		if tag && pk.tagd != "" {
			want[p+".T "+pk.tagd] = true
			want[p+".TT"+pk.tagd+" "+pk.tagd] = true
		}
		if win && pk.win != "" {
			want[p+".W "+pk.win] = true
			want[p+".WW"+pk.win+" "+pk.win] = true
		}
		if arm && pk.arm != "" {
			want[p+".A "+pk.arm] = true
			want[p+".AA"+pk.arm+" "+pk.arm] = true
		}
	}
	return want
}

// A moduleScene is a directory in which capslock is run.
type moduleScene struct {
	name     string
	dir      string
	env      []string
	patterns []string
	// local tells whether the patterns can be loaded in dir.
	local bool
	// refused tells that capslock has to fail.
	refused bool
	// copies has the packages whose content is not that of the proxy.
	copies map[string]*univPkg
	args   []string
}

func (r *Run) moduleScenes(k int) {
	rnd := r.rng(fmt.Sprint("c22-", k))
	b := r.newBox()
	u := newUniverse(rnd)
	fixed := fixedModules()
	var mods []ProxyMod
	byVersion := map[string]*univVer{}
	for _, m := range append(append([]*univMod{}, u.mods...), fixed.mods...) {
		for _, v := range m.vers {
			mods = append(mods, ProxyMod{m.path, v.ver, v.files()})
			byVersion[m.path+"@"+v.ver] = v
		}
	}
	proxy := r.modProxy(mods, "x")
	for i, e := range proxy {
		switch {
		case strings.HasPrefix(e, "GOMODCACHE="):
			proxy[i] = "GOMODCACHE=" + filepath.Join(b.Top, "gopath", "pkg", "mod")
		case strings.HasPrefix(e, "GOPROXY=file://"):
			dst := filepath.Join(b.Top, "proxy")
			r.must(copyDir(strings.TrimPrefix(e, "GOPROXY=file://"), dst))
			b.give(r, dst)
			proxy[i] = "GOPROXY=file://" + dst
		case strings.HasPrefix(e, "GOFLAGS="):
			proxy[i] = "GOFLAGS=-modcacherw"
		}
	}
	proxy = append(proxy, "GOWORK=")
	gocmd := func(dir string, env []string, args ...string) string {
		res := runCmd(CmdOpt{Dir: dir, Env: append(append([]string{}, proxy...), env...), As: b}, "go", args...)
		if res.Timeout || res.Code != 0 {
			r.inconclusive("go %v in %s: %s", args, dir, clip(res.Err, 800))
		}
		return res.Out
	}
	capmap := u.capMap() + fixed.capMap()
	mkdir := func(files map[string]string) string {
		d := b.dir(r, "scene")
		r.writeFiles(d, files)
		r.must(os.WriteFile(filepath.Join(d, "map.cm"), []byte(capmap), 0o644))
		b.give(r, d)
		return d
	}
	pick := func() *univMod { return u.mods[rnd.Intn(len(u.mods))] }
	anyPkg := func(m *univMod) string { return []string{m.path, m.path + "/in"}[rnd.Intn(2)] }
	anyPattern := func(m *univMod) string {
		return []string{m.path, m.path + "/in", m.path + "/..."}[rnd.Intn(3)]
	}
	mainFiles := func(imports ...string) map[string]string {
		var sb strings.Builder
		sb.WriteString("package a\n\n")
		for _, i := range imports {
			fmt.Fprintf(&sb, "import _ %q\n", i)
		}
		return map[string]string{"go.mod": "module ex.com/main\n\ngo 1.21\n", "a/a.go": sb.String()}
	}
	var scenes []*moduleScene
	add := func(s *moduleScene) *moduleScene { scenes = append(scenes, s); return s }

	// No module at all.
	bare := mkdir(nil)
	for i := 0; i < 2; i++ {
		s := add(&moduleScene{name: "no module", dir: bare})
		for _, j := range rnd.Perm(len(u.mods))[:1+rnd.Intn(3)] {
			s.patterns = append(s.patterns, anyPattern(u.mods[j]))
		}
	}
	// The second module raises the version of a dependency of the first.
	add(&moduleScene{name: "no module, dependency raised", dir: bare, patterns: []string{"ex.com/fa", "ex.com/fb"}})
	add(&moduleScene{name: "no module, dependency raised, reverse order", dir: bare, patterns: []string{"ex.com/fb", "ex.com/fa"}})
	for i := 0; i < 2; i++ {
		s := add(&moduleScene{name: "no module, many packages", dir: bare})
		for _, j := range rnd.Perm(len(u.mods)) {
			s.patterns = append(s.patterns, u.mods[j].path+[]string{"", "/in"}[i])
		}
	}
	// A module that requires an old version of one module.
	m := pick()
	old := m.vers[rnd.Intn(3)]
	var all []string
	for _, p := range old.pkgs {
		all = append(all, p.path)
	}
	dir := mkdir(mainFiles(all...))
	gocmd(dir, nil, "get", m.path+"@"+old.ver)
	gocmd(dir, nil, "mod", "tidy")
	add(&moduleScene{name: "required", dir: dir, patterns: []string{m.path}, local: true})
	other := pick()
	for other == m || old.dependsOn(other, byVersion) || strings.HasPrefix(other.path, m.path+"/") || strings.HasPrefix(m.path, other.path+"/") {
		other = u.mods[(indexOf(u.mods, other)+1)%len(u.mods)]
		if other == m {
			break
		}
	}
	if other != m {
		add(&moduleScene{name: "not required", dir: dir, patterns: []string{anyPkg(other)}})
		add(&moduleScene{name: "one required, one not", dir: dir, patterns: []string{m.path, anyPkg(other)}})
		add(&moduleScene{name: "wildcard without match", dir: dir, patterns: []string{other.path + "/..."}})
		add(&moduleScene{name: "refused", dir: dir, patterns: []string{anyPkg(other)}, args: []string{"-force_local_module"}, refused: true})
		add(&moduleScene{name: "refused wildcard", dir: dir, patterns: []string{other.path + "/..."}, args: []string{"-force_local_module"}, refused: true})
		add(&moduleScene{name: "package of the main module and one not required", dir: dir, patterns: []string{"./a", anyPkg(other)}, refused: true})
	}
	sub := filepath.Join(dir, "a", "b")
	r.must(os.MkdirAll(sub, 0o777))
	r.must(os.WriteFile(filepath.Join(sub, "map.cm"), []byte(capmap), 0o644))
	b.give(r, dir)
	add(&moduleScene{name: "required, in a subdirectory", dir: sub, patterns: []string{m.path}, local: true})
	if m.path != "ex.com/Uc" { // which has another module inside
		add(&moduleScene{name: "required, wildcard", dir: dir, patterns: []string{m.path + "/..."}, local: true})
	}
	if other != m {
		add(&moduleScene{name: "not required, in a subdirectory", dir: sub, patterns: []string{anyPkg(other)}})
		add(&moduleScene{name: "required twice and one not", dir: dir, patterns: []string{anyPkg(other), m.path, m.path}})
	}
	add(&moduleScene{name: "required, local module forced", dir: dir, patterns: []string{m.path}, local: true, args: []string{"-force_local_module"}})
	// A module whose go.sum has nothing about some or all of what it requires.
	nosum := mkdir(mainFiles("ex.com/fa"))
	gocmd(nosum, nil, "get", "ex.com/fa")
	gocmd(nosum, nil, "mod", "tidy")
	part := mkdir(mainFiles("ex.com/fa"))
	for _, f := range []string{"go.mod", "go.sum"} {
		text, err := os.ReadFile(filepath.Join(nosum, f))
		r.must(err)
		var keep []string
		for _, l := range strings.SplitAfter(string(text), "\n") {
			if f == "go.mod" || !strings.HasPrefix(l, "ex.com/fd v1.0.0 ") {
				keep = append(keep, l)
			}
		}
		r.must(os.WriteFile(filepath.Join(part, f), []byte(strings.Join(keep, "")), 0o644))
	}
	r.must(os.Remove(filepath.Join(nosum, "go.sum")))
	b.give(r, part)
	add(&moduleScene{name: "required without checksums", dir: nosum, patterns: []string{"ex.com/fa"}})
	add(&moduleScene{name: "required without checksums of a dependency, refused", dir: part, patterns: []string{"ex.com/fa"}, args: []string{"-force_local_module"}, refused: true})
	// A required version that has nothing to build.
	none := mkdir(mainFiles())
	gocmd(none, nil, "mod", "edit", "-require=ex.com/fe@v1.0.0")
	gocmd(none, nil, "mod", "download")
	add(&moduleScene{name: "required version without files", dir: none, patterns: []string{"ex.com/fe"}})
	add(&moduleScene{name: "required version without files and others", dir: none, patterns: []string{"ex.com/fa", "ex.com/fe"}})
	add(&moduleScene{name: "required version without files, refused", dir: none, patterns: []string{"ex.com/fe"}, args: []string{"-force_local_module"}, refused: true})
	// A replaced module.
	m = pick()
	copyOf := u.newVersion(rnd, m, indexOf(u.mods, m), "v9.9.9")
	rep := mkdir(mainFiles(m.path))
	r.writeFiles(filepath.Join(rep, "copy"), copyOf.files())
	b.give(r, rep)
	gocmd(rep, nil, "mod", "edit", "-replace="+m.path+"=./copy")
	gocmd(rep, nil, "mod", "edit", "-require="+m.path+"@"+m.vers[0].ver)
	gocmd(rep, nil, "mod", "tidy")
	add(&moduleScene{name: "replaced", dir: rep, patterns: []string{m.path}, local: true, copies: copyOf.content()})
	// A vendor directory whose content differs.
	m = pick()
	vend := mkdir(mainFiles(m.path))
	gocmd(vend, nil, "get", m.path+"@"+m.vers[2].ver)
	gocmd(vend, nil, "mod", "tidy")
	gocmd(vend, nil, "mod", "vendor")
	vc := *m.vers[2].content()[m.path]
	vc.caps = []string{"UNANALYZED"}
	vd := filepath.Join(vend, "vendor", m.path, "p.go")
	text, err := os.ReadFile(vd)
	r.must(err)
	src := string(text)
	i := strings.Index(src, "func S")
	j := strings.Index(src, "func F() {\n") + len("func F() {\n")
	if i < 0 || i > j {
		r.inconclusive("vendored file has no sinks:\n%s", src)
	}
	body := src[j:]
	for _, c := range m.vers[2].content()[m.path].caps {
		body = strings.Replace(body, "\tS"+c+"()\n", "", 1)
	}
	r.must(os.WriteFile(vd, []byte(src[:i]+"func SUNANALYZED() {}\n\nfunc F() {\n\tSUNANALYZED()\n"+body), 0o644))
	vmap := capmap + fmt.Sprintf("func %s.SUNANALYZED CAPABILITY_UNANALYZED\n", m.path)
	r.must(os.WriteFile(filepath.Join(vend, "map.cm"), []byte(vmap), 0o644))
	b.give(r, vend)
	add(&moduleScene{name: "vendored", dir: vend, patterns: []string{m.path}, local: true, copies: map[string]*univPkg{m.path: &vc}})
	for _, x := range u.mods {
		if x != m && !m.vers[2].dependsOn(x, byVersion) && !strings.HasPrefix(x.path, m.path+"/") && !strings.HasPrefix(m.path, x.path+"/") {
			add(&moduleScene{name: "not vendored", dir: vend, patterns: []string{anyPkg(x)}})
			break
		}
	}
	// A workspace with a copy of a module that other modules need.
	m = u.mods[2+rnd.Intn(len(u.mods)-2)]
	wcopy := u.newVersion(rnd, m, indexOf(u.mods, m), "v9.9.9")
	ws := mkdir(map[string]string{"go.work": "go 1.21\n\nuse (\n\t./m\n\t./w\n)\n", "m/go.mod": "module ex.com/main\n\ngo 1.21\n", "m/a/a.go": "package a\n"})
	r.writeFiles(filepath.Join(ws, "w"), wcopy.files())
	r.must(os.WriteFile(filepath.Join(ws, "m", "map.cm"), []byte(capmap), 0o644))
	r.must(os.Mkdir(filepath.Join(ws, "tmp"), 0o777))
	b.give(r, ws)
	if len(wcopy.reqs) > 0 {
		gocmd(filepath.Join(ws, "w"), []string{"GOWORK=off"}, "mod", "tidy")
		gocmd(ws, nil, "work", "sync")
	}
	add(&moduleScene{name: "workspace", dir: filepath.Join(ws, "m"), patterns: []string{m.path}, local: true, copies: wcopy.content()})
	for _, x := range u.mods {
		if x == m || wcopy.dependsOn(x, byVersion) || strings.HasPrefix(x.path, m.path+"/") || strings.HasPrefix(m.path, x.path+"/") {
			continue
		}
		add(&moduleScene{name: "not in the workspace", dir: filepath.Join(ws, "m"), patterns: []string{x.path}})
		add(&moduleScene{name: "not in the workspace, temporary directory in the workspace", dir: filepath.Join(ws, "m"), env: []string{"TMPDIR=" + filepath.Join(ws, "tmp")}, patterns: []string{x.path}})
		add(&moduleScene{name: "not in the workspace that GOWORK names", dir: filepath.Join(ws, "m"), env: []string{"GOWORK=" + filepath.Join(ws, "go.work")}, patterns: []string{anyPkg(x)}})
		add(&moduleScene{name: "elsewhere, not in the workspace that GOWORK names", dir: bare, env: []string{"GOWORK=" + filepath.Join(ws, "go.work")}, patterns: []string{x.path + "/..."}})
		add(&moduleScene{name: "in and not in the workspace", dir: filepath.Join(ws, "m"), patterns: []string{m.path, anyPkg(x)}})
		add(&moduleScene{name: "not in the workspace, refused", dir: filepath.Join(ws, "m"), patterns: []string{x.path}, args: []string{"-force_local_module"}, refused: true})
		break
	}
	add(&moduleScene{name: "workspace named by GOWORK", dir: bare, env: []string{"GOWORK=" + filepath.Join(ws, "go.work")}, patterns: []string{m.path}, local: true, copies: wcopy.content()})
	add(&moduleScene{name: "workspace switched off", dir: filepath.Join(ws, "m"), env: []string{"GOWORK=off"}, patterns: []string{m.path}})
	// Unknown packages.
	add(&moduleScene{name: "unknown", dir: bare, patterns: []string{"ex.com/nosuch/x"}, refused: true})
	add(&moduleScene{name: "unknown after known", dir: bare, patterns: []string{u.mods[0].path, u.mods[1].path + "/nosuch"}, refused: true})

	for si, s := range scenes {
		if r.tooMany() {
			return
		}
		r.moduleScene(k, si, s, rnd, b, proxy, gocmd, byVersion)
	}
}

func indexOf(ms []*univMod, m *univMod) int {
	for i, x := range ms {
		if x == m {
			return i
		}
	}
	return -1
}

func (uv *univVer) content() map[string]*univPkg {
	m := map[string]*univPkg{}
	for _, p := range uv.pkgs {
		m[p.path] = p
	}
	return m
}

// dependsOn tells whether m can be in the module graph of uv.
func (uv *univVer) dependsOn(m *univMod, byVersion map[string]*univVer) bool {
	for d, v := range uv.reqs {
		if d == m || byVersion[d.path+"@"+v].dependsOn(m, byVersion) {
			return true
		}
	}
	return false
}

func (r *Run) moduleScene(k, si int, s *moduleScene, rnd *rand.Rand, b *Box, proxy []string, gocmd func(string, []string, ...string) string, byVersion map[string]*univVer) {
	tag, win, arm := rnd.Intn(3) == 0, rnd.Intn(3) == 0, rnd.Intn(3) == 0
	opts := append([]string{}, s.args...)
	flags := []string{}
	env := append([]string{}, s.env...)
	listEnv := append([]string{}, s.env...)
	if tag {
		opts = append(opts, "-buildtags=special")
		flags = append(flags, "-tags=special")
	}
	if win {
		opts = append(opts, "-goos=windows")
		listEnv = append(listEnv, "GOOS=windows")
	}
	if arm {
		opts = append(opts, "-goarch=386")
		listEnv = append(listEnv, "GOARCH=386")
	}
	opts = append(opts, "-packages="+strings.Join(s.patterns, ","), "-capability_map=map.cm", "-disable_builtin")
	desc := fmt.Sprintf("%s: capslock %q", s.name, opts)
	run := func(more ...string) Result {
		res := runCmd(CmdOpt{Dir: s.dir, Env: append(append([]string{}, proxy...), env...), As: b}, r.CLI, append(append([]string{}, opts...), more...)...)
		if res.Timeout {
			r.inconclusive("%s: watchdog timeout", desc)
		}
		r.Count("capslock runs", 1)
		return res
	}
	key := fmt.Sprintf("%d-%d %s tag=%v win=%v arm=%v", k, si, s.name, tag, win, arm)
	if s.refused {
		cache := filepath.Join(b.Top, "gopath", "pkg", "mod", "cache")
		before := r.snapshot(cache)
		res := run("-output=json")
		if len(s.args) > 0 {
			// Nothing may be fetched either.
			r.Count("module caches compared", 1)
			for f := range r.snapshot(cache) {
				if _, ok := before[f]; !ok {
					r.Violate("fetched/"+s.name, fmt.Sprintf("%s: fetched %s", desc, f), nil, s.dir)
					break
				}
			}
		}
		r.Eval(key)
		r.Count("runs refused", 1)
		if res.Code != 2 || res.Out != "" || strings.TrimSpace(res.Err) == "" {
			r.Violate("refused/"+s.name, fmt.Sprintf("%s: exit status %d instead of 2, stdout %q, stderr %q", desc, res.Code, clip(res.Out, 200), clip(res.Err, 300)), nil, s.dir)
		}
		return
	}
	// The versions that the go command selects.
	refDir := s.dir
	if !s.local {
		refDir = b.dir(r, "ref")
		listEnv = append(listEnv, "GOWORK=off")
		gocmd(refDir, []string{"GOWORK=off"}, "mod", "init", "reference")
		gocmd(refDir, []string{"GOWORK=off"}, append([]string{"get"}, s.patterns...)...)
		r.Count("runs that used a temporary module", 1)
	} else {
		r.Count("runs that used the current module", 1)
	}
	roots := strings.Fields(gocmd(refDir, listEnv, append(append([]string{"list"}, flags...), s.patterns...)...))
	wantMods := map[string]bool{}
	content := map[string]*univPkg{}
	for _, l := range strings.Split(strings.TrimSpace(gocmd(refDir, listEnv, append(append([]string{"list", "-deps", "-f", "{{.ImportPath}}{{with .Module}} {{.Path}} {{.Version}}{{end}}"}, flags...), s.patterns...)...)), "\n") {
		f := strings.Fields(l)
		if len(f) < 2 {
			continue
		}
		if len(f) == 3 {
			wantMods[f[1]+" "+f[2]] = true
		}
		if c, ok := s.copies[f[0]]; ok {
			content[f[0]] = c
			continue
		}
		if len(f) < 3 || byVersion[f[1]+"@"+f[2]] == nil {
			r.inconclusive("%s: unexpected module in list: %s", desc, l)
		}
		content[f[0]] = byVersion[f[1]+"@"+f[2]].content()[f[0]]
	}
	for _, p := range roots {
		if content[p] == nil {
			r.inconclusive("%s: no content for %s", desc, p)
		}
	}
	want := univExpected(content, roots, tag, win, arm)
	res := run("-output=json")
	r.Eval(key)
	files := map[string]string{"args.txt": strings.Join(opts, "\n"), "out.json": res.Out, "stderr.txt": res.Err}
	if res.Code != 0 {
		r.Violate("failed/"+s.name, fmt.Sprintf("%s: exit status %d: %s", desc, res.Code, clip(res.Err, 500)), files, s.dir)
		return
	}
	rep, err := parseReport(res.Out)
	if err != nil {
		r.Violate("json/"+s.name, fmt.Sprintf("%s: %v", desc, err), files, s.dir)
		return
	}
	got := map[string]bool{}
	for p := range rep.pairs() {
		got[p] = true
	}
	r.Count("capability pairs compared", len(want))
	if missing, extra := diffSets(got, want); len(missing)+len(extra) > 0 {
		r.Violate("pairs/"+s.name, fmt.Sprintf("%s: with the versions %v, missing %v, unexpected %v", desc, sortedKeys(wantMods), head(missing, 5), head(extra, 5)), files, s.dir)
	}
	gotMods := map[string]bool{}
	for _, m := range rep.ModuleInfo {
		gotMods[m.Path+" "+m.Version] = true
	}
	r.Count("module versions compared", len(wantMods))
	if missing, extra := diffSets(gotMods, wantMods); len(missing)+len(extra) > 0 {
		r.Violate("modules/"+s.name, fmt.Sprintf("%s: modules missing %v, unexpected %v", desc, missing, extra), files, s.dir)
	}
	if si < 4 {
		r.Sample(map[string]any{"scene": s.name, "args": opts, "modules": sortedKeys(wantMods), "pairs": head(sortedKeys(want), 6)})
	}
	// Relative file names still mean files of the current directory.
	base := fmt.Sprintf("base%d.json", si)
	baseFile := filepath.Join(s.dir, base)
	r.must(os.WriteFile(baseFile, []byte(res.Out), 0o644))
	b.give(r, baseFile)
	prof := fmt.Sprintf("mem%d.prof", si)
	cmp := run("-output=compare", "-granularity=function", "-memprofile="+prof, base)
	r.Eval(key + " compare")
	if cmp.Code != 0 || cmp.Out != "" {
		r.Violate("compare/"+s.name, fmt.Sprintf("%s: comparison with the report of the same packages: exit status %d, stdout %q, stderr %q", desc, cmp.Code, clip(cmp.Out, 300), clip(cmp.Err, 300)), files, s.dir)
	}
	if _, err := os.Stat(filepath.Join(s.dir, prof)); err != nil {
		r.Violate("profile/"+s.name, fmt.Sprintf("%s: -memprofile=%s was not written to the current directory", desc, prof), files, s.dir)
	}
	r.Count("relative file names", 3)
	// Other output modes.
	mode := []string{"", "v", "m", "graph"}[rnd.Intn(4)]
	out := run("-output=" + mode)
	r.Eval(key + " " + mode)
	wantCaps := map[string]bool{}
	for p := range want {
		wantCaps["CAPABILITY_"+p[strings.Index(p, " ")+1:]] = true
	}
	gotCaps := map[string]bool{}
	for _, c := range reportCaps {
		if containsWord(out.Out, "CAPABILITY_"+c) {
			gotCaps["CAPABILITY_"+c] = true
		}
	}
	if missing, extra := diffSets(gotCaps, wantCaps); out.Code != 0 || len(missing)+len(extra) > 0 {
		r.Violate("mode/"+s.name, fmt.Sprintf("%s -output=%s: exit status %d, capabilities missing %v, unexpected %v", desc, mode, out.Code, missing, extra), map[string]string{"out.txt": out.Out}, s.dir)
	}
}

// containsWord tells whether w occurs in s as a word of capital letters.
func containsWord(s, w string) bool {
	for {
		i := strings.Index(s, w)
		if i < 0 {
			return false
		}
		s = s[i+len(w):]
		if s == "" || !(s[0] == '_' || 'A' <= s[0] && s[0] <= 'Z') {
			return true
		}
	}
}
