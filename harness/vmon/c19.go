package main

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

func init() { checks["C19"] = checkC19 }

// A fileState is what a snapshot records about a file.
type fileState struct {
	mode  fs.FileMode
	mtime int64
	sum   string
}

// snapshot records the state of all files in a tree, other than those below
// the given directories.
func (r *Run) snapshot(top string, skip ...string) map[string]fileState {
	m := map[string]fileState{}
	r.must(filepath.WalkDir(top, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		for _, s := range skip {
			if p == s {
				return filepath.SkipDir
			}
		}
		st, err := os.Lstat(p)
		if err != nil {
			return err
		}
		f := fileState{mode: st.Mode(), mtime: st.ModTime().UnixNano()}
		switch {
		case st.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			f.sum = fmt.Sprintf("%x", sha256.Sum256(b))
		case st.Mode()&fs.ModeSymlink != 0:
			f.sum, _ = os.Readlink(p)
		}
		m[p] = f
		return nil
	}))
	return m
}

// changes lists the differences between two snapshots.  The modification
// times of the directories named are not compared.
func changes(a, b map[string]fileState, noTime map[string]bool) []string {
	var out []string
	for _, p := range sortedKeys(a) {
		x := a[p]
		y, ok := b[p]
		switch {
		case !ok:
			out = append(out, "deleted "+p)
		case x.mode != y.mode:
			out = append(out, fmt.Sprintf("mode of %s changed from %v to %v", p, x.mode, y.mode))
		case x.sum != y.sum:
			out = append(out, "modified "+p)
		case x.mtime != y.mtime && !noTime[p]:
			out = append(out, "written "+p)
		}
	}
	for _, p := range sortedKeys(b) {
		if _, ok := a[p]; !ok {
			out = append(out, "created "+p)
		}
	}
	return out
}

// markerCode is what every analysed package contains: code that would leave a
// mark if it ran.
func markerCode(pkg, mark string) string {
	return fmt.Sprintf(`package %s

import "os"

//go:generate touch %s

var _ = leave("var")

func init() { leave("init") }

func leave(s string) bool {
	f, err := os.OpenFile(%q, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o666)
	if err == nil {
		f.WriteString(s + "\n")
		f.Close()
	}
	return true
}

func F() string { return os.Getenv("X") }
`, pkg, mark+".generate", mark)
}

// A traceRun is one run of the capslock command.
type traceRun struct {
	name  string
	args  []string
	env   []string
	dir   string   // default: the module
	makes []string // files that the user asked for
	exit  int      // -1: any
}

func (r *Run) cliTraces() {
	b := r.box
	w := b.dir(r, "w")
	mark := filepath.Join(b.Top, "mark")
	mod := filepath.Join(w, "mod")
	main := strings.Replace(markerCode("main", mark), "func F()", "func main() { leave(\"main\") }\n\nfunc F()", 1)
	r.writeFiles(mod, map[string]string{
		"go.mod":              "module ex.com/m\n\ngo 1.21\n\nrequire ex.com/dep v1.0.0\n",
		"go.sum":              "",
		"a/a.go":              markerCode("a", mark),
		"a/a_test.go":         "package a\n\nimport (\n\t\"os\"\n\t\"testing\"\n)\n\nfunc TestMain(m *testing.M) { leave(\"test\"); os.Exit(m.Run()) }\n",
		"cmd/m.go":            main,
		"d/d.go":              "package d\n\nimport (\n\t_ \"ex.com/dep\"\n\t\"ex.com/m/a\"\n)\n\nfunc G() { a.F() }\n",
		"bad/syntax/x.go":     "package syntax\n\nfunc {\n",
		"bad/types/x.go":      "package types\n\nvar x int = \"\"\n",
		"bad/import/x.go":     "package imp\n\nimport _ \"ex.com/nosuch\"\n",
		"baseline.json":       "{}",
		"badbaseline.json":    "{",
		"map.cm":              "func os.Getenv CAPABILITY_FILES\n",
		"bad.cm":              "func\n",
		"vendor.txt":          "",
		"deep/e/e.go":         markerCode("e", mark),
		"deep/e/testdata/f":   "x",
		"deep/gen/gen.go":     "package gen\n\nimport _ \"embed\"\n\n//go:embed data.txt\nvar S string\n\nfunc init() { println(S) }\n",
		"deep/gen/data.txt":   "data",
		"nested/go.mod":       "module ex.com/nested\n\ngo 1.21\n",
		"nested/n.go":         markerCode("nested", mark),
		"readonly/r.go":       markerCode("readonly", mark),
		"unused/ignored.tmpl": "x",
	})
	mods := []ProxyMod{
		{"ex.com/dep", "v1.0.0", map[string]string{"go.mod": "module ex.com/dep\n\ngo 1.21\n", "dep.go": markerCode("dep", mark)}},
		{"ex.com/other", "v1.2.3", map[string]string{"go.mod": "module ex.com/other\n\ngo 1.21\n\nrequire ex.com/dep v1.0.0\n", "o.go": strings.Replace(markerCode("other", mark), "import \"os\"", "import (\n\t\"os\"\n\t_ \"ex.com/dep\"\n)", 1), "sub/s.go": markerCode("sub", mark)}},
		{"ex.com/broken", "v1.0.0", map[string]string{"go.mod": "module ex.com/broken\n\ngo 1.21\n", "b.go": "package broken\n\nfunc {\n"}},
		{"ex.com/badtypes", "v1.0.0", map[string]string{"go.mod": "module ex.com/badtypes\n\ngo 1.21\n", "b.go": "package badtypes\n\nvar x int = \"\"\n"}},
	}
	proxy := r.modProxy(mods, "-mod=mod")
	// The module cache is filled beforehand; checksums are recorded.
	for i, e := range proxy {
		if strings.HasPrefix(e, "GOMODCACHE=") {
			cache := filepath.Join(b.Top, "gopath", "pkg", "mod")
			proxy[i] = "GOMODCACHE=" + cache
		}
		if strings.HasPrefix(e, "GOPROXY=file://") {
			src := strings.TrimPrefix(e, "GOPROXY=file://")
			dst := filepath.Join(b.Top, "proxy")
			r.must(copyDir(src, dst))
			b.give(r, dst)
			proxy[i] = "GOPROXY=file://" + dst
		}
	}
	b.give(r, w)
	prep := append(append([]string{}, proxy...), "GOFLAGS=-mod=mod -modcacherw")
	if res := runCmd(CmdOpt{Dir: mod, Env: prep, As: b}, "go", "mod", "download", "all"); res.Code != 0 {
		r.inconclusive("go mod download: %s", clip(res.Err, 500))
	}
	if res := runCmd(CmdOpt{Dir: mod, Env: prep, As: b}, "go", "list", "-deps", "./d"); res.Code != 0 {
		r.inconclusive("go list: %s", clip(res.Err, 500))
	}
	base := append(append([]string{}, proxy...), "GOFLAGS=-modcacherw")
	r.must(os.Chmod(filepath.Join(mod, "readonly"), 0o555))
	empty := filepath.Join(w, "empty")
	r.must(os.Mkdir(empty, 0o755))
	b.give(r, empty)
	cpu, mem := filepath.Join(w, "cpu.prof"), filepath.Join(w, "mem.prof")
	realGo, err := exec.LookPath("go")
	r.must(err)
	// failGo makes a go command that fails when its arguments start with s.
	failGo := func(s string) string {
		d := b.dir(r, "failgo")
		r.must(os.WriteFile(filepath.Join(d, "go"), []byte(fmt.Sprintf("#!/bin/sh\ncase \"$*\" in %s*) echo scripted failure >&2; exit 1;; esac\nexec %s \"$@\"\n", strings.ReplaceAll(s, " ", "\\ "), realGo)), 0o755))
		return "PATH=" + d + ":" + os.Getenv("PATH")
	}
	ok := []string{"./a", "./cmd", "./d", "./deep/..."}
	all := "-packages=" + strings.Join(ok, ",")
	runs := []traceRun{
		{name: "default", args: []string{all}},
		{name: "json", args: []string{all, "-output=json"}},
		{name: "verbose", args: []string{all, "-output=v"}},
		{name: "machine", args: []string{all, "-output=m"}},
		{name: "graph", args: []string{all, "-output=graph"}},
		{name: "package", args: []string{all, "-output=package"}},
		{name: "compare", args: []string{all, "-output=compare", "baseline.json"}, exit: 1},
		{name: "compare with bad baseline", args: []string{all, "-output=compare", "badbaseline.json"}, exit: 2},
		{name: "compare with missing baseline", args: []string{all, "-output=compare", "nosuch.json"}, exit: 2},
		{name: "package granularity", args: []string{all, "-granularity=package"}},
		{name: "intermediate granularity", args: []string{all, "-granularity=intermediate", "-output=json"}},
		{name: "map", args: []string{all, "-capability_map=map.cm"}},
		{name: "bad map", args: []string{all, "-capability_map=bad.cm"}, exit: 2},
		{name: "missing map", args: []string{all, "-capability_map=nosuch.cm"}, exit: 2},
		{name: "noisy", args: []string{all, "-noisy", "-v=2"}},
		{name: "profiles", args: []string{all, "-cpuprofile=" + cpu, "-memprofile=" + mem}, makes: []string{cpu, mem}},
		{name: "memory profile cannot be made", args: []string{all, "-memprofile=/nonexistent/x"}, exit: -1},
		{name: "other platform", args: []string{all, "-goos=windows", "-goarch=arm64"}},
		{name: "tags", args: []string{all, "-buildtags=x"}},
		{name: "syntax error", args: []string{"-packages=./bad/syntax", "-force_local_module"}, exit: 2},
		{name: "type error", args: []string{"-packages=./bad/types"}, exit: 2},
		{name: "missing import", args: []string{"-packages=./bad/import", "-force_local_module"}, exit: 2},
		{name: "read-only package", args: []string{"-packages=./readonly"}},
		{name: "other directory", args: []string{"-packages=ex.com/m/a", "-force_local_module"}, dir: empty, exit: 2},
		{name: "main package", args: []string{"-packages=./cmd", "-output=v"}},
		{name: "dependency", args: []string{"-packages=ex.com/dep"}},
		{name: "standard library", args: []string{"-packages=bufio"}, dir: empty},
		{name: "bad granularity", args: []string{all, "-granularity=nosuch"}, exit: 2},
		{name: "bad flag", args: []string{"-nosuch"}, exit: 2},
		// Runs that use a temporary module.
		{name: "temporary module", args: []string{"-packages=ex.com/other/..."}},
		{name: "temporary module, json", args: []string{"-packages=ex.com/other", "-output=json", "-v=2"}},
		{name: "temporary module, several packages", args: []string{"-packages=ex.com/other/sub,ex.com/dep", "-granularity=package"}, dir: empty},
		{name: "temporary module, compare", args: []string{"-packages=ex.com/other", "-output=compare", "baseline.json"}, exit: 1},
		{name: "temporary module, bad baseline", args: []string{"-packages=ex.com/other", "-output=compare", "badbaseline.json"}, exit: 2},
		{name: "temporary module, missing baseline", args: []string{"-packages=ex.com/other", "-output=compare", "x"}, exit: 2},
		{name: "temporary module, profiles", args: []string{"-packages=ex.com/other", "-cpuprofile=" + cpu, "-memprofile=" + mem}, makes: []string{cpu, mem}},
		{name: "temporary module, relative profile", args: []string{"-packages=ex.com/other", "-memprofile=rel.prof"}, makes: []string{filepath.Join(mod, "rel.prof")}},
		{name: "temporary module, bad memory profile", args: []string{"-packages=ex.com/other", "-memprofile=/nonexistent/x"}, exit: -1},
		{name: "temporary module, unknown package", args: []string{"-packages=ex.com/nosuch"}, exit: 2},
		{name: "temporary module, second package unknown", args: []string{"-packages=ex.com/other,ex.com/nosuch"}, exit: 2},
		{name: "temporary module, syntax error", args: []string{"-packages=ex.com/broken"}, exit: 2},
		{name: "temporary module, type error", args: []string{"-packages=ex.com/badtypes"}, exit: 2},
		{name: "temporary module, no match", args: []string{"-packages=ex.com/other/nosuch/..."}, exit: 2},
		{name: "temporary module, relative path", args: []string{"-packages=./nosuch"}, exit: 2},
		{name: "temporary module, syntax error in current module", args: []string{"-packages=./bad/syntax"}, exit: 2},
		{name: "temporary module, import error in current module", args: []string{"-packages=./bad/import"}, exit: 2},
		{name: "temporary module, go mod init fails", args: []string{"-packages=ex.com/other"}, env: []string{failGo("mod init")}, exit: 2},
		{name: "temporary module, go get fails", args: []string{"-packages=ex.com/other"}, env: []string{failGo("get")}, exit: 2},
		{name: "temporary module, go list fails", args: []string{"-packages=ex.com/other"}, env: []string{failGo("list")}, exit: 2},
		{name: "temporary module, relative TMPDIR", args: []string{"-packages=ex.com/other"}, dir: b.Top, env: []string{"TMPDIR=tmp"}, exit: -1},
		{name: "temporary module, relative TMPDIR, unknown package", args: []string{"-packages=ex.com/nosuch"}, dir: b.Top, env: []string{"TMPDIR=tmp"}, exit: 2},
		{name: "temporary module, no TMPDIR", args: []string{"-packages=ex.com/other"}, env: []string{"TMPDIR=" + filepath.Join(w, "nosuch")}, exit: 2},
		{name: "go.work", args: []string{"-packages=ex.com/other"}, env: []string{"GOWORK=" + filepath.Join(w, "go.work")}, exit: -1},
		{name: "closed output", args: []string{"-packages=ex.com/other", "-output=json"}, exit: 2},
	}
	r.must(os.WriteFile(filepath.Join(w, "go.work"), []byte("go 1.21\n\nuse ./mod\n"), 0o644))
	b.give(r, filepath.Join(w, "go.work"))
	skip := []string{filepath.Join(b.Top, "gocache"), filepath.Join(b.Top, "gopath"), filepath.Join(b.Home, ".config", "go"), filepath.Join(b.Home, ".cache")}
	noTime := map[string]bool{b.Tmp: true, b.Top: true, b.Home: true}
	strace := r.haveStrace()
	for i, t := range runs {
		if t.dir == "" {
			t.dir = mod
		}
		for _, m := range t.makes {
			noTime[filepath.Dir(m)] = true
		}
		before := r.snapshot(b.Top, skip...)
		var res Result
		env := append(append([]string{}, base...), t.env...)
		if t.name == "closed output" {
			full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				continue
			}
			res = runCmd(CmdOpt{Dir: t.dir, Env: env, As: b, Stdout: full}, r.CLI, t.args...)
			full.Close()
		} else {
			res = runCmd(CmdOpt{Dir: t.dir, Env: env, As: b}, r.CLI, t.args...)
		}
		if res.Timeout {
			r.inconclusive("%s: watchdog timeout", t.name)
		}
		after := r.snapshot(b.Top, skip...)
		for _, m := range t.makes {
			if _, ok := after[m]; !ok {
				r.inconclusive("%s: %s was not made: %s", t.name, m, clip(res.Err, 300))
			}
			delete(after, m)
			r.must(os.Remove(m))
		}
		r.Eval("run " + t.name)
		r.Count("runs of capslock", 1)
		r.Count("files compared", len(before))
		if strings.Contains(res.Err, "temporary module.") {
			r.Count("runs that used a temporary module", 1)
		}
		if t.exit >= 0 && res.Code != t.exit {
			r.Count("runs that ended differently from what was intended", 1)
			r.Sample(map[string]any{"unintended": t.name, "exit": res.Code, "stderr": clip(res.Err, 300)})
		}
		ch := changes(before, after, noTime)
		for _, m := range t.makes {
			delete(noTime, filepath.Dir(m))
		}
		if len(ch) > 0 {
			r.Violate("files/"+t.name, fmt.Sprintf("%s: capslock %q (exit status %d) changed files:\n%s\nstderr:\n%s", t.name, t.args, res.Code, strings.Join(head(ch, 20), "\n"), clip(res.Err, 1000)), map[string]string{"args.txt": strings.Join(t.args, "\n")}, mod)
			// Start afresh, so that each run is judged by itself.
			for _, c := range ch {
				if p := strings.TrimPrefix(c, "created "); p != c && strings.HasPrefix(p, b.Top+"/") {
					os.RemoveAll(p)
				}
			}
		}
		if i < 3 || t.name == "temporary module" {
			r.Sample(map[string]any{"run": t.name, "args": t.args, "exit": res.Code, "files compared": len(before), "changes": len(ch)})
		}
		if ms, _ := filepath.Glob(mark + "*"); len(ms) > 0 {
			text, _ := os.ReadFile(ms[0])
			r.Violate("executed/"+t.name, fmt.Sprintf("%s: capslock %q ran code of the analysed packages: %s %q", t.name, t.args, filepath.Base(ms[0]), clip(string(text), 200)), nil, mod)
			for _, m := range ms {
				os.Remove(m)
			}
		}
		// Watch what the processes do.
		if strace && (i%r.pick(4, 1) == 0 || strings.HasPrefix(t.name, "temporary")) && len(t.makes) == 0 && t.name != "closed output" {
			r.traceFiles(t, env, []string{b.Tmp + "/", filepath.Join(b.Top, "gocache") + "/", filepath.Join(b.Top, "gopath") + "/", filepath.Join(b.Home, ".config/go") + "/", "/dev/"}, filepath.Dir(realGo))
		}
	}
	r.cov["strace_available"] = strace
}

var (
	straceCall = regexp.MustCompile(`^\d+ +(\w+)\((.*)`)
	straceStr  = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)
)

// traceFiles runs capslock under strace and looks at the files that its
// processes write, and at the programs that they execute.
func (r *Run) traceFiles(t traceRun, env, allowed []string, goBin string) {
	b := r.box
	out := filepath.Join(b.dir(r, "trace"), "trace")
	args := append([]string{"-f", "-s", "400", "-o", out, "-e", "trace=openat,open,creat,mkdir,mkdirat,unlink,unlinkat,rmdir,rename,renameat,renameat2,link,linkat,symlink,symlinkat,chmod,fchmodat,chown,fchownat,truncate,utimensat,mknod,mknodat,execve,chdir,fchdir", r.CLI}, t.args...)
	res := runCmd(CmdOpt{Dir: t.dir, Env: env, As: b}, "strace", args...)
	if res.Timeout {
		r.inconclusive("strace: watchdog timeout")
	}
	text, err := os.ReadFile(out)
	r.must(err)
	os.RemoveAll(filepath.Dir(out))
	if len(text) == 0 {
		r.inconclusive("strace recorded nothing: %s", clip(res.Err, 300))
	}
	r.Count("traced runs", 1)
	cwd := map[string]string{}
	var bad []string
	for _, l := range strings.Split(string(text), "\n") {
		m := straceCall.FindStringSubmatch(l)
		if m == nil || strings.Contains(l, "= -1 ") {
			continue
		}
		pid := l[:strings.Index(l, " ")]
		var strs []string
		for _, s := range straceStr.FindAllStringSubmatch(m[2], -1) {
			strs = append(strs, s[1])
		}
		if len(strs) == 0 {
			continue
		}
		r.Count("system calls observed", 1)
		if m[1] == "execve" {
			p := strs[0]
			ok := p == r.CLI || strings.HasPrefix(p, filepath.Dir(goBin)+"/") || strings.HasPrefix(p, "/usr/") || strings.HasPrefix(p, "/bin/") || strings.HasPrefix(p, "/sbin/") || strings.Contains(p, "/failgo-") && filepath.Base(p) == "go"
			r.Count("programs executed", 1)
			if !ok {
				bad = append(bad, "executes "+p)
			}
			continue
		}
		if m[1] == "chdir" || m[1] == "fchdir" {
			cwd[pid] = strs[0]
			continue
		}
		if strings.HasPrefix(m[1], "open") && !strings.Contains(l, "O_WRONLY") && !strings.Contains(l, "O_RDWR") && !strings.Contains(l, "O_CREAT") && !strings.Contains(l, "O_TRUNC") {
			continue
		}
		r.Count("changes to files observed", 1)
		for _, p := range strs {
			ok := !filepath.IsAbs(p) // relative to a directory opened before; see the snapshots
			for _, a := range allowed {
				ok = ok || strings.HasPrefix(p, a)
			}
			// The go command locks the module it works in.
			if !ok {
				bad = append(bad, m[1]+" "+p)
			}
		}
	}
	r.Eval("trace " + t.name)
	if len(bad) > 0 {
		r.Violate("trace/"+t.name, fmt.Sprintf("%s: capslock %q:\n%s", t.name, t.args, strings.Join(head(bad, 20), "\n")), map[string]string{"args.txt": strings.Join(t.args, "\n")}, t.dir)
	}
}

// gitTraces runs capslock-git-diff and compares the repository, and all else
// that the user owns, before and after.
func (r *Run) gitTraces() {
	b := r.box
	top := b.dir(r, "g")
	dir := filepath.Join(top, "w")
	rnd := r.rng("git")
	r.initRepo(dir)
	fake := r.fakeAnalyser()
	real, err := exec.LookPath("git")
	r.must(err)
	text := func() string { return reportJSON(randomReport(rnd, "intermediate")) }
	files := func() map[string]string {
		return map[string]string{"report.json": text(), "sub/report.json": text(), "sub/x.txt": fmt.Sprint(rnd.Int())}
	}
	r.commitTree(dir, files(), "one")
	r.git(dir, "tag", "one")
	r.commitTree(dir, files(), "two")
	r.git(dir, "tag", "-a", "-m", "x", "two")
	f := files()
	f["fail"] = "3"
	r.commitTree(dir, f, "fails")
	r.git(dir, "tag", "fails")
	delete(f, "fail")
	f["kill"] = ""
	r.commitTree(dir, f, "killed")
	r.git(dir, "tag", "killed")
	r.commitTree(dir, map[string]string{"report.json": "{"}, "bad")
	r.git(dir, "tag", "bad")
	r.git(dir, "checkout", "-q", "-b", "work", "two")
	r.git(dir, "worktree", "add", "-q", "-b", "wt", filepath.Join(top, "tree"), "one")
	// Staged, unstaged and untracked changes.
	r.must(os.WriteFile(filepath.Join(dir, "sub", "staged.txt"), []byte("s"), 0o644))
	b.give(r, dir)
	r.git(dir, "add", "sub/staged.txt")
	r.must(os.WriteFile(filepath.Join(dir, "report.json"), []byte(text()), 0o644))
	r.must(os.WriteFile(filepath.Join(dir, "untracked"), []byte("u"), 0o644))
	r.git(dir, "stash", "list")
	r.must(os.MkdirAll(filepath.Join(dir, "rel"), 0o755))
	b.give(r, dir)
	gitdir := filepath.Join(dir, ".git")
	tools := b.dir(r, "tools")
	envs := map[string][]string{
		"plain":                nil,
		"tool directory":       {"CAPSLOCKTOOLSTMPDIR=" + tools},
		"GIT_DIR":              {"GIT_DIR=" + gitdir, "GIT_WORK_TREE=" + dir},
		"GIT_INDEX_FILE":       {"GIT_INDEX_FILE=" + filepath.Join(gitdir, "index")},
		"GIT_OBJECT_DIRECTORY": {"GIT_OBJECT_DIRECTORY=" + filepath.Join(gitdir, "objects")},
		"GIT relative objects": {"GIT_DIR=.git", "GIT_OBJECT_DIRECTORY=.git/objects", "GIT_ALTERNATE_OBJECT_DIRECTORIES=" + tools},
		"relative":             {"CAPSLOCKTOOLSTMPDIR=rel"},
		"relative TMPDIR":      {"TMPDIR=rel"},
		"hook":                 {"GIT_DIR=.git", "GIT_INDEX_FILE=.git/index", "GIT_PREFIX="},
		"common":               {"GIT_DIR=" + gitdir, "GIT_COMMON_DIR=" + gitdir, "GIT_WORK_TREE=" + dir},
	}
	revs := [][]string{{"one", "two"}, {"two", "one"}, {"one", "."}, {".", "two"}, {"work", "wt"}, {"one", "fails"}, {"fails", "one"}, {"killed", "one"}, {"one", "killed"}, {"one", "bad"}, {"bad", "two"}, {"nosuch", "one"}, {"one", "nosuch"}, {"HEAD", "one", "./x"}}
	wds := []string{dir, filepath.Join(dir, "sub"), filepath.Join(top, "tree"), filepath.Join(top, "tree", "sub")}
	skip := []string{filepath.Join(b.Top, "gocache"), filepath.Join(b.Top, "gopath")}
	noTime := map[string]bool{b.Tmp: true, tools: true, filepath.Join(dir, "rel"): true}
	refs := func() string {
		return r.git(dir, "for-each-ref") + "\n" + r.git(dir, "symbolic-ref", "-q", "HEAD") + "\n" + r.git(dir, "rev-parse", "HEAD")
	}
	one := func(name, wd, path string, env []string, args ...string) Result {
		before, state := r.snapshot(b.Top, skip...), refs()
		res := r.gitDiff(wd, path, env, args...)
		if res.Timeout {
			r.inconclusive("capslock-git-diff: watchdog timeout")
		}
		after := r.snapshot(b.Top, skip...)
		r.Eval(fmt.Sprintf("git %s %s %q", name, strings.TrimPrefix(wd, top), args))
		r.Count("runs of capslock-git-diff", 1)
		r.Count(fmt.Sprintf("runs of capslock-git-diff with exit status %d", res.Code), 1)
		r.Count("files compared", len(before))
		for p := range after {
			if strings.HasPrefix(filepath.Base(filepath.Dir(p)), "fakegit-") {
				delete(before, p)
				delete(after, p)
			}
		}
		ch := changes(before, after, noTime)
		if len(ch) == 0 {
			if s := refs(); s != state {
				ch = append(ch, "references: "+state+" → "+s)
			}
		}
		if len(ch) > 0 {
			r.Violate("git/"+name, fmt.Sprintf("%s: capslock-git-diff %q in %s (exit status %d) changed files:\n%s\nstderr:\n%s", name, args, wd, res.Code, strings.Join(head(ch, 20), "\n"), clip(res.Err, 1500)), map[string]string{"args.txt": strings.Join(args, "\n")}, dir)
			for _, c := range ch {
				if p := strings.TrimPrefix(c, "created "); p != c && strings.HasPrefix(p, b.Top+"/") {
					os.RemoveAll(p)
				}
			}
		}
		return res
	}
	ends := map[int]int{}
	for _, e := range sortedKeys(envs) {
		for i, rv := range revs {
			for k, wd := range wds {
				if strings.HasPrefix(e, "GIT") || e == "hook" || e == "common" || strings.HasPrefix(e, "relative") {
					if k > 0 {
						continue
					}
				} else if (i+k)%r.pick(3, 1) != 0 {
					continue
				}
				res := one(e, wd, fake, envs[e], rv...)
				ends[res.Code]++
				if i == 0 && k == 0 {
					r.Sample(map[string]any{"environment": envs[e], "args": rv, "exit": res.Code})
				}
			}
		}
	}
	for _, args := range [][]string{{}, {"one"}, {"one", "two", "x", "y"}, {"-granularity=nosuch", "one", "two"}, {"-v", "one", "two"}} {
		one("arguments", dir, fake, nil, args...)
	}
	one("no analyser", dir, b.dir(r, "nopath"), nil, "one", "two")
	one("no temporary directory", dir, fake, []string{"CAPSLOCKTOOLSTMPDIR=" + filepath.Join(top, "nosuch")}, "one", "two")
	// Each git command fails in turn.
	for n := 1; n < 40; n++ {
		g := b.dir(r, "fakegit")
		r.must(os.WriteFile(filepath.Join(g, "git"), []byte(fmt.Sprintf(`#!/bin/sh
echo x >> %[1]s/count
if [ $(wc -l < %[1]s/count) = %[2]d ]; then echo "$@" > %[1]s/hit; exit 128; fi
exec %[3]s "$@"
`, g, n, real)), 0o755))
		c, _ := os.ReadFile(filepath.Join(fake, "capslock"))
		r.must(os.WriteFile(filepath.Join(g, "capslock"), c, 0o755))
		noTime[g] = true
		one("git command fails", dir, g, []string{"CAPSLOCKTOOLSTMPDIR=" + tools}, "one", "two")
		if _, err := os.Stat(filepath.Join(g, "hit")); err != nil {
			break
		}
		r.Count("git commands that failed", 1)
	}
	// With the real analyser.
	real2 := b.dir(r, "real")
	rd := filepath.Join(real2, "w")
	r.initRepo(rd)
	r.commitTree(rd, randomTree(rnd), "1")
	r.commitTree(rd, randomTree(rnd), "2")
	for _, rv := range [][]string{{"HEAD^", "HEAD"}, {"HEAD^", "."}, {"-granularity=function", ".", "HEAD^"}} {
		one("real", rd, filepath.Dir(r.CLI), []string{"GOFLAGS="}, rv...)
		one("real", filepath.Join(rd, "sub"), filepath.Dir(r.CLI), []string{"GOFLAGS=", "CAPSLOCKTOOLSTMPDIR=" + tools}, rv...)
	}
	if ends[0]+ends[1] < 20 {
		r.inconclusive("most runs of capslock-git-diff failed: %v", ends)
	}
}

func checkC19(r *Run) {
	r.rule = "one evaluation = one run with the state of all files of the user compared before and after, or one run with its system calls traced; non-trivial = distinct command, options, environment and fault"
	r.box = r.newBox()
	start := time.Now()
	r.cliTraces()
	r.cov["cli_s"] = time.Since(start).Seconds()
	r.gitTraces()
	r.Require("runs of capslock", 40)
	r.Require("runs that used a temporary module", 12)
	r.Require("runs of capslock-git-diff", 50)
	r.Require("git commands that failed", 6)
}
