package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

func init() { checks["C18"] = checkC18 }

// gitEnv isolates git from the configuration of the machine.
var gitEnv = []string{
	"GIT_CONFIG_GLOBAL=/dev/null", "GIT_CONFIG_SYSTEM=/dev/null", "GIT_CONFIG_NOSYSTEM=1",
	"GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a@ex.com", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a@ex.com",
	"GIT_AUTHOR_DATE=2024-01-01T00:00:00Z", "GIT_COMMITTER_DATE=2024-01-01T00:00:00Z",
	"GIT_TERMINAL_PROMPT=0", "LC_ALL=C",
}

// git runs git in a directory that belongs to the check.
func (r *Run) git(dir string, args ...string) string {
	res := runCmd(CmdOpt{Dir: dir, Env: gitEnv, As: r.box}, "git", args...)
	if res.Code != 0 {
		r.inconclusive("git %q: %s", args, clip(res.Err+res.Out, 500))
	}
	return strings.TrimSpace(res.Out)
}

// setTree replaces the files of a work tree.
func (r *Run) setTree(dir string, files map[string]string) {
	ents, err := os.ReadDir(dir)
	r.must(err)
	for _, e := range ents {
		if e.Name() != ".git" {
			r.must(os.RemoveAll(filepath.Join(dir, e.Name())))
		}
	}
	r.writeFiles(dir, files)
	r.box.give(r, dir)
}

func (r *Run) commitTree(dir string, files map[string]string, msg string) string {
	r.setTree(dir, files)
	r.git(dir, "add", "-A")
	r.git(dir, "commit", "-q", "--allow-empty", "-m", msg)
	return r.git(dir, "rev-parse", "HEAD")
}

func (r *Run) initRepo(dir string) {
	r.must(os.MkdirAll(dir, 0o755))
	r.box.give(r, dir)
	r.git(dir, "init", "-q", "-b", "main")
}

// gitDiff runs capslock-git-diff with the given directory first in PATH.
func (r *Run) gitDiff(dir, path string, env []string, args ...string) Result {
	e := append(append([]string{}, gitEnv...), "PATH="+path+":"+os.Getenv("PATH"))
	return runCmd(CmdOpt{Dir: dir, Env: append(e, env...), Timeout: 120 * time.Second, As: r.box}, r.GitDiff, args...)
}

// pairKey is a key and a capability.
type pairKey struct{ key, cap string }

// A diffGroup is one example in the output: the keys it stands for.
type diffGroup struct {
	keys []string
	cap  string
	path []string // function names
	head string   // capability of the preceding heading
}

// A diffOut is the parsed output of capslock-git-diff.
type diffOut struct {
	newCaps   []string
	newCapsN  int
	usedCaps  []string
	usedN     int
	groups    []diffGroup
	none      bool
	commits   []string
	comparing string
}

var (
	diffHead    = regexp.MustCompile(`^New (?:packages|functions) .*capability (CAPABILITY_\w+|\d+):$`)
	diffGroupRE = regexp.MustCompile(`^(?:Package|Function)(s?) (.+) (?:has|have) capability (CAPABILITY_\w+|\d+):$`)
	diffAdded   = regexp.MustCompile(`^Added (\d+) new (capabilit|use)`)
	diffCapLine = regexp.MustCompile(`^\s+(CAPABILITY_\w+|\d+):`)
	diffSite    = regexp.MustCompile(`^\S+:\d+:\d+\s+`)
)

func parseGitDiff(out string) *diffOut {
	d := &diffOut{newCapsN: -1, usedN: -1}
	var list *[]string
	var g *diffGroup
	headCap := ""
	inCommits := false
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "Comparing capabilities"):
			d.comparing = l
		case strings.HasPrefix(l, "Commits between"):
			inCommits = true
			continue
		case strings.HasPrefix(l, "Between those commits"):
			d.none = true
		case diffAdded.MatchString(l):
			m := diffAdded.FindStringSubmatch(l)
			n := 0
			fmt.Sscan(m[1], &n)
			if m[2] == "use" {
				d.usedN, list = n, &d.usedCaps
			} else {
				d.newCapsN, list = n, &d.newCaps
			}
			inCommits = false
			continue
		case diffHead.MatchString(l):
			headCap = diffHead.FindStringSubmatch(l)[1]
			list, g = nil, nil
		case diffGroupRE.MatchString(l):
			m := diffGroupRE.FindStringSubmatch(l)
			d.groups = append(d.groups, diffGroup{cap: m[3], head: headCap})
			g = &d.groups[len(d.groups)-1]
			if m[1] == "s" {
				g.keys = strings.Split(m[2], ", ")
			} else {
				g.keys = []string{m[2]}
			}
			list = nil
			continue
		case list != nil && diffCapLine.MatchString(l):
			*list = append(*list, diffCapLine.FindStringSubmatch(l)[1])
		case strings.TrimSpace(l) == "":
			list = nil
			if inCommits {
				inCommits = false
			}
		case g != nil:
			g.path = append(g.path, strings.TrimSpace(diffSite.ReplaceAllString(l, "")))
			continue
		case inCommits:
			d.commits = append(d.commits, l)
			continue
		}
		if strings.TrimSpace(l) == "" {
			g = nil
		}
	}
	return d
}

// diffKeys returns the pairs of a report and the paths of each.
func diffKeys(rep *Report, gran string) map[pairKey][]string {
	m := map[pairKey][]string{}
	for _, e := range rep.CapabilityInfo {
		key := e.PackageDir
		if gran == "function" || gran == "" {
			if len(e.Path) == 0 {
				continue
			}
			key = e.Path[0].Name
		}
		if key == "" {
			continue
		}
		var names []string
		for _, f := range e.Path {
			names = append(names, f.Name)
		}
		k := pairKey{key, strings.TrimPrefix(e.Capability, "CAPABILITY_")}
		m[k] = append(m[k], strings.Join(names, "\n"))
	}
	return m
}

// checkDiff compares an execution with what it should have said, and returns
// a description of what is wrong.
func checkDiff(res Result, base, cur *Report, gran string) string {
	b, c := diffKeys(base, gran), diffKeys(cur, gran)
	added := map[pairKey]bool{}
	oldCap := map[string]bool{}
	for k := range b {
		oldCap[k.cap] = true
	}
	var wantNew, wantUsed []string
	uses := 0
	seen := map[string]bool{}
	for k := range c {
		if _, ok := b[k]; ok {
			continue
		}
		added[k] = true
		if oldCap[k.cap] {
			uses++
		}
		if !seen[k.cap] {
			seen[k.cap] = true
			if oldCap[k.cap] {
				wantUsed = append(wantUsed, k.cap)
			} else {
				wantNew = append(wantNew, k.cap)
			}
		}
	}
	want := 0
	if len(added) > 0 {
		want = 1
	}
	if res.Code != want {
		return fmt.Sprintf("exit status %d, want %d: %d pairs were added", res.Code, want, len(added))
	}
	d := parseGitDiff(res.Out)
	if d.none != (len(added) == 0) {
		return fmt.Sprintf("says there are no additions: %v, but %d pairs were added", d.none, len(added))
	}
	listed := map[pairKey]int{}
	full := func(cap string) string { return strings.TrimPrefix(cap, "CAPABILITY_") }
	for _, g := range d.groups {
		if g.head != "" && g.head != g.cap {
			return fmt.Sprintf("%q is listed with %s under the heading for %s", g.keys, g.cap, g.head)
		}
		path := strings.Join(g.path, "\n")
		ok := false
		for _, k := range g.keys {
			pk := pairKey{k, full(g.cap)}
			listed[pk]++
			for _, p := range c[pk] {
				ok = ok || p == path
			}
		}
		if !ok {
			return fmt.Sprintf("the path shown for %q and %s is not a path of the second revision:\n%s", g.keys, g.cap, path)
		}
	}
	for k := range added {
		if listed[k] != 1 {
			return fmt.Sprintf("added pair %v is listed %d times", k, listed[k])
		}
	}
	for k := range listed {
		if !added[k] {
			return fmt.Sprintf("pair %v is listed, but was not added", k)
		}
	}
	same := func(got, want []string) bool {
		var g []string
		for _, x := range got {
			g = append(g, full(x))
		}
		sort.Strings(g)
		w := append([]string{}, want...)
		sort.Strings(w)
		return strings.Join(g, " ") == strings.Join(w, " ")
	}
	n := func(x int) int {
		if x == 0 {
			return -1
		}
		return x
	}
	if !same(d.newCaps, wantNew) || d.newCapsN != n(len(wantNew)) {
		return fmt.Sprintf("new capabilities: says %d %v, want %v", d.newCapsN, d.newCaps, wantNew)
	}
	if !same(d.usedCaps, wantUsed) || d.usedN != n(uses) {
		return fmt.Sprintf("new uses of existing capabilities: says %d %v, want %d %v", d.usedN, d.usedCaps, uses, wantUsed)
	}
	return ""
}

// fakeAnalyser makes a capslock that prints report.json of its directory.
func (r *Run) fakeAnalyser() string {
	d := r.box.dir(r, "fakecap")
	r.must(os.WriteFile(filepath.Join(d, "capslock"), []byte(`#!/bin/sh
if [ -n "$FAKE_LOG" ]; then
  { echo "run $(pwd)"; for a; do echo "arg $a"; done; } >> "$FAKE_LOG"
fi
if [ -f fail ]; then cat report.json; echo "scripted failure" >&2; exit $(cat fail); fi
if [ -f kill ]; then cat report.json; kill -9 $$; fi
cat report.json
`), 0o755))
	return d
}

// randomReport makes entries the way the analyser does at a granularity.
func randomReport(rnd *rand.Rand, gran string) []map[string]any {
	pkgs := []string{"ex.com/m", "ex.com/m/a", "ex.com/m/b", "ex.com/m/b/c", "ex.com/x", "os", "net/http"}
	caps := []string{"FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE", "MODIFY_SYSTEM_STATE", "OPERATING_SYSTEM", "SYSTEM_CALLS", "ARBITRARY_EXECUTION", "CGO", "UNANALYZED", "UNSAFE_POINTER", "REFLECT", "EXEC"}
	caps = caps[rnd.Intn(6):]
	caps = caps[:1+rnd.Intn(len(caps))]
	fn := func(p string) map[string]any {
		f := map[string]any{"name": p + "." + string(rune('A'+rnd.Intn(4))), "package": p}
		if rnd.Intn(10) == 0 {
			f["name"] = "(*" + p + ".T).M"
		}
		if rnd.Intn(4) != 0 {
			f["site"] = map[string]any{"filename": "x.go", "line": fmt.Sprint(1 + rnd.Intn(500)), "column": fmt.Sprint(1 + rnd.Intn(90))}
		}
		return f
	}
	seen := map[string]bool{}
	out := []map[string]any{}
	for i := rnd.Intn(25); i > 0; i-- {
		p := pkgs[rnd.Intn(len(pkgs))]
		if gran != "intermediate" {
			p = pkgs[rnd.Intn(4)]
		}
		c := caps[rnd.Intn(len(caps))]
		var path []map[string]any
		for k := 1 + rnd.Intn(4); k > 0; k-- {
			path = append(path, fn(pkgs[rnd.Intn(len(pkgs))]))
		}
		at := 0
		if gran == "intermediate" {
			at = rnd.Intn(len(path))
		}
		path[at] = fn(p)
		delete(path[0], "site")
		key := p + c
		if gran == "function" || gran == "" {
			key = path[0]["name"].(string) + c
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		e := map[string]any{"packageName": p[strings.LastIndex(p, "/")+1:], "packageDir": p, "capability": "CAPABILITY_" + c, "path": path, "capabilityType": []string{"CAPABILITY_TYPE_DIRECT", "CAPABILITY_TYPE_TRANSITIVE"}[rnd.Intn(2)]}
		var dep []string
		for _, f := range path {
			dep = append(dep, f["name"].(string))
		}
		e["depPath"] = strings.Join(dep, " ")
		out = append(out, e)
	}
	return out
}

func reportJSON(es []map[string]any) string {
	b, _ := json.MarshalIndent(map[string]any{"capabilityInfo": es}, "", " ")
	return string(b)
}

// scriptedReports compares random analyser outputs committed to a repository.
func (r *Run) scriptedReports() {
	fake := r.fakeAnalyser()
	grans := []string{"intermediate", "package", "function", "", "default"}
	r.parallel(r.pick(16, 60), 8, func(i int) {
		rnd := r.rng(fmt.Sprint("scripted", i))
		gran := grans[i%len(grans)]
		dir := filepath.Join(r.box.dir(r, "rep"), "w")
		r.initRepo(dir)
		var args []string
		if gran == "default" {
			gran = "intermediate"
		} else {
			args = append(args, "-granularity="+gran)
		}
		caps := "-UNANALYZED"
		switch rnd.Intn(3) {
		case 0:
			caps = ""
			args = append(args, "-capabilities=")
		case 1:
			caps = "FILES,NETWORK"
			args = append(args, "-capabilities="+caps)
		}
		var revs []string
		var reps []*Report
		es := randomReport(rnd, gran)
		for k := 0; k < 4; k++ {
			switch {
			case k == 0:
			case rnd.Intn(4) == 0:
				es = randomReport(rnd, gran)
			default:
				// Keep some of the entries, and add some.
				var keep []map[string]any
				seen := map[string]bool{}
				for _, e := range append(es, randomReport(rnd, gran)...) {
					id := fmt.Sprint(e["packageDir"], e["capability"])
					if gran == "function" || gran == "" {
						id = fmt.Sprint(e["path"].([]map[string]any)[0]["name"], e["capability"])
					}
					if !seen[id] && rnd.Intn(4) != 0 {
						seen[id] = true
						keep = append(keep, e)
					}
				}
				es = keep
			}
			text := reportJSON(es)
			var rep Report
			r.must(json.Unmarshal([]byte(text), &rep))
			reps = append(reps, &rep)
			revs = append(revs, r.commitTree(dir, map[string]string{"report.json": text, "sub/report.json": reportJSON(nil)}, fmt.Sprint("c", k)))
		}
		// The work tree has a report of its own.
		wt := reportJSON(randomReport(rnd, gran))
		r.must(os.WriteFile(filepath.Join(dir, "report.json"), []byte(wt), 0o644))
		var wrep Report
		r.must(json.Unmarshal([]byte(wt), &wrep))
		revs, reps = append(revs, "."), append(reps, &wrep)
		for a := range revs {
			for b := range revs {
				if rnd.Intn(r.pick(2, 1)) != 0 && a != b {
					continue
				}
				log := filepath.Join(r.box.dir(r, "log"), "log")
				x := append(append([]string{}, args...), revs[a], revs[b])
				pat := "./..."
				if rnd.Intn(2) == 0 {
					pat = "./x/..."
					x = append(x, pat)
				}
				if rnd.Intn(8) == 0 {
					x = append([]string{"-v"}, x...)
				}
				res := r.gitDiff(dir, fake, []string{"FAKE_LOG=" + log}, x...)
				r.Eval(fmt.Sprintf("scripted%d/%d/%d", i, a, b))
				r.Count("scripted comparisons", 1)
				r.Count(fmt.Sprintf("exit status %d", res.Code), 1)
				bad := checkDiff(res, reps[a], reps[b], gran)
				if bad == "" {
					bad = checkAnalyserCalls(log, gran, caps, pat, dir, revs[a], revs[b])
				}
				if bad == "" && revs[a] != "." && revs[b] != "." {
					bad = r.checkCommits(dir, res, revs[a], revs[b])
				}
				if bad != "" {
					r.Violate("scripted/"+gran, fmt.Sprintf("capslock-git-diff %q: %s\nstdout:\n%s\nstderr:\n%s", x, bad, clip(res.Out, 4000), clip(res.Err, 2000)), map[string]string{"args.txt": strings.Join(x, "\n")}, dir)
				}
				if i == 1 && a == 0 && b == 1 {
					r.Sample(map[string]any{"args": x, "exit": res.Code, "stdout": clip(res.Out, 600)})
				}
			}
		}
	})
}

// longHistories compares revisions with many commits in between.
func (r *Run) longHistories() {
	dir := filepath.Join(r.box.dir(r, "long"), "repo")
	r.initRepo(dir)
	rnd := r.rng("long")
	var one, two Report
	text := []string{reportJSON(nil), reportJSON(randomReport(rnd, "package"))}
	for len(two.CapabilityInfo) == 0 {
		two = Report{}
		text[1] = reportJSON(randomReport(rnd, "package"))
		r.must(json.Unmarshal([]byte(text[1]), &two))
	}
	r.must(json.Unmarshal([]byte(text[0]), &one))
	base := r.commitTree(dir, map[string]string{"report.json": text[0]}, "base")
	r.commitTree(dir, map[string]string{"report.json": text[1]}, "change")
	// The other commits are empty.
	const total = 170
	res := runCmd(CmdOpt{Dir: dir, Env: gitEnv, As: r.box}, "sh", "-c", fmt.Sprintf("for i in $(seq 2 %d); do git commit -q --allow-empty -m \"commit number $i\" || exit 1; done", total))
	if res.Code != 0 {
		r.inconclusive("making commits: %s", clip(res.Err, 500))
	}
	fake := r.fakeAnalyser()
	counts := []int{1, 2, 60, 99, 100, 101, 118, 119, 120, 121, 122, 150, total}
	r.parallel(len(counts), 4, func(i int) {
		b := r.git(dir, "rev-parse", fmt.Sprintf("HEAD~%d", total-counts[i]))
		x := []string{"-granularity=package", base, b}
		res := r.gitDiff(dir, fake, []string{"FAKE_LOG=/dev/null"}, x...)
		bad := checkDiff(res, &one, &two, "package")
		if bad == "" {
			bad = r.checkCommits(dir, res, base, b)
		}
		if bad != "" {
			r.Violate("history", fmt.Sprintf("capslock-git-diff %q with %d commits in between: %s\nstdout:\n%s\nstderr:\n%s", x, counts[i], bad, clip(res.Out, 4000), clip(res.Err, 2000)), map[string]string{"args.txt": strings.Join(x, "\n")}, dir)
		}
		r.Eval(fmt.Sprintf("history of %d commits", counts[i]))
		r.Count("long histories", 1)
	})
}

// checkCommits compares the commits listed with git's.
func (r *Run) checkCommits(dir string, res Result, a, b string) string {
	want := r.git(dir, "log", "--no-decorate", "--oneline", "^"+a, b, "--")
	d := parseGitDiff(res.Out)
	var w []string
	if want != "" {
		w = strings.Split(want, "\n")
	}
	// A long list may be abbreviated.
	for i, l := range d.commits {
		n := 0
		if k, _ := fmt.Sscanf(l, "(...%d commits omitted...)", &n); k != 1 {
			continue
		}
		end := d.commits[i+1:]
		if i == 0 || len(end) == 0 || len(w) <= 100 {
			return fmt.Sprintf("%d of %d commits listed before an omission and %d after it", i, len(w), len(end))
		}
		if i+n+len(end) != len(w) {
			return fmt.Sprintf("%d commits listed, %d omitted, %d listed: the sum is not %d", i, n, len(end), len(w))
		}
		r.Count("abbreviated lists of commits", 1)
		w = append(append(append([]string{}, w[:i]...), l), w[len(w)-len(end):]...)
		break
	}
	if strings.Join(d.commits, "\n") != strings.Join(w, "\n") {
		return fmt.Sprintf("commits listed: %q, want %q", d.commits, w)
	}
	return ""
}

// checkAnalyserCalls checks how the analyser was run.
func checkAnalyserCalls(log, gran, caps, pat, dir, a, b string) string {
	text, err := os.ReadFile(log)
	if err != nil {
		return "the analyser was not run"
	}
	runs := strings.Split(strings.TrimPrefix(string(text), "run "), "\nrun ")
	if len(runs) != 2 {
		return fmt.Sprintf("the analyser was run %d times", len(runs))
	}
	for i, run := range runs {
		rev := []string{a, b}[i]
		ls := strings.Split(strings.TrimSpace(run), "\n")
		inPlace := ls[0] == dir
		if inPlace != (rev == ".") {
			return fmt.Sprintf("revision %q was analysed in %s", rev, ls[0])
		}
		has := map[string]bool{}
		for _, l := range ls[1:] {
			has[strings.TrimPrefix(l, "arg ")] = true
		}
		for _, w := range []string{"-packages=" + pat, "-output=json", "-granularity=" + gran} {
			if !has[w] {
				return fmt.Sprintf("the analyser was run with %q, without %q", ls[1:], w)
			}
		}
		if caps != "" && !has["-capabilities="+caps] {
			return fmt.Sprintf("the analyser was run with %q, without the capabilities %q", ls[1:], caps)
		}
	}
	return ""
}

// gitScene is a repository with code, and ways to name its revisions.
type gitScene struct {
	dir  string
	revs map[string]map[string]string // spelling of revision → files
	env  []string
	path string // -> run in this subdirectory
}

var gitOps = []string{`os.Getenv("x")`, `os.ReadFile("x")`, `os.Getpid()`, `os.StartProcess("", nil, nil)`, `os.Setenv("a", "b")`, `syscall.Kill(0, 0)`, `runtime.Breakpoint()`, `os.Pipe()`, `runtime.SetFinalizer(nil, nil)`}
var gitOpImports = []string{"os", "os", "os", "os", "os", "syscall", "runtime", "os", "runtime"}

// randomTree makes the source of a module, with a nested module.
func randomTree(rnd *rand.Rand) map[string]string {
	files := map[string]string{"go.mod": "module ex.com/m\n\ngo 1.21\n", "sub/in/go.mod": "module ex.com/in\n\ngo 1.21\n"}
	names := []string{"a", "b", "sub/c", "sub/d"}
	use := map[int]bool{}
	for i := range names {
		use[i] = i == 3 || i == 0 || rnd.Intn(4) != 0
	}
	gen := func(p string, calls []string) string {
		base := filepath.Base(p)
		body, im := "", map[string]bool{}
		for k := rnd.Intn(3); k > 0; k-- {
			o := rnd.Intn(len(gitOps))
			body += fmt.Sprintf("func F%d() { %s }\n\n", k, gitOps[o])
			im[gitOpImports[o]] = true
		}
		all := ""
		for _, c := range calls {
			all += filepath.Base(c) + ".All(); "
			im["ex.com/m/"+c] = true
		}
		o := rnd.Intn(len(gitOps) + 3)
		if o < len(gitOps) {
			all += gitOps[o]
			im[gitOpImports[o]] = true
		}
		src := "package " + base + "\n\nimport (\n"
		for _, x := range sortedKeys(im) {
			src += fmt.Sprintf("\t%q\n", x)
		}
		return src + ")\n\n" + body + "func All() { " + all + " }\n"
	}
	for i, n := range names {
		if !use[i] {
			continue
		}
		var calls []string
		for j := i + 1; j < len(names); j++ {
			if use[j] && rnd.Intn(2) == 0 {
				calls = append(calls, names[j])
			}
		}
		files[n+"/x.go"] = gen(n, calls)
	}
	files["sub/in/x.go"] = gen("in", nil)
	return files
}

// realRepositories compares revisions of repositories that contain Go code.
func (r *Run) realRepositories() {
	bin := filepath.Dir(r.CLI)
	type job struct {
		scene string
		build func(rnd *rand.Rand, top string) (dir string, revs map[string]map[string]string, env []string)
	}
	linear := func(rnd *rand.Rand, dir string, n int) (shas []string, trees []map[string]string) {
		r.initRepo(dir)
		for i := 0; i < n; i++ {
			t := randomTree(rnd)
			trees = append(trees, t)
			shas = append(shas, r.commitTree(dir, t, fmt.Sprintf("message%d", i)))
		}
		return
	}
	type revmap = map[string]map[string]string
	jobs := []job{
		{"spellings", func(rnd *rand.Rand, top string) (string, revmap, []string) {
			dir := filepath.Join(top, "w")
			s, t := linear(rnd, dir, 4)
			r.git(dir, "branch", "side", s[1])
			r.git(dir, "tag", "light", s[0])
			r.git(dir, "tag", "-a", "-m", "x", "heavy", s[2])
			r.git(dir, "branch", "feature/x", s[2])
			r.git(dir, "branch", "a", s[1]) // also a directory
			return dir, revmap{s[0]: t[0], s[1][:9]: t[1], "side": t[1], "light": t[0], "heavy": t[2], "HEAD": t[3], "HEAD~2": t[1], "HEAD^": t[2], "main": t[3], "refs/heads/main": t[3], "feature/x": t[2], ":/message1": t[1], "main~3": t[0], "@": t[3], "heavy^{commit}": t[2], "HEAD@{1}": t[2], "main@{2}": t[1], "a": t[1]}, nil
		}},
		{"dirty", func(rnd *rand.Rand, top string) (string, revmap, []string) {
			dir := filepath.Join(top, "w")
			s, t := linear(rnd, dir, 3)
			wt := randomTree(rnd)
			r.setTree(dir, randomTree(rnd))
			r.git(dir, "add", "-A")
			r.setTree(dir, wt)
			return dir, revmap{".": wt, "HEAD": t[2], s[0]: t[0], "main~1": t[1]}, nil
		}},
		{"remote", func(rnd *rand.Rand, top string) (string, revmap, []string) {
			up := filepath.Join(top, "up")
			_, t := linear(rnd, up, 3)
			dir := filepath.Join(top, "w")
			r.git(top, "clone", "-q", up, dir)
			mine := randomTree(rnd)
			r.commitTree(dir, mine, "mine")
			theirs := randomTree(rnd)
			r.commitTree(up, theirs, "theirs")
			r.git(up, "branch", "other", "HEAD~2")
			r.git(dir, "fetch", "-q")
			return dir, revmap{"origin/main": theirs, "main": mine, "HEAD": mine, "origin/main~1": t[2], "@{upstream}": theirs, "origin/other": t[1], "origin/HEAD": theirs, "remotes/origin/main": theirs, "FETCH_HEAD": theirs}, nil
		}},
		{"detached", func(rnd *rand.Rand, top string) (string, revmap, []string) {
			dir := filepath.Join(top, "w")
			s, t := linear(rnd, dir, 3)
			r.git(dir, "checkout", "-q", "--detach", s[0])
			lone := randomTree(rnd)
			c := r.commitTree(dir, lone, "lone")
			r.git(dir, "checkout", "-q", "--detach", s[1])
			return dir, revmap{"HEAD": t[1], "main": t[2], c: lone, "HEAD~1": t[0], "@{1}": lone, ".": t[1]}, nil
		}},
		{"worktree", func(rnd *rand.Rand, top string) (string, revmap, []string) {
			main := filepath.Join(top, "w")
			s, t := linear(rnd, main, 3)
			dir := filepath.Join(top, "other tree")
			r.git(main, "worktree", "add", "-q", "-b", "wt", dir, s[0])
			mine := randomTree(rnd)
			r.commitTree(dir, mine, "mine")
			return dir, revmap{"HEAD": mine, "wt": mine, "main": t[2], "HEAD~1": t[0], ".": mine, "@{1}": t[0]}, nil
		}},
		{"separate git dir", func(rnd *rand.Rand, top string) (string, revmap, []string) {
			dir := filepath.Join(top, "-odd name")
			r.must(os.MkdirAll(dir, 0o755))
			r.box.give(r, top)
			r.git(dir, "init", "-q", "-b", "main", "--separate-git-dir", filepath.Join(top, "-g it"))
			_, t := linear(rnd, dir, 2)
			return dir, revmap{"HEAD": t[1], "main^": t[0], ".": t[1]}, nil
		}},
		{"git environment", func(rnd *rand.Rand, top string) (string, revmap, []string) {
			dir := filepath.Join(top, "w")
			_, t := linear(rnd, dir, 3)
			return dir, revmap{"HEAD": t[2], "main^": t[1], "HEAD~2": t[0], ".": t[2]}, []string{"GIT_DIR=" + filepath.Join(dir, ".git"), "GIT_WORK_TREE=" + dir, "GIT_INDEX_FILE=" + filepath.Join(dir, ".git", "index")}
		}},
		{"object directory", func(rnd *rand.Rand, top string) (string, revmap, []string) {
			dir := filepath.Join(top, "w")
			_, t := linear(rnd, dir, 3)
			return dir, revmap{"HEAD": t[2], "main^": t[1], "HEAD~2": t[0], ".": t[2]}, []string{"GIT_OBJECT_DIRECTORY=.git/objects"}
		}},
		{"attributes", func(rnd *rand.Rand, top string) (string, revmap, []string) {
			dir := filepath.Join(top, "w")
			r.initRepo(dir)
			var t []map[string]string
			for i := 0; i < 3; i++ {
				x := randomTree(rnd)
				x[".gitattributes"] = "*.go export-ignore\nx.go text eol=lf\n"
				x[".gitignore"] = "ignored.go\n"
				t = append(t, x)
				r.commitTree(dir, x, fmt.Sprint(i))
			}
			wt := map[string]string{"a/ignored.go": "package a\n\nimport \"os\"\n\nfunc Ign() { os.Chdir(\"\") }\n"}
			for k, v := range t[2] {
				wt[k] = v
			}
			r.writeFiles(dir, wt)
			r.box.give(r, dir)
			return dir, revmap{"HEAD": t[2], "HEAD^": t[1], "HEAD~2": t[0], ".": wt}, nil
		}},
		{"merges", func(rnd *rand.Rand, top string) (string, revmap, []string) {
			dir := filepath.Join(top, "w")
			s, t := linear(rnd, dir, 2)
			r.git(dir, "checkout", "-q", "-b", "side", s[0])
			x := randomTree(rnd)
			r.commitTree(dir, x, "side")
			r.git(dir, "checkout", "-q", "main")
			r.git(dir, "merge", "-q", "-s", "ours", "-m", "merge", "side")
			r.git(dir, "stash", "list")
			return dir, revmap{"main": t[1], "main^1": t[1], "main^2": x, "side": x, "main^2~1": t[0]}, nil
		}},
		{"stash and tag with the name of a branch", func(rnd *rand.Rand, top string) (string, revmap, []string) {
			dir := filepath.Join(top, "w")
			s, t := linear(rnd, dir, 3)
			wt := randomTree(rnd)
			r.setTree(dir, wt)
			r.git(dir, "add", "-A")
			r.git(dir, "stash", "-q")
			r.git(dir, "branch", "both", s[0])
			r.git(dir, "tag", "both", s[1])
			return dir, revmap{"stash": wt, "stash@{0}": wt, "both": t[1], "heads/both": t[0], "HEAD": t[2]}, nil
		}},
		{"hooks and attributes", func(rnd *rand.Rand, top string) (string, revmap, []string) {
			dir := filepath.Join(top, "w")
			_, t := linear(rnd, dir, 2)
			h := filepath.Join(dir, ".git", "hooks", "post-checkout")
			r.must(os.MkdirAll(filepath.Dir(h), 0o755))
			r.must(os.WriteFile(h, []byte("#!/bin/sh\nrm -rf a\nexit 1\n"), 0o755))
			r.box.give(r, h)
			return dir, revmap{"HEAD": t[1], "HEAD^": t[0]}, nil
		}},
	}
	n := len(jobs) * r.pick(1, 4)
	r.parallel(n, 6, func(i int) {
		j := jobs[i%len(jobs)]
		rnd := r.rng(fmt.Sprint("real", i))
		top := r.box.dir(r, "scene")
		dir, revs, env := j.build(rnd, top)
		cache := map[string]*Report{}
		names := sortedKeys(revs)
		subs := []string{"", "sub", "a", "sub/in"}
		tries := r.pick(5, 14)
		if j.scene == "spellings" || j.scene == "remote" {
			tries *= 2
		}
		for k := 0; k < tries; k++ {
			a, b := names[rnd.Intn(len(names))], names[rnd.Intn(len(names))]
			// Name every revision at least once, if there are enough tries.
			if k*2 < len(names) {
				a = names[k*2]
			}
			if k*2+1 < len(names) {
				b = names[k*2+1]
			}
			sub := ""
			if len(env) == 0 {
				sub = subs[rnd.Intn(len(subs))]
			}
			gran := []string{"intermediate", "package", "function"}[rnd.Intn(3)]
			pat := "./..."
			x := []string{"-granularity=" + gran, a, b}
			if sub == "" && rnd.Intn(3) == 0 {
				pat = []string{"./sub/...", "./a", "ex.com/m/..."}[rnd.Intn(3)]
				x = append(x, pat)
			}
			report := func(rev string) *Report {
				id := rev + " " + sub + " " + gran + " " + pat
				if cache[id] == nil {
					d := r.box.dir(r, "tree")
					r.writeFiles(d, revs[rev])
					wd := filepath.Join(d, sub)
					if _, err := os.Stat(wd); err != nil {
						r.inconclusive("missing directory %s", wd)
					}
					res := runCmd(CmdOpt{Dir: wd, Timeout: 120 * time.Second, As: r.box}, r.CLI, "-packages="+pat, "-output=json", "-granularity="+gran, "-capabilities=-UNANALYZED")
					if res.Code != 0 {
						r.inconclusive("capslock: %s", clip(res.Err, 500))
					}
					var rep Report
					r.must(json.Unmarshal([]byte(res.Out), &rep))
					cache[id] = &rep
				}
				return cache[id]
			}
			base, cur := report(a), report(b)
			tmp := r.box.dir(r, "gdtmp")
			res := r.gitDiff(filepath.Join(dir, sub), bin, append([]string{"CAPSLOCKTOOLSTMPDIR=" + tmp, "GOFLAGS=-mod=mod"}, env...), x...)
			if res.Timeout {
				r.inconclusive("capslock-git-diff: watchdog timeout")
			}
			r.Eval(fmt.Sprintf("%s %d %s..%s %s %s", j.scene, i, a, b, sub, gran))
			r.Count("scene "+j.scene, 1)
			r.Count(fmt.Sprintf("exit status %d", res.Code), 1)
			bad := checkDiff(res, base, cur, gran)
			if bad == "" && a != "." && b != "." {
				bad = r.checkCommits(dir, res, a, b)
			}
			if bad != "" {
				r.Violate("real/"+j.scene, fmt.Sprintf("scene %q, in %q: capslock-git-diff %q: %s\nstdout:\n%s\nstderr:\n%s", j.scene, sub, x, bad, clip(res.Out, 4000), clip(res.Err, 2000)), map[string]string{"args.txt": strings.Join(x, "\n")}, top)
			}
			if k == 0 && i < 3 {
				r.Sample(map[string]any{"scene": j.scene, "directory": sub, "args": x, "exit": res.Code, "added": strings.Count(res.Out, " capability CAPABILITY_")})
			}
		}
	})
}

// gitDiffFaults makes the helper programs fail.
func (r *Run) gitDiffFaults() {
	fake := r.fakeAnalyser()
	real, err := exec.LookPath("git")
	r.must(err)
	top := r.box.dir(r, "faults")
	dir := filepath.Join(top, "w")
	r.initRepo(dir)
	rnd := r.rng("faults")
	a, b := reportJSON(randomReport(rnd, "intermediate")), reportJSON(randomReport(rnd, "intermediate"))
	add := func(files map[string]string, tag string) {
		r.commitTree(dir, files, tag)
		r.git(dir, "tag", tag)
	}
	add(map[string]string{"report.json": a}, "one")
	add(map[string]string{"report.json": b, "sub/report.json": b, "sub/x": ""}, "two")
	add(map[string]string{"report.json": b, "fail": "1"}, "fails1")
	add(map[string]string{"report.json": b, "fail": "2"}, "fails2")
	add(map[string]string{"report.json": a, "kill": ""}, "killed")
	add(map[string]string{"report.json": ""}, "empty")
	add(map[string]string{"report.json": b[:len(b)-20]}, "truncated")
	add(map[string]string{"report.json": "warning\n" + b}, "notjson")
	add(map[string]string{"report.json": `{"capabilityInfo": [{"capability": "CAPABILITY_NOSUCH"}]}`}, "badcap")
	add(map[string]string{"report.json": `{"capabilityInfo": 3}`}, "badtype")
	add(map[string]string{"x": ""}, "noreport")
	r.git(dir, "checkout", "-q", "two")
	expect := func(name string, want int, wd, path string, env []string, args ...string) {
		res := r.gitDiff(wd, path, env, args...)
		if res.Timeout {
			r.inconclusive("capslock-git-diff: watchdog timeout")
		}
		r.Eval("fault " + name + fmt.Sprint(args))
		r.Count("faults", 1)
		r.Count(fmt.Sprintf("exit status %d", res.Code), 1)
		if res.Code != want {
			r.Violate("fault/"+name, fmt.Sprintf("%s: capslock-git-diff %q: exit status %d, want %d\nstdout:\n%s\nstderr:\n%s", name, args, res.Code, want, clip(res.Out, 2000), clip(res.Err, 2000)), map[string]string{"args.txt": strings.Join(args, "\n")}, dir)
		} else if want == 2 && res.Err == "" {
			r.Violate("silent/"+name, fmt.Sprintf("%s: capslock-git-diff %q fails without a message", name, args), nil, dir)
		}
	}
	expect("control", 1, dir, fake, nil, "one", "two")
	expect("control", 0, dir, fake, nil, "one", "one")
	for _, bad := range []string{"fails1", "fails2", "killed", "empty", "truncated", "notjson", "badcap", "badtype", "noreport"} {
		expect("analyser "+bad, 2, dir, fake, nil, bad, "two")
		expect("analyser "+bad, 2, dir, fake, nil, "two", bad)
		expect("analyser "+bad, 2, dir, fake, nil, "-granularity=function", "two", bad)
		expect("analyser "+bad, 2, dir, fake, nil, bad, bad)
	}
	for _, bad := range []string{"nosuch", "two:report.json", "HEAD~99", "", " ", "one two", "one..two", "--all", "two^{tree}"} {
		args := []string{bad, "two"}
		if strings.HasPrefix(bad, "-") {
			args = append([]string{"--"}, args...)
		}
		expect("revision", 2, dir, fake, nil, args...)
		args[len(args)-1], args[len(args)-2] = bad, "two"
		expect("revision", 2, dir, fake, nil, args...)
	}
	for _, args := range [][]string{{}, {"one"}, {"one", "two", "./...", "x"}, {"-nosuchflag", "one", "two"}, {"-granularity", "one", "two"}} {
		expect("arguments", 2, dir, fake, nil, args...)
	}
	expect("missing analyser", 2, dir, r.box.dir(r, "nopath"), nil, "one", "two")
	expect("subdirectory missing in revision", 2, filepath.Join(dir, "sub"), fake, nil, "one", "two")
	expect("no repository", 2, r.box.dir(r, "norepo"), fake, []string{"GIT_CEILING_DIRECTORIES=" + r.box.Top}, "one", "two")
	expect("temporary directory", 2, dir, fake, []string{"CAPSLOCKTOOLSTMPDIR=/nonexistent/x"}, "one", "two")
	for _, g := range []string{"nosuch", "Package", "intermediates"} {
		expect("granularity", 2, dir, filepath.Dir(r.CLI), nil, "-granularity="+g, "one", "two")
	}
	// Each git command in turn.
	for _, how := range []string{"exit 128", "kill -9 $$"} {
		for n := 1; n < 40; n++ {
			g := r.box.dir(r, "fakegit")
			r.must(os.WriteFile(filepath.Join(g, "git"), []byte(fmt.Sprintf(`#!/bin/sh
echo x >> %[1]s/count
if [ $(wc -l < %[1]s/count) = %[2]d ]; then echo "$@" > %[1]s/hit; echo "scripted failure" >&2; %[3]s; fi
exec %[4]s "$@"
`, g, n, how, real)), 0o755))
			b, _ := os.ReadFile(filepath.Join(fake, "capslock"))
			r.must(os.WriteFile(filepath.Join(g, "capslock"), b, 0o755))
			res := r.gitDiff(dir, g, nil, "one", "two")
			hit, err := os.ReadFile(filepath.Join(g, "hit"))
			if err != nil {
				break
			}
			r.Eval(fmt.Sprintf("git %d %s", n, how))
			r.Count("git commands that failed", 1)
			r.Count(fmt.Sprintf("exit status %d", res.Code), 1)
			if res.Code != 2 {
				r.Violate("fault/git", fmt.Sprintf("git %s fails (%s), but the exit status is %d\nstdout:\n%s\nstderr:\n%s", strings.TrimSpace(string(hit)), how, res.Code, clip(res.Out, 2000), clip(res.Err, 2000)), nil, dir)
			}
		}
	}
}

func checkC18(r *Run) {
	r.box = r.newBox()
	r.rule = "one evaluation = one execution of capslock-git-diff whose exit status and output were compared with what the two reports imply; non-trivial = distinct repository, pair of revisions, directory and options, or distinct fault"
	r.scriptedReports()
	r.longHistories()
	r.realRepositories()
	r.gitDiffFaults()
	r.Require("scripted comparisons", 50)
	r.Require("exit status 0", 10)
	r.Require("exit status 1", 50)
	r.Require("exit status 2", 40)
	r.Require("git commands that failed", 6)
}
