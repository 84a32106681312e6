package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/callgraph"
)

// A Subject is a module directory with packages to analyse.
type Subject struct {
	Name     string
	Dir      string
	Patterns []string
	Base     *CapMap // user map every case starts from; may be nil
	NoBuilt  bool    // the subject is analysed with the built-in map disabled
	Prog     *Prog   // abstract model, for generated subjects

	once sync.Once
	ref  *RefProg
	err  error
}

func (s *Subject) args() []string { return []string{"-packages", strings.Join(s.Patterns, ",")} }

// Ref returns the loaded reference program.
func (s *Subject) Ref(r *Run) *RefProg {
	s.once.Do(func() { s.ref, s.err = refBuild(RefOpt{Dir: s.Dir, Patterns: s.Patterns}) })
	if s.err != nil {
		r.inconclusive("reference load of %s: %v", s.Name, s.err)
	}
	return s.ref
}

// builds reports whether the go command accepts the subject.
func (s *Subject) builds() bool {
	return runCmd(CmdOpt{Dir: s.Dir}, "go", "vet", "./...").Code == 0
}

// genSubject writes a generated program and queries a random subset of its
// packages.
func (r *Run) genSubject(name string, rnd *rand.Rand, npkg, nfn, nedge, nsink, ninit int) *Subject {
	p := randomProg(rnd, npkg, nfn, nedge, nsink, ninit)
	p.Stub = true
	dir := r.tmp(name)
	r.writeFiles(dir, p.Files())
	var pats []string
	for _, g := range p.Pkgs {
		if rnd.Intn(3) != 0 {
			pats = append(pats, "./"+g.Name)
		}
	}
	if len(pats) == 0 {
		pats = append(pats, "./p0")
	}
	base := newCapMap()
	base.Package["ex.com/gen/rt"] = "SAFE"
	return &Subject{Name: name, Dir: dir, Patterns: pats, Base: base, NoBuilt: true, Prog: p}
}

// sinkMap returns a map giving every sink of the program a random capability.
func sinkMap(rnd *rand.Rand, p *Prog) *CapMap {
	m := newCapMap()
	m.Package["ex.com/gen/rt"] = "SAFE"
	caps := append([]string{}, reportCaps...)
	rnd.Shuffle(len(caps), func(i, j int) { caps[i], caps[j] = caps[j], caps[i] })
	caps = caps[:2+rnd.Intn(5)]
	for _, s := range p.Sinks {
		if rnd.Intn(5) == 0 {
			// An unanalyzed entry, with or without an overriding func entry.
			m.Unanalyzed[s.SSA] = true
			if rnd.Intn(2) == 0 {
				continue
			}
		}
		m.Func[s.SSA] = caps[rnd.Intn(len(caps))]
	}
	return m
}

// repoSubjects returns subjects made from packages of the repository itself.
func (r *Run) repoSubjects() []*Subject {
	var out []*Subject
	add := func(name string, pats ...string) {
		for _, p := range pats {
			p = strings.TrimSuffix(strings.TrimSuffix(p, "/..."), "/")
			if _, err := os.Stat(filepath.Join("/repo", p)); err != nil {
				return
			}
		}
		out = append(out, &Subject{Name: name, Dir: "/repo", Patterns: pats})
	}
	add("testpkgs", "./testpkgs/...")
	return out
}

// stdSubjects analyses the named packages from an empty module.
func (r *Run) stdSubjects(pkgs ...string) []*Subject {
	dir := r.tmp("stdmod")
	r.writeFiles(dir, map[string]string{"go.mod": "module ex.com/empty\n\ngo 1.23\n", "e.go": "package empty\n"})
	var out []*Subject
	for _, p := range pkgs {
		out = append(out, &Subject{Name: p, Dir: dir, Patterns: strings.Split(p, ",")})
	}
	return out
}

// srcSubject writes a module with the given files.
func (r *Run) srcSubject(name string, files map[string]string, pats ...string) *Subject {
	dir := r.tmp(strings.ReplaceAll(name, "/", "_"))
	if _, ok := files["go.mod"]; !ok {
		f := map[string]string{"go.mod": "module ex.com/m\n\ngo 1.23\n"}
		for k, v := range files {
			f[k] = v
		}
		files = f
	}
	r.writeFiles(dir, files)
	if len(pats) == 0 {
		pats = []string{"./..."}
	}
	return &Subject{Name: name, Dir: dir, Patterns: pats}
}

// A Case is a subject with a map.
type Case struct {
	S     *Subject
	Name  string
	User  *CapMap // nil: no custom map
	NoBlt bool
	Noisy bool
	Caps  string // -capabilities

	mapFile string
}

// Map returns the effective map of the case.
func (c *Case) Map(r *Run) *CapMap {
	m := newCapMap()
	if !c.NoBlt {
		m = r.builtinMap()
	}
	if c.User != nil {
		m = m.merge(c.User)
	}
	if c.Noisy {
		m = m.withoutUnanalyzed()
	}
	return m
}

// Args returns command-line arguments for the case.
func (c *Case) Args(r *Run, more ...string) []string {
	a := c.S.args()
	if c.User != nil {
		if c.mapFile == "" {
			d := r.tmp("map")
			c.mapFile = filepath.Join(d, "m.cm")
			r.must(os.WriteFile(c.mapFile, []byte(c.User.String()), 0o644))
		}
		a = append(a, "-capability_map", c.mapFile)
	}
	if c.NoBlt {
		a = append(a, "-disable_builtin")
	}
	if c.Noisy {
		a = append(a, "-noisy")
	}
	if c.Caps != "" {
		a = append(a, "-capabilities", c.Caps)
	}
	return append(a, more...)
}

func (c *Case) capHas(cap string) bool {
	if c.Caps == "" {
		return true
	}
	neg := strings.HasPrefix(c.Caps, "-")
	found := false
	for _, s := range strings.Split(c.Caps, ",") {
		s = strings.TrimPrefix(strings.TrimPrefix(s, "-"), "CAPABILITY_")
		if s == cap {
			found = true
		}
	}
	return found != neg
}

func (c *Case) describe() string {
	s := c.S.Name + "/" + c.Name
	return s
}

// replay returns the files that identify the case.
func (c *Case) replay(r *Run, args []string, extra map[string]string) map[string]string {
	f := map[string]string{
		"command.txt": fmt.Sprintf("cd %s && capslock %s\n", c.S.Dir, strings.Join(args, " ")),
	}
	if c.User != nil {
		f["m.cm"] = c.User.String()
	}
	for k, v := range extra {
		f[k] = v
	}
	return f
}

func (c *Case) replayDir() string {
	if c.S.Dir == "/repo" {
		return ""
	}
	return c.S.Dir
}

// report runs the analysis of a case and parses the JSON report.
func (r *Run) report(c *Case, more ...string) (*Report, []string) {
	args := c.Args(r, append([]string{"-output=json"}, more...)...)
	res := r.capslock(c.S.Dir, args...)
	if res.Code != 0 && c.S.Prog != nil && !c.S.builds() {
		r.Count("invalid generated programs skipped", 1)
		return nil, args
	}
	if res.Code != 0 {
		r.Violate("exit/"+c.describe(), fmt.Sprintf("capslock %v in %s exited %d: %s", args, c.S.Dir, res.Code, clip(res.Err, 2000)), c.replay(r, args, nil), c.replayDir())
		return nil, args
	}
	rep, err := parseReport(res.Out)
	if err != nil {
		r.Violate("json/"+c.describe(), fmt.Sprintf("capslock %v in %s: bad JSON: %v", args, c.S.Dir, err), c.replay(r, args, map[string]string{"out.json": res.Out}), c.replayDir())
		return nil, args
	}
	return rep, args
}

// plainInstance reports whether a function name has no type arguments that
// could be spelled in more than one way.
func plainInstance(name string) bool {
	i := strings.IndexByte(name, '[')
	return i < 0 || regexp.MustCompile(`^\[(int|string|bool)\]`).MatchString(name[i:])
}

// randomUserMap makes a map of entries for functions of the subject that
// matter: functions on paths to capabilities of the base analysis.
func randomUserMap(rnd *rand.Rand, rp *RefProg, base *CapMap, noBuiltin bool, n int) *CapMap {
	m := newCapMap()
	rr := rp.analyze(base, noBuiltin)
	var cand []*callgraph.Node
	seen := map[*callgraph.Node]bool{}
	var edges [][2]string
	pkgs := map[string]bool{}
	var capsList []string
	for c := range rr.Reach {
		capsList = append(capsList, c)
	}
	sort.Strings(capsList)
	for _, c := range capsList {
		nodes := rr.onPath(rr.Reach[c], func(e *callgraph.Edge) {
			edges = append(edges, [2]string{e.Caller.Func.String(), e.Callee.Func.String()})
		})
		for v := range nodes {
			if !seen[v] && declPackage(v.Func) != nil {
				seen[v] = true
				cand = append(cand, v)
				pkgs[declPackage(v.Func).Path()] = true
			}
		}
	}
	if len(cand) == 0 {
		return m
	}
	name := func(v *callgraph.Node) string {
		if fnPackage(v.Func) == nil && v.Func.Origin() != nil {
			return v.Func.Origin().String()
		}
		return v.Func.String()
	}
	ok := func(s string) bool { return !strings.ContainsAny(s, " \t\n#\"") && s != "" }
	sort.Slice(cand, func(i, j int) bool { return cand[i].Func.String() < cand[j].Func.String() })
	sort.Slice(edges, func(i, j int) bool {
		if edges[i][0] != edges[j][0] {
			return edges[i][0] < edges[j][0]
		}
		return edges[i][1] < edges[j][1]
	})
	pl := sortedKeys(pkgs)
	choices := append([]string{"SAFE", "SAFE", "SAFE", "UNSPECIFIED", "UNSPECIFIED"}, reportCaps...)
	for i := 0; i < n; i++ {
		switch k := rnd.Intn(12); {
		case k < 6:
			if s := name(cand[rnd.Intn(len(cand))]); ok(s) {
				m.Func[s] = choices[rnd.Intn(len(choices))]
			}
		case k < 8:
			if s := name(cand[rnd.Intn(len(cand))]); ok(s) {
				m.Unanalyzed[s] = true
			}
		case k < 11 && len(edges) > 0:
			e := edges[rnd.Intn(len(edges))]
			if ok(e[0]) && ok(e[1]) && plainInstance(e[0]) && plainInstance(e[1]) {
				m.Ignore[e] = true
			}
		default:
			if s := pl[rnd.Intn(len(pl))]; ok(s) && s != "runtime" {
				m.Package[s] = choices[rnd.Intn(len(choices))]
			}
		}
	}
	if rnd.Intn(4) == 0 {
		s := name(cand[rnd.Intn(len(cand))])
		if i := strings.LastIndexByte(s, '.'); i > 0 && ok(s[i:]) && len(s[i:]) > 3 {
			m.Cgo = append(m.Cgo, s[i:])
		}
	}
	return m
}

func copyDir(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0o644)
	})
}
