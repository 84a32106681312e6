package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() { checks["C01"] = checkC01 }

// A funcSpan is the source range of a function, method or function literal.
type funcSpan struct {
	from, to int // lines
	depth    int // number of enclosing functions
	name     string
	pkg      string
}

// A funcMap finds functions by source position.
type funcMap map[string][]funcSpan // by file name

// literals and range-over-func bodies in runtime names.
var litName = regexp.MustCompile(`^(func)?[0-9]+$`)

// runtimeDepth returns how many function literals enclose the code of the
// runtime function name; ok is false for functions that have no counterpart
// in a report.
func runtimeDepth(name string) (depth int, ok bool) {
	if strings.Contains(name, "[") || strings.Contains(name, "-range") || strings.Contains(name, "-fm") {
		return 0, false
	}
	if i := strings.LastIndex(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	parts := strings.Split(name, ".")
	lit := false
	for _, p := range parts[1:] {
		if strings.HasPrefix(p, "gowrap") || strings.HasPrefix(p, "deferwrap") {
			continue
		}
		if strings.HasPrefix(p, "func") && litName.MatchString(p) || lit && litName.MatchString(p) {
			depth++
			lit = true
		}
	}
	return depth, true
}

// find returns the function that a frame belongs to.
func (m funcMap) find(fn, file string, line int) (funcSpan, bool) {
	depth, ok := runtimeDepth(fn)
	if !ok {
		return funcSpan{}, false
	}
	var found []funcSpan
	for _, s := range m[file] {
		if s.depth == depth && s.from <= line && line <= s.to {
			found = append(found, s)
		}
	}
	// Rewriting can make several functions of one literal.
	if len(found) == 0 || len(found) > 1 && found[1].to-found[1].from == found[0].to-found[0].from {
		return funcSpan{}, false
	}
	return found[0], true
}

// loadFuncs returns the functions of the packages of a module.
func loadFuncs(dir, mod string) (funcMap, error) {
	rp, err := refLoad(RefOpt{Dir: dir, Patterns: []string{"./..."}})
	if err != nil {
		return nil, err
	}
	// A report numbers function literals after the rewriting.
	rw := newRefRewriter()
	packages.Visit(rp.Pkgs, nil, rw.pkg)
	prog, _ := ssautil.AllPackages(rp.Pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	m := funcMap{}
	add := func(name, pkg string, depth int, n ast.Node) {
		a, b := prog.Fset.Position(n.Pos()), prog.Fset.Position(n.End())
		m[a.Filename] = append(m[a.Filename], funcSpan{a.Line, b.Line, depth, name, pkg})
	}
	var addFunc func(f *ssa.Function, depth int)
	addFunc = func(f *ssa.Function, depth int) {
		if f.TypeParams().Len() > 0 || len(f.TypeArgs()) > 0 {
			return
		}
		if syn := f.Syntax(); syn != nil {
			add(f.String(), f.Pkg.Pkg.Path(), depth, syn)
		}
		for _, g := range f.AnonFuncs {
			addFunc(g, depth+1)
		}
	}
	packages.Visit(rp.Pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, mod) {
			return
		}
		sp := prog.Package(p.Types)
		sp.Build()
		for _, g := range sp.Func("init").AnonFuncs {
			addFunc(g, 1)
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if o, ok := p.TypesInfo.Defs[d.Name].(*types.Func); ok {
						if fn := prog.FuncValue(o); fn != nil {
							addFunc(fn, 0)
						}
					}
				case *ast.GenDecl:
					// Package-level initialisers run in the package's init function.
					add(p.PkgPath+".init", p.PkgPath, 0, d)
				}
			}
		}
	})
	for _, s := range m {
		// Smallest first.
		sort.Slice(s, func(i, j int) bool { return s[i].to-s[i].from < s[j].to-s[j].from })
	}
	return m, nil
}

// A stackEvent is one recorded execution of a sink.
type stackEvent struct {
	sink   string
	frames []string // function|file:line, innermost first
}

func readEvents(file string) ([]stackEvent, int, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, 0, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	var out []stackEvent
	roots := 0
	for sc.Scan() {
		if strings.HasPrefix(sc.Text(), "roots ") {
			fmt.Sscanf(sc.Text(), "roots %d", &roots)
			continue
		}
		s, err := strconv.Unquote(sc.Text())
		if err != nil {
			return nil, 0, err
		}
		p := strings.Split(s, "\x00")
		out = append(out, stackEvent{p[0], p[1:]})
	}
	return out, roots, sc.Err()
}

// obligations returns the (function, capability) pairs that must be reported
// because of an event, with the frame that shows each.
func obligations(e stackEvent, fm funcMap, m *CapMap, inQuery func(pkg string) bool, want map[string]int) (mapped int) {
	active := map[string]bool{}
	started := false
	prev := ""
	for i, fr := range e.frames {
		fn, pos, _ := strings.Cut(fr, "|")
		k := strings.LastIndex(pos, ":")
		if k < 0 {
			prev = ""
			continue
		}
		line, _ := strconv.Atoi(pos[k+1:])
		s, ok := fm.find(fn, pos[:k], line)
		if !ok {
			prev = ""
			continue
		}
		if !started {
			if s.name != e.sink {
				continue
			}
			started = true
		}
		mapped++
		if m.Ignore[[2]string{s.name, prev}] {
			active = map[string]bool{}
		}
		prev = s.name
		if c := m.category(s.pkg, s.name); c != "" {
			active = map[string]bool{}
			if c != "SAFE" {
				active[c] = true
			}
		}
		if !inQuery(s.pkg) {
			continue
		}
		for c := range active {
			if _, ok := want[s.name+" "+c]; !ok {
				want[s.name+" "+c] = i
			}
		}
	}
	return mapped
}

func (r *Run) executedPrograms() {
	r.parallel(r.pick(16, 150), 8, func(i int) {
		rnd := r.rng(fmt.Sprint("exec", i))
		p := randomProg(rnd, 2+rnd.Intn(4), 12+rnd.Intn(25), 60+rnd.Intn(80), 3+rnd.Intn(5), rnd.Intn(5))
		dir := r.tmp(fmt.Sprintf("exec%d", i))
		r.writeFiles(dir, p.Files())
		bin := filepath.Join(r.tmp("bin"), "prog")
		if b := runCmd(CmdOpt{Dir: dir}, "go", "build", "-gcflags=ex.com/gen/...=-l", "-o", bin, "./cmd"); b.Code != 0 {
			r.inconclusive("generated program does not build: %s", clip(b.Err, 2000))
		}
		out := filepath.Join(r.tmp("out"), "events")
		if x := runCmd(CmdOpt{Dir: dir, Timeout: 60 * time.Second, Env: []string{"RT_OUT=" + out, "GODEBUG=tracebackancestors=50"}}, bin); x.Code != 0 {
			r.Count("programs that crashed", 1)
			r.Sample(map[string]any{"crash": clip(x.Err, 500)})
			return
		} else {
			r.Count("functions ended by a panic", strings.Count(x.Err, "panic in"))
		}
		events, roots, err := readEvents(out)
		r.must(err)
		fm, err := loadFuncs(dir, p.Mod)
		r.must(err)
		r.Count("programs executed", 1)
		r.Count("functions started", roots)
		r.Count("distinct stacks at categorised functions", len(events))
		// Query some of the packages, if they import all the others.
		var pats []string
		some := map[string]bool{}
		for _, g := range p.Pkgs {
			if rnd.Intn(3) != 0 {
				pats = append(pats, "./"+g.Name)
				some[g.Path] = true
			}
		}
		if len(p.loaded(some)) < len(p.Pkgs) {
			pats = nil
		}
		for k := 0; k < 3; k++ {
			s := &Subject{Name: fmt.Sprintf("exec%d", i), Dir: dir, Patterns: []string{"./..."}, Prog: p}
			inQuery := func(pkg string) bool { return true }
			if k == 1 && len(pats) > 0 {
				s.Patterns = pats
				inQuery = func(pkg string) bool { return some[pkg] }
				r.Count("reports on some of the packages", 1)
			}
			c := &Case{S: s, Name: fmt.Sprint("exec", k), NoBlt: k < 2}
			if k == 1 {
				c.User = modelMap(rnd, p)
			} else {
				c.User = sinkMap(rnd, p)
			}
			m := c.Map(r)
			rep, args := r.report(c)
			if rep == nil {
				continue
			}
			got := rep.pairs()
			want := map[string]int{}
			ev := map[string]stackEvent{}
			for _, e := range events {
				w := map[string]int{}
				r.Count("frames attributed", obligations(e, fm, m, inQuery, w))
				for x, j := range w {
					if _, ok := want[x]; !ok {
						want[x] = j
						ev[x] = e
					}
				}
			}
			for _, x := range sortedKeys(want) {
				if got[x] == 0 {
					fn, cap, _ := strings.Cut(x, " ")
					r.Violate("executed/"+c.Name, fmt.Sprintf("%s was seen to execute %s but is not reported with %s\nstack, innermost first:\n%s", fn, ev[x].sink, cap, strings.Join(head(ev[x].frames, want[x]+1), "\n")), c.replay(r, args, nil), c.replayDir())
				}
				if strings.Contains(x, "$") {
					r.Count("obligations of function literals", 1)
				}
			}
			r.Count("obligations", len(want))
			key := ""
			if len(want) > 0 {
				key = fmt.Sprintf("exec%d/%d", i, k)
			}
			r.Eval(key)
			if i == 0 && len(events) > 0 {
				e := events[len(events)/2]
				r.Sample(map[string]any{"program": s.Name, "sink": e.sink, "stack": head(e.frames, 8), "obligations": len(want)})
			}
		}
		for n, k := range p.Used {
			r.Count("construct "+n, k)
		}
	})
}

func checkC01(r *Run) {
	r.rule = "one evaluation = one report compared with the obligations from all stacks recorded in an executed program, or one standard-library callback form; non-trivial = distinct program and configuration with at least one obligation"
	r.executedPrograms()
	r.stdCallbacks()
	r.Require("programs executed", r.pick(5, 75))
	r.Require("obligations", 300)
	r.Require("callback forms executed", 60)
}
