package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"

	"vmon/rule"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
)

func init() { checks["C23"] = checkC23 }

func checkC23(r *Run) {
	r.rule = "one evaluation = one library analysis with a classifier, queried packages and callbacks of the monitor, compared with the reference analysis; non-trivial = the expected result is non-empty, distinguished by subject, classifier, query and kind of analysis"
	r.assume = []string{"the call graph and call positions built by x/tools are trusted"}
	subjects := r.pathSubjects(r.pick(16, 90))
	subjects = append(subjects, r.siteSubjects()...)
	r.parallel(len(subjects), 6, func(i int) {
		s := subjects[i]
		rnd := r.rng("custom/" + s.Name)
		n := 3
		if s.Prog == nil {
			n = r.pick(2, 6)
		}
		if s.Dir == "/repo" || strings.HasPrefix(s.Dir, r.Scratch) && strings.Contains(s.Dir, "stdmod") {
			n = r.pick(1, 3)
		}
		if s.Prog == nil && s.Base == nil && strings.HasPrefix(s.Name, "sites") {
			n = r.pick(6, 20)
		}
		for k := 0; k < n; k++ {
			r.customClassifier(s, rnd, k)
		}
		s.ref = nil
	})
	r.Require("categories asked", 2000)
	r.Require("calls excluded", 200)
	r.Require("pairs compared", 200)
	r.Require("graph items compared", 500)
	r.Require("queries of part of the packages", 10)
	r.Require("queries including dependencies", 10)
}

// siteSubjects call the same functions from several places in one function.
func (r *Run) siteSubjects() []*Subject {
	var out []*Subject
	for k := 0; k < r.pick(3, 8); k++ {
		rnd := r.rng(fmt.Sprint("sites", k))
		files := map[string]string{}
		names := []string{"a", "b", "c", "d"}
		const nf = 8
		for i, p := range names {
			var b strings.Builder
			fmt.Fprintf(&b, "package %s\n\n", p)
			if i+1 < len(names) {
				fmt.Fprintf(&b, "import next \"ex.com/m/%s\"\n\n", names[i+1])
			}
			fmt.Fprintf(&b, "type I interface{ M() }\n\ntype T struct{}\n\nfunc (T) M() { F0() }\n\ntype U struct{ n int }\n\nfunc (*U) M() { F%d() }\n\nvar Fns = []func(){F0, F%d}\n\n", nf-1, nf/2)
			for f := 0; f < nf; f++ {
				fmt.Fprintf(&b, "func F%d() {\n", f)
				for c := 1 + rnd.Intn(7); c > 0; c-- {
					t := fmt.Sprintf("F%d()", rnd.Intn(nf))
					switch q := rnd.Intn(10); {
					case i+1 < len(names) && q < 5:
						t = "next." + t
					case q == 5:
						t = "T{}.M()"
					case q == 6:
						t = "(&U{}).M()"
					case q == 7:
						t = "I(T{}).M()"
					case q == 8 && i+1 < len(names):
						t = "for _, f := range next.Fns {\n\t\tf()\n\t}"
					}
					for d := 1 + rnd.Intn(3); d > 0; d-- {
						fmt.Fprintf(&b, "\t%s\n", t)
					}
				}
				b.WriteString("}\n\n")
			}
			files[p+"/"+p+".go"] = b.String()
		}
		out = append(out, r.srcSubject(fmt.Sprintf("sites%d", k), files, "./a", "./b", "./c"))
	}
	return out
}

func (r *Run) customClassifier(s *Subject, rnd *rand.Rand, k int) {
	rp := s.Ref(r)
	byPath := map[string]*types.Package{}
	var roots, deps []string
	isRoot := map[string]bool{}
	for _, p := range rp.Pkgs {
		roots = append(roots, p.PkgPath)
		isRoot[p.PkgPath] = true
	}
	packages.Visit(rp.Pkgs, nil, func(p *packages.Package) {
		byPath[p.PkgPath] = p.Types
		if !isRoot[p.PkgPath] && p.PkgPath != "unsafe" {
			deps = append(deps, p.PkgPath)
		}
	})
	sort.Strings(deps)
	small := len(deps) < 20
	ru := &rule.Rule{Seed: rnd.Int63(), Rate: 150, Safe: 30, Excl: []int{0, 10, 25, 50}[rnd.Intn(4)], Own: "ex.com/"}
	if strings.HasPrefix(s.Name, "sites") {
		ru.Rate, ru.Excl = 80, []int{0, 30, 60, 75}[rnd.Intn(4)]
	}
	if !small {
		ru.Rate, ru.Excl = 20, []int{0, 5, 20}[rnd.Intn(3)]
	}
	caps := append([]string{}, reportCaps...)
	rnd.Shuffle(len(caps), func(i, j int) { caps[i], caps[j] = caps[j], caps[i] })
	ru.Caps = caps[:1+rnd.Intn(5)]
	// Queried packages.
	var query []string
	switch k % 3 {
	case 0:
		query = roots
	case 1:
		for _, p := range roots {
			if rnd.Intn(2) == 0 {
				query = append(query, p)
			}
		}
		if len(query) == 0 && rnd.Intn(3) != 0 {
			query = roots[:1]
		}
		if len(query) < len(roots) {
			r.Count("queries of part of the packages", 1)
		}
	default:
		for _, p := range roots {
			if rnd.Intn(3) == 0 {
				query = append(query, p)
			}
		}
		for n := 1 + rnd.Intn(3); n > 0 && len(deps) > 0; n-- {
			query = append(query, deps[rnd.Intn(len(deps))])
		}
		if len(query) > 0 && !isRoot[query[len(query)-1]] {
			r.Count("queries including dependencies", 1)
		}
	}
	queried := map[*types.Package]bool{}
	for _, p := range query {
		queried[byPath[p]] = true
	}
	disable := rnd.Intn(2) == 0
	rr := rp.analyzeWith(func(pkg, name string) string {
		if c := ru.Category(pkg, name); c != "UNSPECIFIED" {
			return c
		}
		return ""
	}, func(e *callgraph.Edge) bool { return !ru.Include(e) }, queried, disable)
	expr := randomCaps(rnd, ru.Caps)
	has := (&Case{Caps: expr}).capHas

	base := LibOp{Op: "custom", Load: "p", Rule: ru, Query: query, Disable: disable}
	with := func(f func(o *LibOp)) LibOp { o := base; f(&o); return o }
	ops := []LibOp{
		{Op: "load", ID: "p", Dir: s.Dir, Patterns: s.Patterns},
		with(func(o *LibOp) { o.Output, o.Gran = "info", []string{"", "function"}[rnd.Intn(2)] }),
		with(func(o *LibOp) { o.Output, o.Gran = "info", "package" }),
		with(func(o *LibOp) { o.Output, o.Gran, o.Caps = "info", "intermediate", &expr }),
		with(func(o *LibOp) { o.Output, o.Omit = "counts", rnd.Intn(2) == 0 }),
		with(func(o *LibOp) { o.Output = "stats" }),
		with(func(o *LibOp) { o.Output = "machine" }),
		with(func(o *LibOp) { o.Output, o.Repeat = "graph", 7 }),
		with(func(o *LibOp) { o.Output, o.Repeat, o.Caps = "graph", 7, &expr }),
		with(func(o *LibOp) { o.Output, o.Repeat = "graph", 1+rnd.Intn(6) }),
		with(func(o *LibOp) { o.Output, o.Repeat, o.Caps = "graph", 1+rnd.Intn(6), &expr }),
	}
	name := fmt.Sprintf("%s/%d", s.Name, k)
	replayDir := s.Dir
	if s.Dir == "/repo" {
		replayDir = ""
	}
	viol := func(i int, format string, a ...any) {
		r.Violate(fmt.Sprintf("custom/%s/%d", name, i), fmt.Sprintf("library analysis %s of %s (granularity %q, queried %v, capabilities %v): %s", ops[i].Output, s.Name, ops[i].Gran, head(query, 6), ops[i].Caps, fmt.Sprintf(format, a...)), map[string]string{"ops.json": opsJSON(ops)}, replayDir)
	}
	res, pr := r.lib(os.Getenv("VMON_LIB"), ops)
	if res == nil {
		r.Violate("crash/"+name, fmt.Sprintf("library analysis of %s with a classifier of the caller's: driver exited %d: %s", s.Name, pr.Code, clip(pr.Err, 2000)), map[string]string{"ops.json": opsJSON(ops)}, replayDir)
		return
	}
	if res[0].Err != "" && s.Prog != nil && !s.builds() {
		r.Count("invalid generated programs skipped", 1)
		return
	}
	for i, x := range res {
		if x.Err != "" || x.Panic != "" {
			viol(i, "error %q panic %q", x.Err, clip(x.Panic, 1500))
			return
		}
	}
	for i := 1; i < len(res); i++ {
		if len(res[i].Sub) == 1 && len(res[i].Sub[0]) == 3 {
			for j, what := range []string{"categories asked", "calls asked", "calls excluded"} {
				n, _ := strconv.Atoi(res[i].Sub[0][j].Out)
				r.Count(what, n)
			}
		}
		for _, l := range res[i].List {
			if strings.HasPrefix(l, "changed\t") || strings.HasPrefix(l, "excluded\t") {
				viol(i, "%s", l)
			}
		}
	}
	eval := func(i, n int) {
		key := ""
		if n > 0 {
			key = fmt.Sprintf("%s op %d", name, i)
		}
		r.Eval(key)
	}
	// Reports.
	fnPairs := rr.FuncPairs()
	for i, gran := range map[int]string{1: "function", 2: "package", 3: "intermediate"} {
		rep, err := parseReport(res[i].Out)
		if err != nil {
			viol(i, "bad report: %v", err)
			continue
		}
		for _, e := range rep.CapabilityInfo {
			if bad := checkPath(rr, e, gran); bad != "" {
				viol(i, "entry for %s %s: %s\npath: %s", e.PackageDir, e.Capability, bad, pathText(e.Path))
			}
		}
		switch gran {
		case "function":
			got := map[string]int{}
			for k, n := range rep.pairs() {
				f, c, _ := strings.Cut(k, " ")
				if j := strings.LastIndexByte(k, ' '); j >= 0 {
					f, c = k[:j], k[j+1:]
				}
				got[rp.canon(f)+" "+c] += n
			}
			if d := diffCounts(got, fnPairs); d != "" {
				viol(i, "%s", d)
			}
			r.Count("pairs compared", len(fnPairs))
			eval(i, len(fnPairs))
		case "package":
			want := rr.PkgPairs()
			if d := diffCounts(rep.pkgPairs(), want); d != "" {
				viol(i, "%s", d)
			}
			eval(i, len(want))
		case "intermediate":
			must, may := rr.IntermediatePairs(has)
			got := map[string]bool{}
			for k, n := range rep.pkgPairs() {
				got[k] = true
				if n != 1 {
					viol(i, "%s listed %d times", k, n)
				}
			}
			m, x := diffSets(got, must)
			var bad []string
			for _, e := range x {
				if !may[e] {
					bad = append(bad, e)
				}
			}
			if len(m)+len(bad) > 0 {
				viol(i, "missing %v, unexpected %v", head(m, 10), head(bad, 10))
			}
			eval(i, len(must))
		}
	}
	// Counts, statistics and the list of capabilities.
	counts := map[string]int{}
	for k, n := range fnPairs {
		counts[k[strings.LastIndexByte(k, ' ')+1:]] += n
	}
	var cl struct{ CapabilityCounts map[string]string }
	if err := json.Unmarshal([]byte(res[4].Out), &cl); err != nil {
		viol(4, "bad counts: %v", err)
	}
	got := map[string]int{}
	for k, v := range cl.CapabilityCounts {
		got[strings.TrimPrefix(k, "CAPABILITY_")], _ = strconv.Atoi(v)
	}
	if d := diffCounts(got, counts); d != "" {
		viol(4, "%s", d)
	}
	eval(4, len(counts))
	var sl struct {
		CapabilityStats []struct {
			Capability                          string
			Count, DirectCount, TransitiveCount string
			ExampleCallpath                     []PathFn
		}
	}
	if err := json.Unmarshal([]byte(res[5].Out), &sl); err != nil {
		viol(5, "bad statistics: %v", err)
	}
	got = map[string]int{}
	for _, st := range sl.CapabilityStats {
		n, _ := strconv.Atoi(st.Count)
		d, _ := strconv.Atoi(st.DirectCount)
		t, _ := strconv.Atoi(st.TransitiveCount)
		got[strings.TrimPrefix(st.Capability, "CAPABILITY_")] += n
		if d+t != n {
			viol(5, "%s: %d direct and %d transitive of %d", st.Capability, d, t, n)
		}
		if len(st.ExampleCallpath) == 0 {
			viol(5, "%s: no example path", st.Capability)
			continue
		}
		e := &CapInfo{Capability: st.Capability, Path: st.ExampleCallpath, PackageDir: st.ExampleCallpath[0].Package}
		if bad := checkPath(rr, e, "intermediate"); bad != "" {
			viol(5, "example path for %s: %s\npath: %s", st.Capability, bad, pathText(e.Path))
		}
	}
	if d := diffCounts(got, counts); d != "" {
		viol(5, "%s", d)
	}
	eval(5, len(counts))
	var list []string
	for c := range counts {
		list = append(list, "CAPABILITY_"+c)
	}
	sort.Strings(list)
	if g := strings.Fields(res[6].Out); strings.Join(g, " ") != strings.Join(list, " ") {
		viol(6, "capabilities %v instead of %v", g, list)
	}
	eval(6, len(list))
	// Graphs.
	for i := 7; i < len(ops); i++ {
		want := map[string]int{}
		graphs := map[string]map[*callgraph.Node]bool{}
		if ops[i].Caps == nil {
			all := map[*callgraph.Node]bool{}
			for _, vis := range rr.Reach {
				for n := range vis {
					all[n] = true
				}
			}
			graphs["-"] = all
		} else {
			for c, vis := range rr.Reach {
				if has(c) {
					graphs["CAPABILITY_"+c] = vis
				}
			}
		}
		filtered := map[string]bool{}
		for g, reach := range graphs {
			seen := map[[2]*callgraph.Node]bool{}
			nodes := rr.onPath(reach, func(e *callgraph.Edge) {
				if p := [2]*callgraph.Node{e.Caller, e.Callee}; !seen[p] && ops[i].Repeat&2 != 0 {
					seen[p] = true
					want["call\t"+g+"\t"+rp.name(e.Caller.Func)+"\t"+rp.name(e.Callee.Func)]++
				}
			})
			for n := range nodes {
				if ops[i].Repeat&1 != 0 {
					want["node\t"+g+"\t"+rp.name(n.Func)]++
				}
				for c, ns := range rr.byCap {
					if ns[n] && (g == "-" || g == "CAPABILITY_"+c) && ops[i].Repeat&4 != 0 {
						want["capability\t"+g+"\t"+rp.name(n.Func)+"\tCAPABILITY_"+c]++
					}
				}
			}
			if len(nodes) > 0 {
				filtered[g] = true
			}
		}
		got := map[string]int{}
		asked := map[string]int{}
		for _, l := range res[i].List {
			f := strings.Split(l, "\t")
			if f[0] == "filter" {
				asked[f[1]]++
				continue
			}
			for j := 2; j < len(f); j++ {
				f[j] = rp.canon(f[j])
			}
			got[strings.Join(f, "\t")]++
		}
		if d := diffCounts(got, want); d != "" {
			viol(i, "callbacks %d: %s", ops[i].Repeat, d)
		}
		for c, n := range asked {
			if n > 1 {
				viol(i, "the filter was called %d times for %s", n, c)
			}
		}
		if ops[i].Caps != nil {
			for c := range filtered {
				if asked[c] == 0 {
					viol(i, "the filter was not called for %s", c)
				}
			}
		}
		r.Count("graph items compared", len(want))
		eval(i, len(want))
	}
	r.Sample(map[string]any{"subject": s.Name, "queried": head(query, 4), "rule": ru, "pairs": len(fnPairs), "capabilities": list, "disable builtin": disable})
}

// diffCounts compares multisets.
func diffCounts(got, want map[string]int) string {
	var m, x []string
	for k, n := range want {
		if got[k] < n {
			m = append(m, fmt.Sprintf("%s (%d of %d)", k, got[k], n))
		}
	}
	for k, n := range got {
		if n > want[k] {
			x = append(x, fmt.Sprintf("%s (%d of %d)", k, n, want[k]))
		}
	}
	if len(m)+len(x) == 0 {
		return ""
	}
	sort.Strings(m)
	sort.Strings(x)
	return fmt.Sprintf("missing %q, unexpected %q", head(m, 8), head(x, 8))
}
