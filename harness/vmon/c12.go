package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

func init() { checks["C12"] = checkC12 }

func checkC12(r *Run) {
	r.rule = "one evaluation = one library operation executed concurrently with others under the race detector and compared with the same operation run alone, or one classifier fingerprint compared with its model; non-trivial = distinct operation of a scenario with a non-empty result"
	r.assume = []string{"only schedules that occurred are covered; the race detector reports unordered accesses of these executions even when they did no harm"}
	for k := 0; k < r.pick(3, 16); k++ {
		r.concurrent(k)
	}
	r.realConcurrent()
	r.classifierHistories()
	r.Require("concurrent operations", 50)
	r.Require("classifier fingerprints compared", 100)
}

// groups builds independent operation sequences.
func (r *Run) raceGroups(k, n int) (setup []LibOp, groups [][]LibOp) {
	rnd := r.rng(fmt.Sprint("groups", k))
	s := r.genSubject(fmt.Sprintf("race%d", k), rnd, 4, 14, 50, 5, 2)
	names := r.mapNames()
	m0 := sinkMap(rnd, s.Prog)
	setup = []LibOp{
		{Op: "classifier", ID: "shared", Source: "s.cm", Text: m0.String()},
		{Op: "classifier", ID: "sharedx", Source: "excluding", Class: "shared"},
		{Op: "classifier", ID: "def", Source: "default"},
	}
	grans := []string{"", "function", "package", "intermediate"}
	for g := 0; g < n; g++ {
		l := fmt.Sprint("l", g)
		pats := s.Patterns
		if rnd.Intn(2) == 0 {
			pats = []string{s.Patterns[rnd.Intn(len(s.Patterns))]}
		}
		setup = append(setup, LibOp{Op: "load", ID: l, Dir: s.Dir, Patterns: pats})
		var ops []LibOp
		own := fmt.Sprint("own", g)
		for i := 0; i < 7; i++ {
			switch rnd.Intn(8) {
			case 0:
				m := sinkMap(rnd, s.Prog)
				ops = append(ops, LibOp{Op: "classifier", ID: own, Source: "o.cm", Text: m.String(), Exclude: rnd.Intn(2) == 0},
					LibOp{Op: "info", Load: l, Class: own, Gran: grans[rnd.Intn(4)], Disable: rnd.Intn(2) == 0})
			case 1:
				ops = append(ops, LibOp{Op: "category", Class: []string{"shared", "sharedx", "def"}[rnd.Intn(3)], Names: names, Repeat: 20})
			case 2:
				ops = append(ops, LibOp{Op: "classifier", ID: own, Source: "excluding", Class: []string{"shared", "def"}[rnd.Intn(2)]}, LibOp{Op: "category", Class: own, Names: names})
			case 3:
				ops = append(ops, LibOp{Op: "counts", Load: l, Class: "shared"}, LibOp{Op: "classifier", ID: own, Source: "noisy"})
			case 4:
				ops = append(ops, LibOp{Op: "stats", Load: l, Class: "sharedx", Omit: rnd.Intn(2) == 0})
			case 5:
				c := randomCaps(rnd, []string{"FILES", "EXEC", "NETWORK"})
				ops = append(ops, LibOp{Op: "graph", Load: l, Class: "shared", Caps: &c})
			case 6:
				ops = append(ops, LibOp{Op: "info", Load: l, Class: []string{"shared", "def"}[rnd.Intn(2)], Gran: grans[rnd.Intn(4)]})
			case 7:
				ops = append(ops, LibOp{Op: "capset", Exprs: []string{"FILES", "-FILES,-EXEC", "x", ""}}, LibOp{Op: "load", ID: l, Patterns: pats})
			}
		}
		ops = append(ops, LibOp{Op: "info", Load: l, Class: "shared"})
		groups = append(groups, ops)
	}
	return setup, groups
}

func raceReport(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		return clip(s[i:], 3000)
	}
	for _, m := range []string{"fatal error: concurrent map", "checkptr:", "fatal error:", "unexpected fault address"} {
		if i := strings.Index(s, m); i >= 0 {
			return clip(s[i:], 3000)
		}
	}
	return ""
}

func (r *Run) runRace(name string, setup []LibOp, groups [][]LibOp, replayDir string) []LibRes {
	ops := append(append([]LibOp{}, setup...), LibOp{Op: "parallel", Groups: groups})
	files := map[string]string{"ops.json": opsJSON(ops)}
	res, pr := r.lib(r.LibRace, ops, "GORACE=halt_on_error=0 exitcode=66")
	if rep := raceReport(pr.Err); rep != "" || pr.Code == 66 {
		files["stderr.txt"] = pr.Err
		r.Violate("race/"+name, "race detector report during independent analyses:\n"+rep, files, replayDir)
	}
	if res == nil {
		r.Violate("crash/"+name, fmt.Sprintf("concurrent analyses ended with exit %d: %s", pr.Code, clip(pr.Err, 2000)), files, replayDir)
	}
	return res
}

func (r *Run) concurrent(k int) {
	setup, groups := r.raceGroups(k, 8)
	dir := setup[3].Dir
	res := r.runRace(fmt.Sprint("gen", k), setup, groups, dir)
	if res == nil {
		return
	}
	for i := range setup {
		if res[i].Err != "" || res[i].Panic != "" {
			r.inconclusive("setup operation failed: %s %s", res[i].Err, clip(res[i].Panic, 300))
		}
	}
	sub := res[len(setup)].Sub
	// Each group alone, in its own process.
	r.parallel(len(groups), 8, func(g int) {
		var ops []LibOp
		for _, o := range setup {
			if o.Op != "load" || o.ID == fmt.Sprint("l", g) {
				ops = append(ops, o)
			}
		}
		n := len(ops)
		ops = append(ops, groups[g]...)
		alone, pr := r.lib(r.Lib, ops)
		if alone == nil {
			r.inconclusive("isolated run failed: %s", clip(pr.Err, 500))
		}
		for i, o := range groups[g] {
			a, _ := json.Marshal(sub[g][i])
			b, _ := json.Marshal(alone[n+i])
			if string(a) != string(b) {
				r.Violate(fmt.Sprintf("result/gen%d/%s", k, o.Op), fmt.Sprintf("operation %s of group %d gives another result when run concurrently:\n%s\nalone:\n%s", o.Op, g, clip(string(a), 600), clip(string(b), 600)),
					map[string]string{"ops.json": opsJSON(append(append([]LibOp{}, setup...), LibOp{Op: "parallel", Groups: groups})), "op.json": opsJSON([]LibOp{o})}, dir)
			}
			r.Count("concurrent operations", 1)
			key := ""
			if len(a) > 30 {
				key = fmt.Sprintf("gen%d %d %d", k, g, i)
			}
			r.Eval(key)
		}
	})
	r.Sample(map[string]any{"scenario": k, "groups": len(groups), "operations of first group": opNames(groups[0])})
}

func opNames(ops []LibOp) (s []string) {
	for _, o := range ops {
		s = append(s, o.Op)
	}
	return
}

// realConcurrent runs the whole pipeline, including loading and the built-in
// classifier, on packages that use the standard library.
func (r *Run) realConcurrent() {
	s := r.shapeSubjects()[0]
	var groups [][]LibOp
	mk := func(i int) []LibOp {
		l := fmt.Sprint("r", i)
		ops := []LibOp{{Op: "load", ID: l, Patterns: s.Patterns}}
		for _, o := range []string{"info", "stats", "counts", "graph"}[i%4:] {
			ops = append(ops, LibOp{Op: o, Load: l})
		}
		return ops
	}
	n := r.pick(3, 6)
	for i := 0; i < n; i++ {
		groups = append(groups, mk(i))
	}
	setup := []LibOp{{Op: "load", ID: "x", Dir: s.Dir, Patterns: []string{"./a"}}}
	res := r.runRace("real", setup, groups, s.Dir)
	if res == nil {
		return
	}
	for g := range groups {
		alone, pr := r.lib(r.Lib, append(append([]LibOp{}, setup...), groups[g]...))
		if alone == nil {
			r.inconclusive("isolated run failed: %s", clip(pr.Err, 500))
		}
		for i, o := range groups[g] {
			a, _ := json.Marshal(res[1].Sub[g][i])
			b, _ := json.Marshal(alone[1+i])
			if string(a) != string(b) {
				r.Violate("result/real/"+o.Op, fmt.Sprintf("operation %s gives another result when run concurrently", o.Op), map[string]string{"a.json": string(a), "b.json": string(b)}, s.Dir)
			}
			r.Count("concurrent operations", 1)
			r.Eval(fmt.Sprintf("real %d %d", g, i))
		}
	}
}

// classifierHistories interleaves loading of maps, derivation and analyses and
// checks after each step that every classifier answers as its model says.
func (r *Run) classifierHistories() {
	names := r.mapNames()
	builtin := r.builtinMap()
	for k := 0; k < r.pick(8, 40); k++ {
		rnd := r.rng(fmt.Sprint("hist", k))
		s := r.genSubject(fmt.Sprintf("hist%d", k), rnd, 2, 8, 20, 3, 1)
		sinks := sinkMap(rnd, s.Prog)
		type cls struct {
			id string
			m  *CapMap
		}
		live := []cls{{"def", builtin}, {"def2", builtin}}
		ops := []LibOp{{Op: "load", ID: "l", Dir: s.Dir, Patterns: s.Patterns}, {Op: "classifier", ID: "def", Source: "default"}, {Op: "classifier", ID: "def2", Source: "notnoisy"},
			{Op: "classifier", ID: "edge", Source: "e.cm", Text: sinks.String(), Exclude: true}, {Op: "graph", Load: "l", Class: "edge"}}
		graph0 := len(ops) - 1
		type fp struct {
			op int
			c  cls
		}
		var fps []fp
		var graphs []int
		print := func() {
			for _, c := range live {
				fps = append(fps, fp{len(ops), c})
				ops = append(ops, LibOp{Op: "category", Class: c.id, Names: names})
			}
			graphs = append(graphs, len(ops))
			ops = append(ops, LibOp{Op: "graph", Load: "l", Class: "edge"})
		}
		print()
		for i := 0; i < 8; i++ {
			switch rnd.Intn(5) {
			case 0, 1:
				text, m := randomMapText(rnd, names, 30)
				// Entries that deriving a classifier removes.
				for j := 0; j < 3; j++ {
					n := names[rnd.Intn(len(names))]
					if _, ok := m.Package[n[0]]; !ok && n[0] != "" {
						m.Package[n[0]] = "UNANALYZED"
						text += "\npackage " + n[0] + " CAPABILITY_UNANALYZED"
					}
					n = names[rnd.Intn(len(names))]
					if _, ok := m.Func[n[1]]; !ok && n[1] != "" && !strings.ContainsAny(n[1], " #") {
						m.Func[n[1]] = "UNANALYZED"
						text += "\nfunc " + n[1] + " CAPABILITY_UNANALYZED"
					}
				}
				// Include ignored edges and suffixes that would matter if they leaked.
				for _, e := range s.edgePairs(r) {
					if rnd.Intn(3) == 0 {
						m.Ignore[e] = true
						text += "\nignore_edge " + e[0] + " " + e[1]
					}
				}
				ex := rnd.Intn(2) == 0
				id := fmt.Sprint("u", i)
				ops = append(ops, LibOp{Op: "classifier", ID: id, Source: "u.cm", Text: text, Exclude: ex})
				if !ex {
					m = builtin.merge(m)
				}
				live = append(live, cls{id, m})
			case 2, 3:
				c := live[rnd.Intn(len(live))]
				id := fmt.Sprint("x", i)
				ops = append(ops, LibOp{Op: "classifier", ID: id, Source: "excluding", Class: c.id})
				live = append(live, cls{id, c.m.withoutUnanalyzed()})
			case 4:
				c := live[rnd.Intn(len(live))]
				ops = append(ops, LibOp{Op: []string{"info", "graph", "counts"}[rnd.Intn(3)], Load: "l", Class: c.id}, LibOp{Op: "classifier", ID: "bad", Source: "b.cm", Text: "func os.Getenv CAPABILITY_CGO\npackage os CAPABILITY_CGO\nx\n"})
			}
			print()
		}
		res, pr := r.lib(r.Lib, ops)
		if res == nil {
			r.Violate(fmt.Sprint("crash/hist", k), "library driver failed: "+clip(pr.Err, 2000), map[string]string{"ops.json": opsJSON(ops)}, s.Dir)
			continue
		}
		for _, f := range fps {
			for j, n := range names {
				want := f.c.m.category(n[0], n[1])
				if want == "" {
					want = "UNSPECIFIED"
				}
				if j >= len(res[f.op].List) || res[f.op].List[j] != "CAPABILITY_"+want {
					got := "nothing: " + res[f.op].Err + res[f.op].Panic
					if j < len(res[f.op].List) {
						got = res[f.op].List[j]
					}
					r.Violate("changed/"+f.c.id, fmt.Sprintf("after operation %d classifier %s answers %s for %s, expected %s", f.op, f.c.id, clip(got, 300), n[1], want), map[string]string{"ops.json": opsJSON(ops)}, s.Dir)
					break
				}
			}
			r.Count("classifier fingerprints compared", 1)
			r.Eval(fmt.Sprintf("hist %d %s %d", k, f.c.id, f.op))
		}
		base, _ := json.Marshal(res[graph0])
		for _, g := range graphs {
			now, _ := json.Marshal(res[g])
			if string(base) != string(now) {
				r.Violate("edges", fmt.Sprintf("after operation %d a previously loaded classifier gives another graph", g), map[string]string{"ops.json": opsJSON(ops)}, s.Dir)
				break
			}
			r.Count("graph fingerprints compared", 1)
		}
	}
}

// edgePairs returns the call edges of the subject by name.
func (s *Subject) edgePairs(r *Run) [][2]string {
	set := map[string][2]string{}
	for _, n := range s.Ref(r).Nodes {
		for _, e := range n.Out {
			a, b := e.Caller.Func.String(), e.Callee.Func.String()
			if !strings.ContainsAny(a+b, " \t#[") {
				set[a+" "+b] = [2]string{a, b}
			}
		}
	}
	var out [][2]string
	for _, k := range sortedKeys(set) {
		out = append(out, set[k])
	}
	return out
}
