package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

func init() { checks["C02"] = checkC02 }

// modelExpect computes the expected pairs for the declared functions of a
// generated program from its abstract call graph only.
func modelExpect(p *Prog, m *CapMap, queried map[string]bool) map[string]bool {
	cat := func(n *Node) string { return m.category(n.Pkg.Path, n.SSA) }
	in := map[*Node][]*Node{}
	loaded := p.loaded(queried)
	for _, a := range p.Nodes {
		for b := range a.Out {
			if a.live(b, loaded) && !m.Ignore[[2]string{a.SSA, b.SSA}] {
				in[b] = append(in[b], a)
			}
		}
	}
	out := map[string]bool{}
	for _, s := range p.Nodes {
		c := cat(s)
		if !loaded[s.Pkg] {
			continue
		}
		if c == "" || c == "SAFE" {
			continue
		}
		vis := map[*Node]bool{s: true}
		st := []*Node{s}
		for len(st) > 0 {
			n := st[len(st)-1]
			st = st[:len(st)-1]
			if queried[n.Pkg.Path] && !n.DontCare {
				out[n.SSA+" "+c] = true
			}
			for _, w := range in[n] {
				if !vis[w] && cat(w) == "" {
					vis[w] = true
					st = append(st, w)
				}
			}
		}
	}
	return out
}

// modelMap makes a random map that the abstract model interprets exactly.
func modelMap(rnd *rand.Rand, p *Prog) *CapMap {
	m := sinkMap(rnd, p)
	plain := map[*Node]bool{} // nodes whose own entry changes only themselves
	for _, n := range p.Nodes {
		if !n.Sink && n.Name != "init" && !n.DontCare {
			plain[n] = true
		}
	}
	var nodes []*Node
	for n := range plain {
		nodes = append(nodes, n)
	}
	sort.Slice(nodes, func(i, j int) bool { return nodes[i].ID < nodes[j].ID })
	for i := rnd.Intn(6); i > 0 && len(nodes) > 0; i-- {
		n := nodes[rnd.Intn(len(nodes))]
		if rnd.Intn(2) == 0 {
			m.Func[n.SSA] = "SAFE"
		} else {
			m.Func[n.SSA] = reportCaps[rnd.Intn(len(reportCaps))]
		}
	}
	if rnd.Intn(3) == 0 {
		g := p.Pkgs[rnd.Intn(len(p.Pkgs))]
		c := "SAFE"
		if rnd.Intn(2) == 0 {
			c = reportCaps[rnd.Intn(len(reportCaps))]
		}
		m.Package[g.Path] = c
	}
	// Ignore some direct calls.
	var de [][2]string
	for _, n := range p.Nodes {
		for t := range n.Out {
			if n.direct[t] && !n.indirect[t] {
				de = append(de, [2]string{n.SSA, t.SSA})
			}
		}
	}
	sort.Slice(de, func(i, j int) bool { return de[i][0]+de[i][1] < de[j][0]+de[j][1] })
	for i := rnd.Intn(4); i > 0 && len(de) > 0; i-- {
		m.Ignore[de[rnd.Intn(len(de))]] = true
	}
	return m
}

// declared reports whether the abstract model decides entries for the function.
func modelled(name string) bool {
	return !strings.Contains(name, "$") && !strings.Contains(name, "[")
}

func checkC02(r *Run) {
	r.rule = "one evaluation = one analysis run whose reported (function, capability) pairs were compared with the expected set; non-trivial = the expected set is non-empty, distinguished by its content"
	r.assume = []string{
		"the x/tools loader, SSA builder and VTA call-graph construction are trusted; the call graph is the one they build from the source after the documented treatment of sort and sync.Once",
		"for generated programs the expected set comes from the abstract call graph the program was generated from, not from any analysis",
	}
	nModel := r.pick(50, 400)
	r.parallel(nModel, 8, func(i int) {
		rnd := r.rng(fmt.Sprint("model", i))
		npkg := 2 + rnd.Intn(4)
		s := r.genSubject(fmt.Sprintf("gen%d", i), rnd, npkg, 8+rnd.Intn(20), 25+rnd.Intn(70), 2+rnd.Intn(6), rnd.Intn(4))
		for k := 0; k < 3; k++ {
			m := sinkMap(rnd, s.Prog)
			if k > 0 {
				m = modelMap(rnd, s.Prog)
			}
			q := map[string]bool{}
			s.Patterns = nil
			for _, g := range s.Prog.Pkgs {
				if rnd.Intn(3) != 0 || k == 0 {
					s.Patterns = append(s.Patterns, "./"+g.Name)
					q[g.Path] = true
				}
			}
			if len(q) == 0 {
				s.Patterns = []string{"./p0"}
				q["ex.com/gen/p0"] = true
			}
			c := &Case{S: s, Name: fmt.Sprintf("model%d", k), User: m, NoBlt: true}
			r.modelCase(c, q)
		}
	})

	var subjects []*Subject
	subjects = append(subjects, r.repoSubjects()...)
	if r.thorough() {
		subjects = append(subjects, r.stdSubjects("encoding/json", "text/template", "archive/zip", "net/http", "go/types", "os/exec,log/slog", "database/sql", "html/template")...)
	} else {
		subjects = append(subjects, r.stdSubjects("archive/zip,encoding/csv", "text/template")...)
	}
	subjects = append(subjects, r.oddSubjects()...)
	nGen := r.pick(16, 60)
	for i := 0; i < nGen; i++ {
		rnd := r.rng(fmt.Sprint("refgen", i))
		subjects = append(subjects, r.genSubject(fmt.Sprintf("rgen%d", i), rnd, 2+rnd.Intn(3), 10+rnd.Intn(15), 40+rnd.Intn(40), 2+rnd.Intn(5), rnd.Intn(3)))
	}
	r.parallel(len(subjects), 6, func(i int) {
		for _, c := range r.refCases(subjects[i], r.pick(2, 6)) {
			r.refCase(c)
		}
		subjects[i].ref = nil
	})
	r.Require("pairs expected by model", 200)
	r.Require("pairs expected by reference", 200)
}

// refCases returns analysis cases of a subject for comparison with the
// reference analysis.
func (r *Run) refCases(s *Subject, n int) []*Case {
	rnd := r.rng("refcases/" + s.Name)
	rp := s.Ref(r)
	var out []*Case
	if s.Prog != nil {
		for k := 0; k < n; k++ {
			m := sinkMap(rnd, s.Prog)
			if k > 0 {
				m = m.merge(randomUserMap(rnd, rp, m, true, 8))
			}
			out = append(out, &Case{S: s, Name: fmt.Sprint("m", k), User: m, NoBlt: k%3 != 2})
		}
		return out
	}
	out = append(out, &Case{S: s, Name: "builtin"})
	if s.Base != nil {
		out[0] = &Case{S: s, Name: "base", User: s.Base, NoBlt: s.NoBuilt}
	}
	for k := 1; k < n; k++ {
		c := &Case{S: s, Name: fmt.Sprint("m", k)}
		base := r.builtinMap()
		c.NoBlt = rnd.Intn(4) == 0
		c.Noisy = rnd.Intn(3) == 0
		if c.NoBlt {
			base = newCapMap()
			base.Package["os"], base.Package["syscall"], base.Package["internal/poll"] = "FILES", "SYSTEM_CALLS", "OPERATING_SYSTEM"
			c.User = base.merge(randomUserMap(rnd, rp, base, true, 12))
		} else {
			c.User = randomUserMap(rnd, rp, base, false, 12)
		}
		out = append(out, c)
	}
	return out
}

func (r *Run) modelCase(c *Case, queried map[string]bool) {
	rep, args := r.report(c)
	if rep == nil {
		return
	}
	want := modelExpect(c.S.Prog, c.User, queried)
	got := map[string]bool{}
	for k, n := range rep.pairs() {
		fn := strings.Fields(k)[0]
		if n > 1 && !strings.Contains(fn, "[") {
			r.Violate("dup/"+c.describe(), fmt.Sprintf("%s is reported %d times", k, n), c.replay(r, args, nil), c.replayDir())
		}
		if modelled(fn) {
			got[k] = true
		}
	}
	for _, n := range c.S.Prog.Nodes {
		if n.DontCare {
			for _, cap := range allCaps {
				delete(got, n.SSA+" "+cap)
				delete(want, n.SSA+" "+cap)
			}
		}
	}
	for _, e := range rep.CapabilityInfo {
		if !queried[e.PackageDir] {
			r.Violate("outside/"+c.describe(), fmt.Sprintf("%s of package %s is reported but the package was not queried", e.fn(), e.PackageDir), c.replay(r, args, nil), c.replayDir())
		}
	}
	missing, extra := diffSets(got, want)
	if len(missing)+len(extra) > 0 {
		r.Violate("model/"+c.describe(), fmt.Sprintf("generated program: missing %v, unexpected %v", head(missing, 10), head(extra, 10)), c.replay(r, args, nil), c.replayDir())
	}
	r.Count("pairs expected by model", len(want))
	r.Count("reported entries", len(rep.CapabilityInfo))
	key := ""
	if len(want) > 0 {
		key = "model:" + strings.Join(sortedKeys(want), ",")
		r.Sample(map[string]any{"program": c.S.Name, "constructs": c.S.Prog.Used, "queried": c.S.Patterns, "pairs": len(want), "first": head(sortedKeys(want), 3)})
	}
	r.Eval(key)
}

func (r *Run) refCase(c *Case) {
	rr := c.S.Ref(r).analyze(c.Map(r), c.NoBlt)
	rep, args := r.report(c)
	if rep == nil {
		return
	}
	want := rr.FuncPairs()
	got := map[string]int{}
	for k, n := range rep.pairs() {
		i := strings.LastIndexByte(k, ' ')
		got[c.S.Ref(r).canon(k[:i])+k[i:]] += n
	}
	var bad []string
	for k, n := range want {
		if got[k] != n {
			bad = append(bad, fmt.Sprintf("%s: expected %d entries, reported %d", k, n, got[k]))
		}
	}
	for k, n := range got {
		if _, ok := want[k]; !ok {
			bad = append(bad, fmt.Sprintf("%s: expected 0 entries, reported %d", k, n))
		}
	}
	sort.Strings(bad)
	if len(bad) > 0 {
		r.Violate("ref/"+c.describe(), "report differs from reference analysis:\n"+strings.Join(head(bad, 20), "\n"), c.replay(r, args, nil), c.replayDir())
	}
	r.Count("pairs expected by reference", len(want))
	key := ""
	if len(want) > 0 {
		key = "ref:" + c.describe()
	}
	r.Eval(key)
}

// oddSubjects are hand-written programs with features the generator lacks.
func (r *Run) oddSubjects() []*Subject {
	return []*Subject{
		r.srcSubject("methods", map[string]string{"a/a.go": `package a

import "os"

type u struct{}

func (u) P()  { os.Getenv("x") }
func (*u) Q() { os.ReadFile("x") }

func New() *u { return nil }

type G[T any] struct{ v T }

func (G[T]) M()            { os.Getpid() }
func (g *G[T]) N(f func()) { func() { os.Exit(1) }() }

type Pair[K comparable, V any] struct {
	k K
	v V
}

func (p *Pair[K, V]) Get() V { os.Setenv("a", "b"); return p.v }

type w struct{ *u }

func Local() any {
	type l struct{ u }
	return l{}
}

func Named() (f func()) { return func() { os.Remove("x") } }

var v = Named()

func CallV() { v() }

var (
	_ = os.Getenv("HOME")
	x = func() int { os.Getuid(); return 1 }()
)

func init() { os.Chdir("/") }
func init() { New().Q() }
`, "b/b.go": `package b

import (
	"ex.com/m/a"
	"os"
)

type I interface{ Q() }

func F(i I)            { i.Q() }
func H()               { F(a.New()) }
func Gen[T any](x T)   { Gen2[T](x); os.Getwd() }
func Gen2[T any](x T)  { os.Hostname() }
func UseGen()          { Gen[int](1); Gen("x") }
func Inst() func(bool) { return Gen[bool] }

type E struct{ a.G[int] }

func Prom() { E{}.M() }
`}),
		r.srcSubject("commands", map[string]string{
			"lib/lib.go":           "package lib\n\nimport \"os\"\n\nfunc Read() { os.ReadFile(\"x\") }\n\nfunc Quiet() {}\n",
			"cmd/one/main.go":      "package main\n\nimport (\n\t\"os\"\n\n\t\"ex.com/m/lib\"\n)\n\nvar home = os.Getenv(\"HOME\")\n\nfunc main() { lib.Read(); help() }\n\nfunc help() { os.Exit(2) }\n",
			"cmd/two/main.go":      "package main\n\nimport (\n\t\"net\"\n\t\"os\"\n\n\t\"ex.com/m/internal/x\"\n\t\"ex.com/m/lib\"\n)\n\nfunc init() { os.Chdir(\"/\") }\n\nfunc main() { lib.Quiet(); go serve(); other.Go() }\n\nfunc serve() { net.Listen(\"tcp\", \":0\") }\n",
			"internal/x/x.go":      "package other\n\nimport \"os/exec\"\n\nfunc Go() { exec.Command(\"x\").Run() }\n",
			"internal/x/x_test.go": "package other\n\nimport (\n\t\"os\"\n\t\"testing\"\n)\n\nfunc TestGo(t *testing.T) { os.Remove(\"x\"); Go() }\n",
		}),
	}
}
