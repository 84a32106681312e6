package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

func init() { checks["C10"] = checkC10 }

// comparePairs reads the (name, capability) pairs of a report at a granularity.
func comparePairs(rep *Report, gran string) map[string]bool {
	m := map[string]bool{}
	for _, e := range rep.CapabilityInfo {
		switch gran {
		case "", "package":
			m[e.PackageDir+"\t"+e.Capability] = true
		case "function":
			if n := e.fn(); n != "" {
				m[n+"\t"+e.Capability] = true
			}
		case "intermediate":
			if e.PackageDir != "" {
				m[e.PackageDir+"\t"+e.Capability] = true
			}
			for _, f := range e.Path {
				if f.Package != "" {
					m[f.Package+"\t"+e.Capability] = true
				}
			}
		}
	}
	return m
}

var (
	newRE  = regexp.MustCompile(`^Package (.*) has new capability (CAPABILITY_[A-Z_]+) compared to the baseline\.$`)
	goneRE = regexp.MustCompile(`^Package (.*) no longer has capability (CAPABILITY_[A-Z_]+) which was in the baseline\.$`)
)

// parseCompare returns the announcements of a comparison, with their counts,
// and the call path lines printed for each.
func parseCompare(out string) (added, gone map[string]int, paths map[string][]string, odd []string) {
	added, gone, paths = map[string]int{}, map[string]int{}, map[string][]string{}
	cur := ""
	for _, l := range strings.Split(out, "\n") {
		if m := newRE.FindStringSubmatch(l); m != nil {
			cur = m[1] + "\t" + m[2]
			added[cur]++
			continue
		}
		if m := goneRE.FindStringSubmatch(l); m != nil {
			cur = m[1] + "\t" + m[2]
			gone[cur]++
			continue
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		if cur == "" || strings.HasPrefix(l, "Package ") {
			odd = append(odd, l)
			continue
		}
		paths[cur] = append(paths[cur], l)
	}
	return
}

func cloneReport(rep *Report) *Report {
	b, _ := json.Marshal(rep)
	c := new(Report)
	json.Unmarshal(b, c)
	return c
}

// mutateBaseline edits a baseline in ways that keep it a valid report.
func mutateBaseline(rnd *rand.Rand, rep *Report) (*Report, string) {
	b := cloneReport(rep)
	var what []string
	for k := 1 + rnd.Intn(3); k > 0; k-- {
		n := len(b.CapabilityInfo)
		op := rnd.Intn(8)
		if n == 0 && op != 2 {
			op = 2
		}
		switch op {
		case 0: // drop an entry
			i := rnd.Intn(n)
			b.CapabilityInfo = append(b.CapabilityInfo[:i:i], b.CapabilityInfo[i+1:]...)
			what = append(what, "drop")
		case 1: // drop all entries of a capability
			c := b.CapabilityInfo[rnd.Intn(n)].Capability
			var keep []*CapInfo
			for _, e := range b.CapabilityInfo {
				if e.Capability != c {
					keep = append(keep, e)
				}
			}
			b.CapabilityInfo = keep
			what = append(what, "dropcap")
		case 2: // add an entry
			p := fmt.Sprintf("old.example/p%d", rnd.Intn(3))
			c := "CAPABILITY_" + reportCaps[rnd.Intn(len(reportCaps))]
			b.CapabilityInfo = append(b.CapabilityInfo, &CapInfo{PackageName: "p", PackageDir: p, Capability: c, CapabilityType: "CAPABILITY_TYPE_DIRECT", DepPath: p + ".F os.X",
				Path: []PathFn{{Name: p + ".F", Package: p}, {Name: "os.X", Package: "os", Site: &Site{"f.go", "3", "4"}}}})
			what = append(what, "add")
		case 3: // change a capability
			b.CapabilityInfo[rnd.Intn(n)].Capability = "CAPABILITY_" + reportCaps[rnd.Intn(len(reportCaps))]
			what = append(what, "recap")
		case 4: // duplicate
			b.CapabilityInfo = append(b.CapabilityInfo, b.CapabilityInfo[rnd.Intn(n)])
			what = append(what, "dup")
		case 5: // shuffle
			rnd.Shuffle(n, func(i, j int) {
				b.CapabilityInfo[i], b.CapabilityInfo[j] = b.CapabilityInfo[j], b.CapabilityInfo[i]
			})
			what = append(what, "shuffle")
		case 6: // rename a package or function
			e := b.CapabilityInfo[rnd.Intn(n)]
			e.PackageDir += "x"
			for i := range e.Path {
				e.Path[i].Name += "x"
				e.Path[i].Package += "x"
			}
			what = append(what, "rename")
		case 7: // change only things that do not matter
			for _, e := range b.CapabilityInfo {
				e.CapabilityType = "CAPABILITY_TYPE_TRANSITIVE"
				e.DepPath = "zzz"
				for i := range e.Path {
					e.Path[i].Site = nil
				}
			}
			b.ModuleInfo, b.PackageInfo = nil, nil
			what = append(what, "cosmetic")
		}
	}
	return b, strings.Join(what, "+")
}

func checkC10(r *Run) {
	r.rule = "one evaluation = one comparison run whose exit status and announcements were compared with the set difference; non-trivial = distinct case, granularity and kind of baseline"
	r.assume = []string{"the report at the granularity of the comparison (checked by C02 and C05) is what the baseline is compared with"}
	var cases []*Case
	var subjects []*Subject
	for _, s := range r.shapeSubjects() {
		subjects = append(subjects, s)
	}
	for _, s := range r.oddSubjects() {
		subjects = append(subjects, s)
	}
	for i, s := range subjects {
		if r.thorough() {
			cases = append(cases, &Case{S: s, Name: "builtin"}, &Case{S: s, Name: "noisy", Noisy: true})
		} else if i != 1 && s.Name != "extras" && s.Name != "cycles" {
			cases = append(cases, &Case{S: s, Name: "builtin"})
		}
	}
	var gens []*Case
	for i := 0; i < r.pick(4, 40); i++ {
		rnd := r.rng(fmt.Sprint("gen", i))
		s := r.genSubject(fmt.Sprintf("gen%d", i), rnd, 2+rnd.Intn(3), 8+rnd.Intn(10), 25+rnd.Intn(30), 2+rnd.Intn(4), rnd.Intn(3))
		c := &Case{S: s, Name: "m", User: sinkMap(rnd, s.Prog), NoBlt: true}
		gens = append(gens, c)
		cases = append(cases, c)
	}
	grans := []string{"", "package", "function", "intermediate"}
	type job struct {
		c    *Case
		gran string
		caps string
	}
	var jobs []job
	for _, c := range cases {
		for _, g := range grans {
			jobs = append(jobs, job{c, g, ""})
		}
		jobs = append(jobs, job{c, "intermediate", randomCaps(r.rng("caps"+c.describe()), []string{"FILES", "NETWORK", "EXEC", "READ_SYSTEM_STATE"})})
	}
	r.parallel(len(jobs), 8, func(i int) {
		j := jobs[i]
		c := *j.c
		c.Caps = j.caps
		rnd := r.rng(fmt.Sprint("job", i))
		gf := j.gran
		if gf == "" {
			gf = "package"
		}
		var opts []string
		omit := rnd.Intn(3) == 0
		if omit {
			opts = append(opts, "-omit_paths")
		}
		cur, _ := r.report(&c, append(opts, "-granularity="+gf)...)
		if cur == nil {
			return
		}
		curText := r.capslock(c.S.Dir, c.Args(r, append(opts, "-granularity="+gf, "-output=json")...)...).Out
		type bl struct {
			rep  *Report
			text string
			kind string
		}
		bls := []bl{{cur, curText, "own"}, {&Report{}, "{}", "empty"}}
		for k := 0; k < r.pick(2, 6); k++ {
			m, what := mutateBaseline(rnd, cur)
			b, _ := json.Marshal(m)
			bls = append(bls, bl{m, string(b), what})
		}
		// A baseline written at another granularity.
		og := grans[1+rnd.Intn(3)]
		if o, _ := r.report(&c, "-granularity="+og); o != nil {
			b, _ := json.MarshalIndent(o, " ", "  ")
			bls = append(bls, bl{o, string(b), "from " + og})
		}
		// A baseline of other source code.
		for _, g := range gens {
			if c.S.Prog != nil && g.S != c.S && rnd.Intn(2) == 0 {
				if o, _ := r.report(g, "-granularity="+gf); o != nil {
					b, _ := json.Marshal(o)
					bls = append(bls, bl{o, string(b), "other source"})
				}
				break
			}
		}
		for _, b := range bls {
			r.compareOnce(&c, j.gran, opts, cur, b.rep, b.text, b.kind, omit)
		}
	})
	r.badBaselines(cases[0])
	r.Require("announcements checked", 200)
	r.Require("comparisons without difference", 20)
	r.Require("comparisons with difference", 50)
	r.Require("error cases", 10)
}

func (r *Run) compareOnce(c *Case, gran string, opts []string, cur, base *Report, text, kind string, omit bool) {
	f := filepath.Join(r.tmp("base"), "baseline.json")
	r.must(os.WriteFile(f, []byte(text), 0o644))
	more := append([]string{"-output=compare"}, opts...)
	if gran != "" {
		more = append(more, "-granularity="+gran)
	}
	if len(text)%3 == 0 {
		// Profiles have no influence on the comparison.
		more = append(more, "-memprofile="+f+".mem", "-cpuprofile="+f+".cpu", "-v=1")
	}
	args := append(c.Args(r, more...), f)
	res := r.capslock(c.S.Dir, args...)
	viol := func(format string, a ...any) {
		r.Violate(fmt.Sprintf("compare/%s/%s/%s", c.describe(), gran, kind), fmt.Sprintf("baseline %s, granularity %q, options %v: ", kind, gran, opts)+fmt.Sprintf(format, a...),
			c.replay(r, args, map[string]string{"baseline.json": text, "out.txt": res.Out}), c.replayDir())
	}
	want, old := comparePairs(cur, gran), comparePairs(base, gran)
	gone, added := diffSets(want, old)
	code := 0
	if len(added)+len(gone) > 0 {
		code = 1
		r.Count("comparisons with difference", 1)
	} else {
		r.Count("comparisons without difference", 1)
	}
	if res.Code != code {
		viol("exit %d, expected %d (%d new, %d gone): %s", res.Code, code, len(added), len(gone), clip(res.Err, 300))
		return
	}
	ga, gg, paths, odd := parseCompare(res.Out)
	if code == 0 && res.Out != "" {
		viol("output without a difference: %s", clip(res.Out, 300))
	}
	if len(odd) > 0 {
		viol("unexpected lines %q", head(odd, 3))
	}
	cmp := func(what string, got map[string]int, want []string) {
		w := map[string]bool{}
		for _, k := range want {
			w[k] = true
			if got[k] != 1 {
				viol("%q announced %d times as %s", k, got[k], what)
			}
		}
		for k, n := range got {
			if !w[k] {
				viol("%q wrongly announced %d times as %s", k, n, what)
			}
		}
	}
	cmp("new", ga, added)
	cmp("gone", gg, gone)
	// A call path shown for a new pair belongs to an entry of the pair.
	if !omit {
		for _, k := range added {
			if !pathShown(cur, gran, k, paths[k]) {
				viol("the path shown for new pair %q is not one of the current analysis: %q", k, paths[k])
			}
		}
		for _, k := range gone {
			if !pathShown(base, gran, k, paths[k]) {
				viol("the path shown for removed pair %q is not one of the baseline: %q", k, paths[k])
			}
		}
	}
	r.Count("announcements checked", len(added)+len(gone))
	r.Eval(fmt.Sprintf("%s %s %s %v", c.describe(), gran, kind, opts))
	if code == 1 {
		r.Sample(map[string]any{"case": c.describe(), "granularity": gran, "baseline": kind, "new": head(added, 3), "gone": head(gone, 3)})
	}
}

// pathShown reports whether lines list the functions of the path of an entry
// that has the pair k.
func pathShown(rep *Report, gran, k string, lines []string) bool {
	for _, e := range rep.CapabilityInfo {
		if !comparePairs(&Report{CapabilityInfo: []*CapInfo{e}}, gran)[k] {
			continue
		}
		if len(lines) != len(e.Path) {
			continue
		}
		ok := true
		for i, f := range e.Path {
			if !strings.HasSuffix(lines[i], f.Name) {
				ok = false
			}
			if f.Site != nil && !strings.HasPrefix(lines[i], f.Site.Filename+":"+f.Site.Line+":"+f.Site.Column) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// badBaselines checks that unreadable and malformed baselines are errors.
func (r *Run) badBaselines(c *Case) {
	rep, _ := r.report(c, "-granularity=package")
	if rep == nil {
		return
	}
	b, _ := json.MarshalIndent(rep, "", " ")
	good := string(b)
	dir := r.tmp("bad")
	type bad struct {
		name string
		args []string
	}
	var list []bad
	add := func(name, text string) {
		f := filepath.Join(dir, fmt.Sprintf("b%d.json", len(list)))
		r.must(os.WriteFile(f, []byte(text), 0o644))
		list = append(list, bad{name, []string{f}})
	}
	rnd := r.rng("bad")
	for i := 0; i < r.pick(6, 60); i++ {
		k := rnd.Intn(len(good) - 1)
		add(fmt.Sprintf("truncated at %d", k), strings.TrimRight(good[:k], " \n"))
	}
	add("empty file", "")
	add("not JSON", "hello")
	add("JSON array", "[]")
	add("JSON string", `"x"`)
	add("unknown field", `{"capabilityInfo":[],"zzz":1}`)
	add("wrong type", `{"capabilityInfo":{}}`)
	add("unknown capability", `{"capabilityInfo":[{"packageDir":"a","capability":"CAPABILITY_ZZZ"}]}`)
	add("trailing garbage", good+"}")
	add("two reports", good+good)
	add("binary", "\x00\x01\xff")
	f := filepath.Join(dir, "good.json")
	r.must(os.WriteFile(f, []byte(good), 0o644))
	list = append(list, bad{"missing file", []string{filepath.Join(dir, "missing.json")}}, bad{"directory", []string{dir}}, bad{"empty name", []string{""}},
		bad{"no argument", nil}, bad{"two arguments", []string{f, f}}, bad{"three arguments", []string{f, f, f}})
	r.parallel(len(list)*2, 8, func(i int) {
		x := list[i/2]
		more := []string{"-output=compare"}
		if i%2 == 1 {
			more = append(more, "-granularity="+[]string{"function", "intermediate", "package"}[(i/2)%3])
		}
		args := append(c.Args(r, more...), x.args...)
		res := r.capslock(c.S.Dir, args...)
		if res.Code != 2 || res.Out != "" || strings.TrimSpace(res.Err) == "" {
			r.Violate("bad/"+x.name, fmt.Sprintf("baseline: %s: exit %d, output %q, message %q", x.name, res.Code, clip(res.Out, 200), clip(res.Err, 200)), c.replay(r, args, nil), c.replayDir())
		}
		r.Count("error cases", 1)
		r.Eval("bad " + x.name + fmt.Sprint(i%2))
	})
}
