package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

func init() { checks["C06"] = checkC06 }

func sortStrings(s []string) { sort.Strings(s) }

func checkC06(r *Run) {
	r.rule = "one evaluation = one output format or library function compared with the function-level JSON report of the same packages and configuration; non-trivial = the report has entries, distinguished by case and format"
	r.assume = []string{"which example path is shown is not prescribed, only that it is a valid one"}
	r.forEachRefCase(r.pathSubjects(r.pick(10, 80)), r.pick(1, 5), func(c *Case, rr *RefResult) {
		r.formats(c, rr)
		if rnd := r.rng("caps/" + c.describe()); c.S.Prog != nil || r.thorough() {
			// The capability set is for graph output and intermediate packages; the
			// other formats agree whatever it is.
			var present []string
			for cp := range rr.Reach {
				present = append(present, cp)
			}
			sortStrings(present)
			cc := *c
			cc.Name += "/capabilities"
			cc.Caps = randomCaps(rnd, present)
			r.formats(&cc, rr)
		}
	})
	// Packages without capabilities.
	none := r.srcSubject("none", map[string]string{"a.go": "package a\n\nfunc F() int { return 1 }\n"})
	c := &Case{S: none, Name: "builtin"}
	r.formats(c, none.Ref(r).analyze(c.Map(r), false))
	r.Require("capability lines compared", 40)
	r.Require("library results compared", 15)
}

func (r *Run) formats(c *Case, rr *RefResult) {
	rep, args := r.report(c)
	if rep == nil {
		return
	}
	viol := func(what string, format string, a ...any) {
		r.Violate(what+"/"+c.describe(), fmt.Sprintf(format, a...), c.replay(r, args, nil), c.replayDir())
	}
	type cnt struct{ n, d, t int }
	want := map[string]*cnt{}
	starts := map[string]bool{}
	for _, e := range rep.CapabilityInfo {
		if want[e.Capability] == nil {
			want[e.Capability] = &cnt{}
		}
		w := want[e.Capability]
		w.n++
		if e.CapabilityType == "CAPABILITY_TYPE_DIRECT" {
			w.d++
		} else {
			w.t++
		}
		starts[e.fn()+" "+e.Capability] = true
	}
	outs := map[string]string{}
	modes := []string{"json", "machine", "verbose", "graph", ""}
	abbrev := r.thorough() || c.S.Prog != nil || c.S.Dir == "/repo"
	if abbrev {
		modes = append(modes, "j", "m", "v", "g")
	}
	for _, m := range modes {
		a := c.Args(r)
		if m != "" {
			a = append(a, "-output="+m)
		}
		res := r.capslock(c.S.Dir, a...)
		if res.Code != 0 {
			viol("exit", "output %q exited %d: %s", m, res.Code, clip(res.Err, 500))
			return
		}
		outs[m] = res.Out
	}
	if abbrev {
		// On a terminal there are colours, and the same text.
		for _, m := range []string{"json", "machine", "verbose", ""} {
			a := c.Args(r)
			if m != "" {
				a = append(a, "-output="+m)
			}
			res, codes, ok := r.onTerminal(c.S.Dir, a...)
			if !ok {
				r.Count("no terminal available", 1)
				break
			}
			if res.Code != 0 || res.Out != outs[m] {
				viol("terminal/"+m, "output %q on a terminal, exit status %d, without colours: %s", m, res.Code, firstDiff(res.Out, outs[m]))
			}
			r.Count("outputs on a terminal", 1)
			r.Count("colour codes removed", codes)
			r.Eval("terminal " + m + " " + c.describe())
		}
	}
	if !abbrev {
		for _, m := range []string{"json", "machine", "verbose", "graph"} {
			outs[m[:1]] = outs[m]
		}
	}
	for _, p := range [][2]string{{"j", "json"}, {"m", "machine"}, {"v", "verbose"}} {
		if outs[p[0]] != outs[p[1]] {
			viol("abbrev", "output %q differs from output %q", p[0], p[1])
		}
	}
	if lineSet(outs["g"]) != lineSet(outs["graph"]) {
		viol("abbrev", "output g differs from output graph")
	}
	key := func(f string) string { return caseKey(c, f, len(rep.CapabilityInfo)) }
	// Machine.
	caps := sortedKeys(want)
	wantM := ""
	for _, k := range caps {
		wantM += k + "\n"
	}
	if outs["machine"] != wantM {
		viol("machine", "machine output is %q, expected %q", outs["machine"], wantM)
	}
	r.Eval(key("machine"))
	// Default and verbose.
	for _, m := range []string{"", "verbose"} {
		st := parseStats(outs[m])
		for k, s := range st {
			w := want[k]
			if w == nil {
				viol("text"+m, "output %q lists %s, the JSON report does not", m, k)
				continue
			}
			if s.Count != w.n || s.Split != (m == "verbose") || (s.Split && (s.Direct != w.d || s.Trans != w.t)) {
				viol("text"+m, "output %q says %s: %+v, the JSON report has %+v", m, k, *s, *w)
			}
			if m == "verbose" {
				r.checkExample(c, rr, k, s, starts, viol)
			}
			r.Count("capability lines compared", 1)
		}
		for _, k := range caps {
			if st[k] == nil {
				viol("text"+m, "output %q does not list %s", m, k)
			}
		}
		if noCaps := strings.Contains(outs[m], "found no capabilities"); noCaps != (len(caps) == 0) {
			viol("text"+m, "output %q says no capabilities were found: %v, the JSON report has %d capabilities", m, noCaps, len(caps))
		}
		r.Eval(key("text" + m))
	}
	// With paths omitted the verbose example is just a function.
	res := r.capslock(c.S.Dir, c.Args(r, "-output=v", "-omit_paths")...)
	for k, s := range parseStats(res.Out) {
		w := want[k]
		if w == nil || s.Count != w.n || s.Direct != w.d || s.Trans != w.t {
			viol("omitverbose", "verbose with -omit_paths says %s: %+v, the JSON report has %+v", k, *s, w)
		}
		if len(s.Example) != 1 || !starts[s.Example[0]+" "+k] {
			viol("omitverbose", "verbose with -omit_paths gives example %v for %s", s.Example, k)
		}
	}
	r.Eval(key("verbose -omit_paths"))
	// Graph: the capabilities are the same.
	g, err := parseDOT(outs["graph"])
	if err != nil {
		viol("graph", "graph output: %v", err)
	} else {
		gc := map[string]bool{}
		for _, e := range g {
			if strings.HasPrefix(e[1], "CAPABILITY_") {
				gc[e[1]] = true
			}
		}
		var inSet []string
		for _, k := range caps {
			if c.capHas(strings.TrimPrefix(k, "CAPABILITY_")) {
				inSet = append(inSet, k)
			}
		}
		if got := strings.Join(sortedKeys(gc), " "); got != strings.Join(inSet, " ") {
			viol("graph", "graph output mentions capabilities %s, the JSON report %v", got, inSet)
		}
	}
	r.Eval(key("graph"))
	r.libAgree(c, rep, viol)
	if len(caps) > 0 {
		r.Sample(map[string]any{"case": c.describe(), "machine": strings.Fields(outs["machine"]), "entries": len(rep.CapabilityInfo)})
	}
}

func (r *Run) checkExample(c *Case, rr *RefResult, k string, s *StatLine, starts map[string]bool, viol func(string, string, ...any)) {
	if len(s.Example) == 0 {
		viol("example", "verbose output has no example for %s", k)
		return
	}
	if !starts[s.Example[0]+" "+k] {
		viol("example", "verbose example for %s starts at %s, which is not reported with it", k, s.Example[0])
		return
	}
	e := &CapInfo{Capability: k}
	for i, n := range s.Example {
		f := PathFn{Name: n}
		for _, v := range rr.rp.nodes(n) {
			if p := declPackage(v.Func); p != nil {
				f.Package = p.Path()
			} else if ps := wrapperPackages(v.Func); len(ps) > 0 {
				f.Package = ps[0]
			}
		}
		if s.Sites[i] != "" {
			q := strings.Split(s.Sites[i], ":")
			f.Site = &Site{q[0], q[1], q[2]}
		}
		e.Path = append(e.Path, f)
	}
	for _, v := range rr.rp.nodes(s.Example[0]) {
		if rr.inQuery(v) {
			e.PackageDir = fnPackage(v.Func).Path()
		}
	}
	e.DepPath = strings.Join(s.Example, " ")
	if bad := checkPath(rr, e, "function"); bad != "" {
		viol("example", "verbose example for %s: %s: %s", k, bad, pathText(e.Path))
	}
	r.Count("verbose examples checked", 1)
}

// libAgree compares the results of the library functions.
func (r *Run) libAgree(c *Case, rep *Report, viol func(string, string, ...any)) {
	ops := []LibOp{}
	cls := ""
	if c.User != nil {
		ops = append(ops, LibOp{Op: "classifier", ID: "c", Source: "m.cm", Text: c.User.String(), Exclude: c.NoBlt})
		cls = "c"
		if c.Noisy {
			ops = append(ops, LibOp{Op: "classifier", ID: "d", Source: "excluding", Class: "c"})
			cls = "d"
		}
	} else if c.Noisy {
		ops = append(ops, LibOp{Op: "classifier", ID: "c", Source: "noisy"})
		cls = "c"
	}
	n := len(ops)
	for i, op := range []string{"info", "counts", "stats"} {
		l := fmt.Sprint("l", i)
		ops = append(ops, LibOp{Op: "load", ID: l, Dir: c.S.Dir, Patterns: c.S.Patterns})
		ops = append(ops, LibOp{Op: op, Load: l, Class: cls, Disable: c.NoBlt, Caps: &c.Caps})
	}
	res, pr := r.lib(r.Lib, ops)
	if res == nil {
		viol("lib", "library driver failed: exit %d %s", pr.Code, clip(pr.Err, 2000))
		return
	}
	for i, x := range res {
		if x.Err != "" || x.Panic != "" {
			viol("lib", "library operation %s failed: %s %s", ops[i].Op, x.Err, clip(x.Panic, 1000))
			return
		}
	}
	info, err := parseReport(res[n+1].Out)
	if err != nil {
		viol("lib", "GetCapabilityInfo: %v", err)
		return
	}
	a, _ := json.Marshal(info)
	b, _ := json.Marshal(rep)
	if string(a) != string(b) {
		viol("lib", "GetCapabilityInfo differs from the JSON output")
	}
	want := map[string]int{}
	wd, wt := map[string]int{}, map[string]int{}
	for _, e := range rep.CapabilityInfo {
		want[e.Capability]++
		if e.CapabilityType == "CAPABILITY_TYPE_DIRECT" {
			wd[e.Capability]++
		} else {
			wt[e.Capability]++
		}
	}
	var counts struct {
		CapabilityCounts map[string]string
		ModuleInfo       []ModInfo
	}
	if err := json.Unmarshal([]byte(res[n+3].Out), &counts); err != nil {
		viol("lib", "GetCapabilityCounts: %v", err)
		return
	}
	for k, v := range want {
		if counts.CapabilityCounts[k] != fmt.Sprint(v) {
			viol("lib", "GetCapabilityCounts says %s for %s, expected %d", counts.CapabilityCounts[k], k, v)
		}
	}
	if len(counts.CapabilityCounts) != len(want) {
		viol("lib", "GetCapabilityCounts has %d capabilities, expected %d", len(counts.CapabilityCounts), len(want))
	}
	var stats struct {
		CapabilityStats []struct {
			Capability                          string
			Count, DirectCount, TransitiveCount string
			ExampleCallpath                     []PathFn
		}
		ModuleInfo []ModInfo
	}
	if err := json.Unmarshal([]byte(res[n+5].Out), &stats); err != nil {
		viol("lib", "GetCapabilityStats: %v", err)
		return
	}
	if len(stats.CapabilityStats) != len(want) {
		viol("lib", "GetCapabilityStats has %d capabilities, expected %d", len(stats.CapabilityStats), len(want))
	}
	num := func(s string) string {
		if s == "" {
			return "0"
		}
		return s
	}
	for _, s := range stats.CapabilityStats {
		if num(s.Count) != fmt.Sprint(want[s.Capability]) || num(s.DirectCount) != fmt.Sprint(wd[s.Capability]) || num(s.TransitiveCount) != fmt.Sprint(wt[s.Capability]) {
			viol("lib", "GetCapabilityStats says %s/%s/%s for %s, expected %d/%d/%d", s.Count, s.DirectCount, s.TransitiveCount, s.Capability, want[s.Capability], wd[s.Capability], wt[s.Capability])
		}
		if len(s.ExampleCallpath) == 0 {
			viol("lib", "GetCapabilityStats has no example for %s", s.Capability)
		}
	}
	if fmt.Sprint(counts.ModuleInfo) != fmt.Sprint(rep.ModuleInfo) || fmt.Sprint(stats.ModuleInfo) != fmt.Sprint(rep.ModuleInfo) {
		viol("lib", "module information differs between library functions")
	}
	r.Count("library results compared", 3)
	r.Eval(caseKey(c, "library", len(want)))
}

func lineSet(s string) string {
	m := map[string]bool{}
	for _, l := range strings.Split(s, "\n") {
		m[l] = true
	}
	return strings.Join(sortedKeys(m), "\n")
}
