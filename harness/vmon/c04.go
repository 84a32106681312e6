package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

func init() { checks["C04"] = checkC04 }

func checkC04(r *Run) {
	r.rule = "one evaluation = one report entry whose type and package attribution were recomputed from its path; non-trivial = the path leaves the entry's package, distinguished by function, capability and type"
	r.assume = []string{"compiler-generated wrappers may count for any package that occurs in their receiver or parameters"}
	r.forEachRefCase(r.pathSubjects(r.pick(10, 80)), r.pick(2, 5), func(c *Case, rr *RefResult) {
		rep, args := r.report(c)
		if rep == nil {
			return
		}
		names := map[string]string{}
		for _, p := range rr.rp.Pkgs {
			names[p.PkgPath] = p.Name
		}
		type cnt struct{ direct, trans int }
		counts := map[string]*cnt{}
		for _, e := range rep.CapabilityInfo {
			if bad := checkType(rr, e, names); bad != "" {
				r.Violate("type/"+c.describe(), fmt.Sprintf("entry %s %s: %s\npath: %s", e.fn(), e.Capability, bad, pathText(e.Path)), c.replay(r, args, nil), c.replayDir())
			}
			if counts[e.Capability] == nil {
				counts[e.Capability] = &cnt{}
			}
			switch e.CapabilityType {
			case "CAPABILITY_TYPE_DIRECT":
				counts[e.Capability].direct++
				r.Count("direct entries", 1)
			case "CAPABILITY_TYPE_TRANSITIVE":
				counts[e.Capability].trans++
				r.Count("transitive entries", 1)
			}
			key := ""
			for _, f := range e.Path {
				if f.Package != e.PackageDir {
					key = e.fn() + " " + e.Capability + " " + e.CapabilityType
				}
			}
			r.Eval(key)
		}
		// Package granularity entries follow the same rule for their own path.
		prep, pargs := r.report(c, "-granularity=package")
		if prep != nil {
			for _, e := range prep.CapabilityInfo {
				if bad := checkType(rr, e, names); bad != "" {
					r.Violate("pkgtype/"+c.describe(), fmt.Sprintf("package entry %s %s: %s\npath: %s", e.PackageDir, e.Capability, bad, pathText(e.Path)), c.replay(r, pargs, nil), c.replayDir())
				}
				r.Eval("")
			}
		}
		vargs := c.Args(r, "-output=verbose")
		res := r.capslock(c.S.Dir, vargs...)
		stats := parseStats(res.Out)
		if len(stats) != len(counts) {
			r.Violate("stats/"+c.describe(), fmt.Sprintf("statistics list %d capabilities, the report has %d", len(stats), len(counts)), c.replay(r, vargs, map[string]string{"out": res.Out}), c.replayDir())
		}
		for cap, s := range stats {
			w := counts[cap]
			if w == nil {
				w = &cnt{}
			}
			if s.Direct != w.direct || s.Trans != w.trans || s.Count != s.Direct+s.Trans {
				r.Violate("stats/"+c.describe(), fmt.Sprintf("%s: statistics say %d references (%d direct, %d transitive), the report has %d direct and %d transitive entries", cap, s.Count, s.Direct, s.Trans, w.direct, w.trans), c.replay(r, vargs, map[string]string{"out": res.Out}), c.replayDir())
			}
			r.Count("statistics lines compared", 1)
		}
	})
	r.Require("direct entries", 200)
	r.Require("transitive entries", 200)
	r.Require("statistics lines compared", 30)
}

// checkType recomputes the type of an entry from the functions on its path.
func checkType(rr *RefResult, e *CapInfo, names map[string]string) string {
	if len(e.Path) == 0 {
		return "no path"
	}
	if n, ok := names[e.PackageDir]; !ok || n != e.PackageName {
		return fmt.Sprintf("package name %q, directory %q do not name a queried package", e.PackageName, e.PackageDir)
	}
	own := false
	for _, n := range rr.rp.nodes(e.fn()) {
		if p := fnPackage(n.Func); p != nil && p.Path() == e.PackageDir {
			own = true
		}
	}
	if !own {
		return fmt.Sprintf("%s is not declared in %s", e.fn(), e.PackageDir)
	}
	foreign := func(p string) bool { return p != e.PackageDir && strings.Contains(p, ".") }
	must, may := false, false
	for _, f := range e.Path {
		all, some := true, false
		for _, n := range rr.rp.nodes(f.Name) {
			var ps []string
			if p := declPackage(n.Func); p != nil {
				ps = []string{p.Path()}
			} else {
				all = false
				ps = wrapperPackages(n.Func)
			}
			for _, p := range ps {
				if foreign(p) {
					some = true
				} else {
					all = false
				}
			}
		}
		if some && all {
			must = true
		}
		if some {
			may = true
		}
	}
	switch e.CapabilityType {
	case "CAPABILITY_TYPE_DIRECT":
		if must {
			return "marked direct but the path goes through another package outside the standard library"
		}
	case "CAPABILITY_TYPE_TRANSITIVE":
		if !may {
			return "marked transitive but the path stays in the package and the standard library"
		}
	default:
		return fmt.Sprintf("type %q", e.CapabilityType)
	}
	return ""
}

// A StatLine is what the default or verbose output says about a capability.
type StatLine struct {
	Count, Direct, Trans int
	Split                bool
	Example              []string // function names
	Sites                []string
}

var statRE = regexp.MustCompile(`^(CAPABILITY_[A-Z_]+): (\d+) references(?: \((\d+) direct, (\d+) transitive\))?$`)

// parseStats parses the default and verbose outputs.
func parseStats(out string) map[string]*StatLine {
	stats := map[string]*StatLine{}
	var cur *StatLine
	inEx := false
	for _, l := range strings.Split(out, "\n") {
		if m := statRE.FindStringSubmatch(l); m != nil {
			cur = &StatLine{}
			cur.Count, _ = strconv.Atoi(m[2])
			if m[3] != "" {
				cur.Split = true
				cur.Direct, _ = strconv.Atoi(m[3])
				cur.Trans, _ = strconv.Atoi(m[4])
			}
			if stats[m[1]] != nil {
				stats[m[1]+" duplicated"] = cur
			} else {
				stats[m[1]] = cur
			}
			inEx = false
			continue
		}
		if strings.HasPrefix(l, "Example ") {
			inEx = true
			continue
		}
		if inEx && cur != nil && strings.HasPrefix(l, "  ") {
			l = strings.TrimSpace(l)
			site := ""
			if m := regexp.MustCompile(`^([^:\s]+:\d+:\d+):(.*)$`).FindStringSubmatch(l); m != nil {
				site, l = m[1], m[2]
			}
			cur.Example = append(cur.Example, l)
			cur.Sites = append(cur.Sites, site)
			continue
		}
		inEx = false
	}
	return stats
}
