package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() { checks["C05"] = checkC05 }

// randomCaps returns a random -capabilities expression.
func randomCaps(rnd *rand.Rand, in []string) string {
	if len(in) == 0 || rnd.Intn(4) == 0 {
		in = reportCaps
	}
	neg := ""
	if rnd.Intn(2) == 0 {
		neg = "-"
	}
	var parts []string
	for i := 1 + rnd.Intn(3); i > 0; i-- {
		c := in[rnd.Intn(len(in))]
		if rnd.Intn(2) == 0 {
			c = "CAPABILITY_" + c
		}
		parts = append(parts, neg+c)
	}
	return strings.Join(parts, ",")
}

func checkC05(r *Run) {
	r.rule = "one evaluation = one report at some granularity compared with the exact projection; non-trivial = the projection is non-empty, distinguished by case, granularity and options"
	r.assume = []string{"a package that occurs on chains only as the receiver or parameter type of a compiler-generated wrapper may or may not be listed at intermediate granularity"}
	r.forEachRefCase(r.pathSubjects(r.pick(12, 80)), r.pick(1, 5), func(c *Case, rr *RefResult) {
		rnd := r.rng("caps/" + c.describe())
		fn, fargs := r.report(c)
		fnO, _ := r.report(c, "-omit_paths")
		pk, pargs := r.report(c, "-granularity=package")
		pkO, _ := r.report(c, "-granularity=package", "-omit_paths")
		if fn == nil || fnO == nil || pk == nil || pkO == nil {
			return
		}
		viol := func(what string, args []string, format string, a ...any) {
			r.Violate(what+"/"+c.describe(), fmt.Sprintf(format, a...), c.replay(r, args, nil), c.replayDir())
		}
		// Package granularity is the projection of function granularity, and of
		// the reference.
		want := map[string]bool{}
		for k := range fn.pkgPairs() {
			want[k] = true
		}
		ref := map[string]bool{}
		for k := range rr.PkgPairs() {
			ref[k] = true
		}
		got := map[string]bool{}
		for k, n := range pk.pkgPairs() {
			got[k] = true
			if n != 1 {
				viol("pkgdup", pargs, "package granularity lists %s %d times", k, n)
			}
		}
		if m, x := diffSets(got, want); len(m)+len(x) > 0 {
			viol("pkg", pargs, "package granularity: missing %v, unexpected %v compared with function granularity", head(m, 10), head(x, 10))
		}
		if m, x := diffSets(got, ref); len(m)+len(x) > 0 {
			viol("pkgref", pargs, "package granularity: missing %v, unexpected %v compared with the reference", head(m, 10), head(x, 10))
		}
		r.Count("package pairs compared", len(want))
		r.Eval(caseKey(c, "package", len(want)))
		// Omitting paths changes nothing else.
		if d := sameModuloPaths(fn, fnO, true); d != "" {
			viol("omitfn", fargs, "-omit_paths at function granularity: %s", d)
		}
		if d := sameModuloPaths(pk, pkO, false); d != "" {
			viol("omitpkg", pargs, "-omit_paths at package granularity: %s", d)
		}
		r.Eval(caseKey(c, "omit", len(want)))
		// Intermediate granularity, for some capability sets.
		var present []string
		for cp := range rr.Reach {
			present = append(present, cp)
		}
		sortStrings(present)
		for k := 0; k < r.pick(2, 4); k++ {
			cc := *c
			if k > 0 {
				cc.Caps = randomCaps(rnd, present)
			}
			im, iargs := r.report(&cc, "-granularity=intermediate")
			imO, _ := r.report(&cc, "-granularity=intermediate", "-omit_paths")
			if im == nil || imO == nil {
				continue
			}
			must, may := rr.IntermediatePairs(cc.capHas)
			gotI := map[string]bool{}
			for k, n := range im.pkgPairs() {
				gotI[k] = true
				if n != 1 {
					viol("intdup", iargs, "intermediate granularity lists %s %d times", k, n)
				}
			}
			m, x := diffSets(gotI, must)
			var bad []string
			for _, e := range x {
				if !may[e] {
					bad = append(bad, e)
				}
			}
			if len(m)+len(bad) > 0 {
				viol("int", iargs, "intermediate granularity (capabilities %q): missing %v, unexpected %v", cc.Caps, head(m, 10), head(bad, 10))
			}
			if d := sameModuloPaths(im, imO, false); d != "" {
				viol("omitint", iargs, "-omit_paths at intermediate granularity: %s", d)
			}
			r.Count("intermediate pairs compared", len(must))
			r.Eval(caseKey(c, "intermediate "+cc.Caps, len(must)))
			if len(must) > 0 {
				r.Sample(map[string]any{"case": c.describe(), "capabilities": cc.Caps, "intermediate pairs": len(must), "wrapper-only": len(may)})
			}
		}
		// The capability set must not affect function granularity pairs other
		// than as documented: it applies to graph and intermediate output only.
	})
	r.Require("package pairs compared", 50)
	r.Require("intermediate pairs compared", 200)
}

func caseKey(c *Case, what string, n int) string {
	if n == 0 {
		return ""
	}
	return c.describe() + " " + what
}

// sameModuloPaths compares a report with one made with -omit_paths.
func sameModuloPaths(full, omit *Report, keepFirst bool) string {
	if len(full.CapabilityInfo) != len(omit.CapabilityInfo) {
		return fmt.Sprintf("%d entries instead of %d", len(omit.CapabilityInfo), len(full.CapabilityInfo))
	}
	count := map[string]int{}
	key := func(e *CapInfo) string {
		k := e.PackageName + " " + e.PackageDir + " " + e.Capability + " " + e.CapabilityType
		if keepFirst {
			k += " " + e.fn()
		}
		return k
	}
	for _, e := range full.CapabilityInfo {
		count[key(e)]++
	}
	for _, e := range omit.CapabilityInfo {
		if count[key(e)]--; count[key(e)] < 0 {
			return "unexpected entry " + key(e)
		}
		if e.DepPath != "" || len(e.Path) > 1 || (len(e.Path) == 1 && (!keepFirst || e.Path[0].Site != nil)) {
			return "entry still has a path: " + key(e)
		}
	}
	if fmt.Sprint(full.ModuleInfo) != fmt.Sprint(omit.ModuleInfo) || fmt.Sprint(full.PackageInfo) != fmt.Sprint(omit.PackageInfo) {
		return "module or package information differs"
	}
	return ""
}
