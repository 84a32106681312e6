package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() { checks["C08"] = checkC08 }

// capExpr reads a capability expression by the documented rule.
func capExpr(expr string, names map[string]bool) (map[string]bool, bool) {
	all := map[string]bool{}
	for n := range names {
		all[n] = true
	}
	if expr == "" {
		return all, true
	}
	listed := map[string]bool{}
	neg, pos := 0, 0
	for _, item := range strings.Split(expr, ",") {
		if strings.HasPrefix(item, "-") {
			neg++
			item = item[1:]
		} else {
			pos++
		}
		switch {
		case names[item]:
			listed[item] = true
		case names["CAPABILITY_"+item]:
			listed["CAPABILITY_"+item] = true
		default:
			return nil, false
		}
	}
	if neg > 0 && pos > 0 {
		return nil, false
	}
	if pos > 0 {
		return listed, true
	}
	for n := range listed {
		delete(all, n)
	}
	return all, true
}

func genCapExpr(rnd *rand.Rand, names []string) string {
	switch rnd.Intn(30) {
	case 0:
		return ""
	case 1:
		return []string{",", "-", "--", " ", "-,", ",-", "all", "*", "none", "0", "2", "CAPABILITY_", "-CAPABILITY_", "!FILES", "+FILES", "FILES;NETWORK", "FILES NETWORK", "FILES|EXEC", "\n", "\x00", "−FILES", "FILES\n", "\tFILES"}[rnd.Intn(23)]
	}
	n := 1 + rnd.Intn(5)
	if rnd.Intn(10) == 0 {
		n = len(names)
	}
	neg := rnd.Intn(2) == 0
	var items []string
	for i := 0; i < n; i++ {
		s := names[rnd.Intn(len(names))]
		if n == len(names) {
			s = names[i]
		}
		if rnd.Intn(2) == 0 {
			s = strings.TrimPrefix(s, "CAPABILITY_")
		}
		if neg {
			s = "-" + s
		}
		if rnd.Intn(30) == 0 {
			// Corrupt an item.
			switch rnd.Intn(12) {
			case 0:
				s = ""
			case 1:
				s = "-" + s
			case 2:
				s = s + " "
			case 3:
				s = " " + s
			case 4:
				s = strings.ToLower(s)
			case 5:
				s = s[:len(s)-1]
			case 6:
				s = s + "S"
			case 7:
				s = strings.TrimPrefix(s, "-")
			case 8:
				s = "CAPABILITY_" + s
			case 9:
				s = strings.ReplaceAll(s, "_", "-")
			case 10:
				s = s + "-"
			case 11:
				k := rnd.Intn(len(s))
				s = s[:k] + string(rune(32+rnd.Intn(95))) + s[k:]
			}
		}
		items = append(items, s)
	}
	e := strings.Join(items, ",")
	switch rnd.Intn(60) {
	case 0:
		e += ","
	case 1:
		e = "," + e
	case 2:
		e = strings.Replace(e, ",", ",,", 1)
	case 3:
		e = strings.ReplaceAll(e, ",", ", ")
	}
	return e
}

func checkC08(r *Run) {
	r.rule = "one evaluation = one capability expression whose observed meaning (error, or membership of every capability) was compared with the rule; non-trivial = distinct expression"
	r.assume = []string{"the known capability names are those of the protocol definition, which include at least the documented ones"}
	rnd := r.rng("expr")
	res, pr := r.lib(r.Lib, []LibOp{{Op: "capnames"}})
	if res == nil || res[0].Panic != "" {
		r.inconclusive("library driver failed: %s", clip(pr.Err, 500))
	}
	names := map[string]bool{}
	for _, n := range res[0].List {
		names[n] = true
	}
	for _, c := range allCaps {
		if !names["CAPABILITY_"+c] {
			r.Violate("name/"+c, "capability "+c+" is not known", nil, "")
		}
		names["CAPABILITY_"+c] = true
	}
	list := sortedKeys(names)
	var exprs []string
	// Every single name, in every spelling, and every pair of spellings.
	for _, n := range list {
		s := strings.TrimPrefix(n, "CAPABILITY_")
		exprs = append(exprs, n, s, "-"+n, "-"+s, n+","+s, "-"+n+",-"+s, n+",-"+s, "-"+s+","+n, s+",", ","+s, "-"+s+",", strings.ToLower(s), s+" ", "CAPABILITY_"+n, "--"+s)
		for _, m := range list {
			exprs = append(exprs, n+","+m, "-"+m+",-"+n, m+",-"+n, "-"+m+","+n)
		}
	}
	for i := 0; i < r.pick(20000, 300000); i++ {
		exprs = append(exprs, genCapExpr(rnd, list))
	}
	res, pr = r.lib(r.Lib, []LibOp{{Op: "capset", Exprs: exprs}})
	if res == nil || res[0].Panic != "" || len(res[0].List) != len(exprs) {
		p := ""
		if res != nil {
			p = res[0].Panic
		}
		r.Violate("crash", fmt.Sprintf("parsing capability expressions crashed: %s %s", clip(pr.Err, 1000), clip(p, 1000)), nil, "")
		return
	}
	for i, e := range exprs {
		set, ok := capExpr(e, names)
		want := "error"
		if ok {
			want = strings.Join(sortedKeys(set), ",")
			r.Count("accepted expressions", 1)
		} else {
			r.Count("rejected expressions", 1)
		}
		if got := res[0].List[i]; got != want {
			r.Violate("expr/"+fmt.Sprintf("%q", e), fmt.Sprintf("expression %q: got %s, want %s", e, got, want), map[string]string{"expr.txt": e}, "")
		}
		r.Eval(e)
	}
	// The command: exit status, streams, and effect on outputs.
	src := "package a\n\nimport (\n\t\"net\"\n\t\"os\"\n\t\"os/exec\"\n\t\"runtime\"\n\t\"reflect\"\n\t\"unsafe\"\n\t\"syscall\"\n)\n\nfunc A() { os.ReadFile(\"x\") }\nfunc B() { net.Dial(\"tcp\", \"x\") }\nfunc C() { os.Getenv(\"x\") }\nfunc D() { os.Setenv(\"x\", \"y\") }\nfunc E() { exec.Command(\"x\").Run() }\nfunc F() { runtime.GC() }\nfunc G() { reflect.Copy(reflect.Value{}, reflect.Value{}) }\nfunc H(p unsafe.Pointer) *int { return (*int)(p) }\nfunc I() { syscall.Getpid() }\nfunc J() { os.Pipe() }\n"
	s := r.srcSubject("caps", map[string]string{"a/a.go": src}, "./a")
	base := r.capslock(s.Dir, "-packages", "./a", "-output=m")
	present := map[string]bool{}
	for _, l := range strings.Fields(base.Out) {
		present[l] = true
	}
	if len(present) < 6 {
		r.Violate("present", fmt.Sprintf("only %v reported", sortedKeys(present)), nil, s.Dir)
	}
	var ces []string
	fixed := []string{"FILES", "-FILES", "CAPABILITY_FILES,NETWORK", "-FILES,-CAPABILITY_NETWORK", "FILES,-NETWORK", "files", "FILES,", ",FILES", "-", "SAFE", "-SAFE", "UNSPECIFIED", "FILES,FILES", "--FILES", "all", " FILES"}
	ces = append(ces, fixed...)
	for i := 0; i < r.pick(24, 150); i++ {
		ces = append(ces, genCapExpr(rnd, list))
	}
	r.parallel(len(ces), 6, func(i int) {
		e := ces[i]
		if strings.ContainsRune(e, 0) {
			return
		}
		set, ok := capExpr(e, names)
		for _, mode := range []string{"graph", "json"} {
			args := []string{"-packages", "./a", "-output=" + mode, "-capabilities=" + e}
			if mode == "json" {
				args = append(args, "-granularity=intermediate")
			}
			res := r.capslock(s.Dir, args...)
			if !ok {
				if res.Code != 2 || res.Out != "" || strings.TrimSpace(res.Err) == "" {
					r.Violate("cli/"+e, fmt.Sprintf("invalid expression %q with output %s: exit %d, %d bytes of output, message %q", e, mode, res.Code, len(res.Out), clip(res.Err, 200)), map[string]string{"expr.txt": e}, s.Dir)
				}
				r.Count("command lines rejected", 1)
				r.Eval("cli " + mode + " " + e)
				continue
			}
			if res.Code != 0 {
				r.Violate("cli/"+e, fmt.Sprintf("valid expression %q with output %s: exit %d: %s", e, mode, res.Code, clip(res.Err, 300)), map[string]string{"expr.txt": e}, s.Dir)
				continue
			}
			got := map[string]bool{}
			if mode == "graph" {
				edges, err := parseDOT(res.Out)
				if err != nil {
					r.Violate("cli/"+e, fmt.Sprintf("graph for %q: %v", e, err), nil, s.Dir)
					continue
				}
				for _, ed := range edges {
					if strings.HasPrefix(ed[1], "CAPABILITY_") {
						got[ed[1]] = true
					}
				}
			} else {
				rep, err := parseReport(res.Out)
				if err != nil {
					r.Violate("cli/"+e, fmt.Sprintf("report for %q: %v", e, err), nil, s.Dir)
					continue
				}
				for _, ci := range rep.CapabilityInfo {
					got[ci.Capability] = true
				}
			}
			want := map[string]bool{}
			for c := range present {
				if set[c] {
					want[c] = true
				}
			}
			if m, x := diffSets(got, want); len(m)+len(x) > 0 {
				r.Violate("cli/"+e, fmt.Sprintf("expression %q with output %s: missing %v, unexpected %v", e, mode, m, x), map[string]string{"expr.txt": e}, s.Dir)
			}
			r.Count("command lines accepted", 1)
			r.Eval("cli " + mode + " " + e)
			r.Sample(map[string]any{"expression": e, "output": mode, "capabilities": sortedKeys(got)})
		}
	})
	r.Require("accepted expressions", 1000)
	r.Require("rejected expressions", 1000)
	r.Require("command lines rejected", 10)
	r.Require("command lines accepted", 10)
}
