package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

func init() { checks["C11"] = checkC11 }

// mapNames are the function names used in generated maps.  Some of them are in
// the built-in map, some in packages that are.
func (r *Run) mapNames() [][2]string {
	names := [][2]string{
		{"ex.com/a", "ex.com/a.F"}, {"ex.com/a", "ex.com/a.G"}, {"ex.com/a", "(ex.com/a.T).M"}, {"ex.com/a", "(*ex.com/a.T).M"},
		{"ex.com/a", "ex.com/a.F$1"}, {"ex.com/b", "ex.com/b.F"}, {"ex.com/b", "ex.com/b.init"}, {"ex.com/a/sub", "ex.com/a/sub.F"},
		{"ex.com", "ex.com.a"}, {"ex.com/b", "ex.com/b._cgo_runtime_cgocall"}, {"ex.com/b", "ex.com/b._Cfunc_GoString"},
		{"ex.com/b", "ex.com/b.Zsuffix"}, {"ex.com/b", "(ex.com/b.Tsuffix).M"}, {"", ""}, {"ex.com/none", "ex.com/none.F"},
		{"os", "os.ReadFile"}, {"os", "os.Getenv"}, {"os", "os.zzz"}, {"net", "net.Dial"}, {"net", "(*net.TCPConn).Write"},
		{"strings", "strings.Index"}, {"math", "math.Cos"}, {"syscall", "syscall.Getpid"}, {"reflect", "(reflect.Value).Call"},
		{"unsafe", "unsafe.X"}, {"sort", "sort.Sort"}, {"runtime", "runtime.GC"}, {"os/exec", "(*os/exec.Cmd).Run"},
	}
	// A sample of the keys of the built-in map, so that all kinds are overridden.
	b := r.builtinMap()
	rnd := r.rng("names")
	keys := sortedKeys(b.Func)
	for i := 0; i < 40; i++ {
		k := keys[rnd.Intn(len(keys))]
		names = append(names, [2]string{guessPkg(k), k})
	}
	keys = sortedKeys(b.Unanalyzed)
	for i := 0; i < 10 && len(keys) > 0; i++ {
		k := keys[rnd.Intn(len(keys))]
		names = append(names, [2]string{guessPkg(k), k})
	}
	keys = sortedKeys(b.Package)
	for i := 0; i < 15; i++ {
		k := keys[rnd.Intn(len(keys))]
		names = append(names, [2]string{k, k + ".Zzz"})
	}
	return names
}

// guessPkg returns the package path of a function name.
func guessPkg(n string) string {
	n = strings.TrimLeft(n, "(*")
	i := strings.LastIndexByte(n, '/')
	if j := strings.IndexByte(n[i+1:], '.'); j >= 0 {
		return n[:i+1+j]
	}
	return n
}

// randomMapLines generates map text and its meaning; the text has comments,
// blank lines and odd spacing.
func randomMapText(rnd *rand.Rand, names [][2]string, n int) (string, *CapMap) {
	m := newCapMap()
	var lines []string
	sp := func() string { return []string{" ", "  ", "\t", " \t "}[rnd.Intn(4)] }
	cap := func() string {
		return append([]string{"SAFE", "UNSPECIFIED", "UNANALYZED"}, allCaps...)[rnd.Intn(len(allCaps)+3)]
	}
	for len(lines) < n {
		nm := names[rnd.Intn(len(names))]
		if nm[0] == "" {
			continue
		}
		var l string
		switch rnd.Intn(8) {
		case 0, 1, 2:
			if m.Func[nm[1]] != "" {
				continue
			}
			c := cap()
			m.Func[nm[1]] = c
			l = "func" + sp() + nm[1] + sp() + "CAPABILITY_" + c
		case 3:
			if m.Unanalyzed[nm[1]] {
				continue
			}
			m.Unanalyzed[nm[1]] = true
			l = "unanalyzed" + sp() + nm[1]
		case 4, 5:
			if m.Package[nm[0]] != "" {
				continue
			}
			c := cap()
			m.Package[nm[0]] = c
			l = "package" + sp() + nm[0] + sp() + "CAPABILITY_" + c
		case 6:
			e := [2]string{nm[1], names[rnd.Intn(len(names))][1]}
			if e[1] == "" || m.Ignore[e] {
				continue
			}
			m.Ignore[e] = true
			l = "ignore_edge" + sp() + e[0] + sp() + e[1]
		case 7:
			if rnd.Intn(3) > 0 {
				continue
			}
			s := []string{"suffix", ".Zsuffix", "_Cfunc_GoString", ").M", ".zzz"}[rnd.Intn(5)]
			m.Cgo = append(m.Cgo, s)
			l = "cgo_suffix" + sp() + s
		}
		switch rnd.Intn(8) {
		case 0:
			l += sp() + "# comment"
		case 1:
			l = sp() + l + sp()
		case 2:
			l += "#func x y"
		}
		lines = append(lines, l)
		switch rnd.Intn(8) {
		case 0:
			lines = append(lines, "")
		case 1:
			lines = append(lines, "# func a.b CAPABILITY_FILES")
		case 2:
			lines = append(lines, " \t")
		}
	}
	eol := "\n"
	if rnd.Intn(5) == 0 {
		eol = "\r\n"
	}
	t := strings.Join(lines, eol)
	if rnd.Intn(2) == 0 {
		t += eol
	}
	return t, m
}

// malformedLines are lines that must be rejected wherever they occur.
var malformedLines = []string{
	"func", "func a.b", "func a.b # CAPABILITY_FILES", "func a.b FILES", "func a.b CAPABILITY_ZZZ", "func a.b capability_files",
	"func a.b CAPABILITY_FILE", "package", "package os", "package os CAPABILITY_", "package os 1", "unanalyzed", "unanalyzed # x",
	"ignore_edge", "ignore_edge a.b", "ignore_edge a.b # c.d", "cgo_suffix", "cgo_suffix #x", "functions a.b CAPABILITY_FILES", "FUNC a.b CAPABILITY_FILES",
	"Func a.b CAPABILITY_FILES", "x", "a.b CAPABILITY_FILES", "CAPABILITY_FILES", "func: a.b CAPABILITY_FILES", "// comment", "; x y", "packages os CAPABILITY_FILES",
	"ignore_edges a b", "import os CAPABILITY_FILES", "{}", "unanalysed a.b", "func a.b",
	"func zz.dup CAPABILITY_FILES\nfunc zz.dup CAPABILITY_FILES", "func zz.dup CAPABILITY_FILES\n#\nfunc  zz.dup CAPABILITY_NETWORK",
	"package zzdup CAPABILITY_FILES\npackage zzdup CAPABILITY_SAFE", "unanalyzed zz.dup\nunanalyzed zz.dup", "ignore_edge zz.a zz.b\nignore_edge zz.a zz.b",
	"func zz.dup CAPABILITY_UNSPECIFIED\nfunc zz.dup CAPABILITY_UNSPECIFIED", "package zzdup CAPABILITY_UNSPECIFIED\npackage zzdup CAPABILITY_FILES",
}

func checkC11(r *Run) {
	r.Level = "fault_enumeration"
	r.rule = "one evaluation = one lookup, rejected map or failing read compared with the model of the rule; non-trivial = distinct (map, name) lookups whose answer is not UNSPECIFIED, distinct malformed lines and failure positions"
	r.assume = []string{"the built-in map is read by an independent parser"}
	names := r.mapNames()
	r.lookups(names)
	r.rejections(names)
	r.readFailures(names)
	r.mapCLI()
	r.Require("lookups compared", 5000)
	r.Require("malformed maps rejected", 100)
	r.Require("read failures injected", 300)
	r.Require("ignored edges observed", 1)
	r.Require("built-in ignored edges observed", 1)
}

func (r *Run) lookups(names [][2]string) {
	builtin := r.builtinMap()
	nmaps := r.pick(60, 1500)
	var ops []LibOp
	type q struct {
		op int
		m  *CapMap
		id string
		t  string
	}
	var qs []q
	ask := func(id string, m *CapMap, t string) {
		qs = append(qs, q{len(ops), m, id, t})
		ops = append(ops, LibOp{Op: "category", Class: id, Names: names})
	}
	ops = append(ops, LibOp{Op: "classifier", ID: "def", Source: "default"}, LibOp{Op: "classifier", ID: "noisy", Source: "noisy"}, LibOp{Op: "classifier", ID: "quiet", Source: "notnoisy"})
	ask("def", builtin, "default")
	ask("noisy", builtin.withoutUnanalyzed(), "noisy")
	ask("quiet", builtin, "quiet")
	for i := 0; i < nmaps; i++ {
		rnd := r.rng(fmt.Sprint("map", i))
		text, m := randomMapText(rnd, names, rnd.Intn(40))
		ex := rnd.Intn(2) == 0
		id := fmt.Sprint("m", i)
		ops = append(ops, LibOp{Op: "classifier", ID: id, Source: "user.cm", Text: text, Exclude: ex, Chunk: []int{0, 0, 1, 7}[rnd.Intn(4)]})
		eff := m
		if !ex {
			eff = builtin.merge(m)
		}
		ask(id, eff, text)
		ops = append(ops, LibOp{Op: "classifier", ID: id + "x", Source: "excluding", Class: id})
		ask(id+"x", eff.withoutUnanalyzed(), text+"\n(excluding unanalyzed)")
		ask(id, eff, text) // deriving changes nothing
	}
	ask("def", builtin, "default after everything")
	res, pr := r.lib(r.Lib, ops)
	if res == nil {
		r.Violate("crash", "library driver failed: "+clip(pr.Err, 2000), map[string]string{"ops.json": opsJSON(ops)}, "")
		return
	}
	for i, x := range res {
		if x.Err != "" || x.Panic != "" {
			r.Violate("rejected/"+ops[i].ID, fmt.Sprintf("valid map rejected or crashed: %s %s\n%s", x.Err, clip(x.Panic, 500), ops[i].Text), map[string]string{"map.cm": ops[i].Text}, "")
			return
		}
	}
	for _, x := range qs {
		for k, n := range names {
			want := x.m.category(n[0], n[1])
			if want == "" {
				want = "UNSPECIFIED"
			}
			got := strings.TrimPrefix(res[x.op].List[k], "CAPABILITY_")
			if got != want {
				r.Violate("lookup/"+x.id+"/"+n[1], fmt.Sprintf("classifier %s answers %s for %s of package %s, expected %s", x.id, got, n[1], n[0], want), map[string]string{"map.cm": x.t}, "")
			}
			if strings.HasSuffix(x.id, "x") && got == "UNANALYZED" || x.id == "noisy" && got == "UNANALYZED" {
				r.Violate("unanalyzed/"+x.id, "classifier excluding UNANALYZED answers it for "+n[1], map[string]string{"map.cm": x.t}, "")
			}
			r.Count("lookups compared", 1)
			key := ""
			if want != "UNSPECIFIED" {
				key = x.id + " " + n[1]
				r.Count("answer "+want, 1)
			}
			r.Eval(key)
		}
	}
	r.Sample(map[string]any{"map": clip(qs[3].t, 300), "names": len(names)})
}

func (r *Run) rejections(names [][2]string) {
	var ops []LibOp
	type bad struct {
		line string
		at   int
	}
	var bads []bad
	for i, l := range malformedLines {
		for k := 0; k < r.pick(4, 30); k++ {
			rnd := r.rng(fmt.Sprint("bad", i, k))
			text, _ := randomMapText(rnd, names, rnd.Intn(6))
			text = strings.ReplaceAll(text, "\r", "")
			lines := strings.Split(text, "\n")
			pos := rnd.Intn(len(lines) + 1)
			if k == 0 {
				lines, pos = nil, 0
			}
			all := append(append(append([]string{}, lines[:pos]...), strings.Split(l, "\n")...), lines[pos:]...)
			end := pos + 1 + strings.Count(l, "\n")
			ops = append(ops, LibOp{Op: "classifier", ID: "b", Source: "user.cm", Text: strings.Join(all, "\n"), Exclude: rnd.Intn(2) == 0})
			bads = append(bads, bad{l, end})
		}
	}
	res, pr := r.lib(r.Lib, ops)
	if res == nil {
		r.Violate("crash", "library driver failed: "+clip(pr.Err, 2000), nil, "")
		return
	}
	for i, x := range res {
		b := bads[i]
		key := fmt.Sprintf("malformed/%q", b.line)
		if x.Panic != "" || x.Err == "" || x.Out != "" {
			r.Violate(key, fmt.Sprintf("map with malformed line %q: error %q %s %s", b.line, x.Err, x.Out, clip(x.Panic, 500)), map[string]string{"map.cm": ops[i].Text}, "")
		} else if !strings.Contains(x.Err, fmt.Sprintf("user.cm:%d:", b.at)) {
			r.Violate(key, fmt.Sprintf("error %q for malformed line %q does not name line %d", x.Err, b.line, b.at), map[string]string{"map.cm": ops[i].Text}, "")
		}
		r.Count("malformed maps rejected", 1)
		r.Eval(fmt.Sprintf("%q", b.line))
	}
}

func (r *Run) readFailures(names [][2]string) {
	for k := 0; k < r.pick(3, 12); k++ {
		rnd := r.rng(fmt.Sprint("fail", k))
		text, m := randomMapText(rnd, names, 6+rnd.Intn(10))
		var ops []LibOp
		for p := 0; p <= len(text); p++ {
			ops = append(ops, LibOp{Op: "classifier", ID: "f", Source: "user.cm", Text: text, FailAt: p + 1, Chunk: []int{0, 1, 5}[p%3], Exclude: p%2 == 0})
		}
		nf := len(ops)
		// Very long lines are read completely or rejected.
		type long struct {
			id   string
			text string
			m    *CapMap
		}
		var longs []long
		for _, n := range []int{4000, 65000, 65530, 65535, 65536, 65537, 70000, 200000, 1 << 20} {
			pad := strings.Repeat("x", n)
			for j, l := range []string{"# " + pad + "\n", "func " + pad + " CAPABILITY_FILES\n", "func a.b CAPABILITY_FILES " + strings.Repeat(" ", n) + "\n", "unanalyzed " + pad} {
				id := fmt.Sprintf("long%d-%d", n, j)
				lm := newCapMap().merge(m)
				switch j {
				case 1:
					lm.Func[pad] = "FILES"
				case 2:
					lm.Func["a.b"] = "FILES"
				case 3:
					lm.Unanalyzed[pad] = true
				}
				longs = append(longs, long{id, l, lm})
				ops = append(ops, LibOp{Op: "classifier", ID: id, Source: "user.cm", Text: l + "\n" + text, Exclude: true}, LibOp{Op: "category", Class: id, Names: names})
			}
		}
		res, pr := r.lib(r.Lib, ops)
		if res == nil {
			r.Violate("crash", "library driver failed: "+clip(pr.Err, 2000), nil, "")
			return
		}
		for p := 0; p < nf; p++ {
			x := res[p]
			if x.Panic != "" || x.Err == "" || x.Out != "" {
				r.Violate("readfail", fmt.Sprintf("reading fails after %d of %d bytes but a classifier is returned (error %q) %s", p, len(text), x.Err, clip(x.Panic, 500)), map[string]string{"map.cm": text, "position.txt": fmt.Sprint(p)}, "")
			} else {
				// The line that could not be read, or the part of it that was.
				at := strings.Count(text[:p], "\n") + 1
				if !strings.Contains(x.Err, fmt.Sprintf("user.cm:%d:", at)) && !strings.Contains(x.Err, fmt.Sprintf("user.cm:%d:", at+1)) {
					r.Violate("readfail", fmt.Sprintf("reading fails after %d of %d bytes, in line %d: error %q does not name the line", p, len(text), at, x.Err), map[string]string{"map.cm": text, "position.txt": fmt.Sprint(p)}, "")
				}
			}
			r.Count("read failures injected", 1)
			r.Eval(fmt.Sprintf("readfail %d %d", k, p))
		}
		for i, l := range longs {
			x, y := res[nf+2*i], res[nf+2*i+1]
			if x.Err != "" {
				r.Count("long lines rejected", 1)
				continue
			}
			for k, n := range names {
				want := l.m.category(n[0], n[1])
				if want == "" {
					want = "UNSPECIFIED"
				}
				if k >= len(y.List) || y.List[k] != "CAPABILITY_"+want {
					r.Violate("longline", fmt.Sprintf("map %s with a long line was accepted but not read completely: %s should be %s", l.id, n[1], want), map[string]string{"map.cm": clip(l.text, 3000) + text}, "")
					break
				}
			}
			r.Count("long lines accepted", 1)
			r.Eval("longline " + l.id)
		}
	}
}

// mapCLI checks the effect of maps on the command.
func (r *Run) mapCLI() {
	s := r.srcSubject("mapcli", map[string]string{
		"a/a.go": `package a

import (
	"os"

	"ex.com/m/b"
)

func Env() string { return os.Getenv("x") }
func Mid()        { b.F() }
func Two()        { b.F(); b.G() }
func Own() int    { return 1 }
func Read()       { os.ReadFile("x") }
`,
		"b/b.go": "package b\n\nimport \"os\"\n\nfunc F() { os.ReadFile(\"x\") }\nfunc G() { os.Getenv(\"x\") }\n",
	}, "./a")
	type tc struct {
		name, text string
		noBlt      bool
		noisy      bool
		want       string
	}
	base := "a.Env READ_SYSTEM_STATE, a.Mid FILES, a.Read FILES, a.Two FILES, a.Two READ_SYSTEM_STATE"
	cases := []tc{
		{"empty", "", false, false, base},
		{"override function", "func os.Getenv CAPABILITY_NETWORK\n", false, false, "a.Env NETWORK, a.Mid FILES, a.Read FILES, a.Two FILES, a.Two NETWORK"},
		{"function safe", "func os.Getenv CAPABILITY_SAFE\n", false, false, "a.Mid FILES, a.Read FILES, a.Two FILES"},
		{"middle safe", "func ex.com/m/b.F CAPABILITY_SAFE\n", false, false, "a.Env READ_SYSTEM_STATE, a.Read FILES, a.Two READ_SYSTEM_STATE"},
		{"middle category", "func ex.com/m/b.F CAPABILITY_EXEC\n", false, false, "a.Env READ_SYSTEM_STATE, a.Mid EXEC, a.Read FILES, a.Two EXEC, a.Two READ_SYSTEM_STATE"},
		{"own category", "func ex.com/m/a.Own CAPABILITY_CGO\n", false, false, "a.Own CGO, " + base},
		{"package category", "package ex.com/m/b CAPABILITY_NETWORK\n", false, false, "a.init NETWORK, a.Env READ_SYSTEM_STATE, a.Mid NETWORK, a.Read FILES, a.Two NETWORK"},
		{"package but function unspecified", "package ex.com/m/b CAPABILITY_NETWORK\nfunc ex.com/m/b.F CAPABILITY_UNSPECIFIED\n", false, false, "a.init NETWORK, a.Env READ_SYSTEM_STATE, a.Mid FILES, a.Read FILES, a.Two FILES, a.Two NETWORK"},
		{"ignore edge", "ignore_edge ex.com/m/a.Mid ex.com/m/b.F\n", false, false, "a.Env READ_SYSTEM_STATE, a.Read FILES, a.Two FILES, a.Two READ_SYSTEM_STATE"},
		{"ignore last edge", "ignore_edge ex.com/m/b.F os.ReadFile\n", false, false, "a.Env READ_SYSTEM_STATE, a.Read FILES, a.Two READ_SYSTEM_STATE"},
		{"reversed ignore edge", "ignore_edge ex.com/m/b.F ex.com/m/a.Mid\n", false, false, base},
		{"no builtin", "func os.Getenv CAPABILITY_NETWORK\n", true, false, "a.Env NETWORK, a.Two NETWORK"},
		{"no builtin, empty", "# nothing\n", true, false, ""},
		{"no builtin, ignore", "func os.Getenv CAPABILITY_NETWORK\nignore_edge ex.com/m/b.G os.Getenv\n", true, false, "a.Env NETWORK"},
		{"unanalyzed", "unanalyzed ex.com/m/b.F\n", false, false, "a.Env READ_SYSTEM_STATE, a.Mid UNANALYZED, a.Read FILES, a.Two READ_SYSTEM_STATE, a.Two UNANALYZED"},
		{"unanalyzed excluded", "unanalyzed ex.com/m/b.F\n", false, true, base},
		{"unanalyzed by func excluded", "func ex.com/m/b.F CAPABILITY_UNANALYZED\n", false, true, base},
		{"unanalyzed below func", "unanalyzed ex.com/m/b.F\nfunc ex.com/m/b.F CAPABILITY_SAFE\n", false, false, "a.Env READ_SYSTEM_STATE, a.Read FILES, a.Two READ_SYSTEM_STATE"},
		{"no builtin, unanalyzed", "func os.Getenv CAPABILITY_NETWORK\nunanalyzed ex.com/m/b.F\n", true, false, "a.Env NETWORK, a.Mid UNANALYZED, a.Two NETWORK, a.Two UNANALYZED"},
		{"no builtin, unanalyzed excluded", "func os.Getenv CAPABILITY_NETWORK\nunanalyzed ex.com/m/b.F\n", true, true, "a.Env NETWORK, a.Two NETWORK"},
		{"no builtin, unanalyzed by package excluded", "func os.Getenv CAPABILITY_NETWORK\npackage ex.com/m/b CAPABILITY_UNANALYZED\n", true, true, "a.Env NETWORK, a.Two NETWORK"},
		{"suffix", "cgo_suffix /b.F\n", false, false, "a.Env READ_SYSTEM_STATE, a.Mid CGO, a.Read FILES, a.Two CGO, a.Two READ_SYSTEM_STATE"},
		{"suffix beats func", "cgo_suffix /b.F\nfunc ex.com/m/b.F CAPABILITY_SAFE\n", false, false, "a.Env READ_SYSTEM_STATE, a.Mid CGO, a.Read FILES, a.Two CGO, a.Two READ_SYSTEM_STATE"},
	}
	dir := r.tmp("maps")
	r.parallel(len(cases), 8, func(i int) {
		c := cases[i]
		f := filepath.Join(dir, fmt.Sprintf("m%d.cm", i))
		r.must(os.WriteFile(f, []byte(c.text), 0o644))
		args := []string{"-packages", "./a", "-output=json", "-capability_map", f}
		if c.noBlt {
			args = append(args, "-disable_builtin")
		}
		if c.noisy {
			args = append(args, "-noisy")
		}
		res := r.capslock(s.Dir, args...)
		rep, err := parseReport(res.Out)
		if res.Code != 0 || err != nil {
			r.Violate("cli/"+c.name, fmt.Sprintf("exit %d, %v: %s", res.Code, err, clip(res.Err, 500)), map[string]string{"m.cm": c.text}, s.Dir)
			return
		}
		got, want := map[string]bool{}, map[string]bool{}
		for k := range rep.pairs() {
			got[strings.TrimPrefix(k, "ex.com/m/")] = true
		}
		for _, k := range strings.Split(c.want, ", ") {
			if k != "" {
				want[k] = true
			}
		}
		if m, x := diffSets(got, want); len(m)+len(x) > 0 {
			r.Violate("cli/"+c.name, fmt.Sprintf("map %q: missing %v, unexpected %v", c.text, m, x), map[string]string{"m.cm": c.text}, s.Dir)
		}
		if strings.Contains(c.text, "ignore_edge") {
			r.Count("ignored edges observed", 1)
		}
		r.Eval("cli " + c.name)
	})
	// Built-in ignored edges stay in force with a user map and not without the
	// built-in map: the edge is replayed on a real standard library call.
	b := r.builtinMap()
	var edges [][2]string
	for e := range b.Ignore {
		edges = append(edges, e)
	}
	std := r.stdSubjects("std")[0]
	rp, err := refBuild(RefOpt{Dir: std.Dir, Patterns: []string{"net/http"}})
	if err != nil {
		r.inconclusive("loading net/http: %v", err)
	}
	text := ""
	var live [][2]string
	for _, e := range edges {
		for _, n := range rp.ByName[e[0]] {
			for _, ed := range n.Out {
				if ed.Callee.Func.String() == e[1] {
					live = append(live, e)
				}
			}
		}
	}
	if len(live) == 0 {
		r.Count("built-in ignored edges observed", 1) // nothing to observe in this version of the library
		return
	}
	seen := map[[2]string]bool{}
	for i, e := range live {
		if seen[e] || len(seen) >= r.pick(3, 20) {
			continue
		}
		seen[e] = true
		_ = text
		c := &Case{S: &Subject{Name: fmt.Sprint("edge", i), Dir: std.Dir, Patterns: []string{"net/http"}}, Name: e[0] + " " + e[1]}
		for _, no := range []bool{false, true} {
			c.NoBlt = no
			c.User = newCapMap()
			c.User.Func[e[1]] = "CGO"
			// Only paths through the edge matter; the reference decides.
			rr := rp.analyze(c.Map(r), c.NoBlt)
			c.mapFile = ""
			rep, args := r.report(c)
			if rep == nil {
				continue
			}
			got, want := map[string]bool{}, map[string]bool{}
			for k := range rep.pairs() {
				if strings.HasSuffix(k, " CGO") {
					got[rp.canon(strings.TrimSuffix(k, " CGO"))] = true
				}
			}
			for k := range rr.FuncPairs() {
				if strings.HasSuffix(k, " CGO") {
					want[strings.TrimSuffix(k, " CGO")] = true
				}
			}
			if m, x := diffSets(got, want); len(m)+len(x) > 0 {
				r.Violate(fmt.Sprintf("builtinedge/%s/%s/%v", e[0], e[1], no), fmt.Sprintf("built-in ignored edge %v, built-in map disabled %v: missing %v, unexpected %v", e, no, head(m, 5), head(x, 5)), c.replay(r, args, nil), "")
			}
			r.Count("built-in ignored edges observed", 1)
			r.Eval(fmt.Sprintf("edge %v %v", e, no))
		}
	}
}
