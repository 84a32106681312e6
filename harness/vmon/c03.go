package main

import (
	"fmt"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/callgraph"
)

func init() { checks["C03"] = checkC03 }

// pathSubjects are the subjects shared by the checks that compare with the
// reference analysis.
func (r *Run) pathSubjects(nGen int) []*Subject {
	subjects := r.repoSubjects()
	if r.thorough() {
		subjects = append(subjects, r.stdSubjects("encoding/json", "net/http", "text/template,os/exec", "archive/zip", "go/types", "crypto/tls")...)
	} else {
		subjects = append(subjects, r.stdSubjects("text/template,os/exec")...)
	}
	subjects = append(subjects, r.oddSubjects()...)
	subjects = append(subjects, r.shapeSubjects()...)
	for i := 0; i < nGen; i++ {
		rnd := r.rng(fmt.Sprint("gen", i))
		subjects = append(subjects, r.genSubject(fmt.Sprintf("gen%d", i), rnd, 2+rnd.Intn(4), 8+rnd.Intn(18), 25+rnd.Intn(60), 2+rnd.Intn(5), rnd.Intn(4)))
	}
	return subjects
}

// forEachRefCase runs f for the reference cases of the subjects.
func (r *Run) forEachRefCase(subjects []*Subject, perSubject int, f func(c *Case, rr *RefResult)) {
	r.parallel(len(subjects), 6, func(i int) {
		for _, c := range r.refCases(subjects[i], perSubject) {
			f(c, c.S.Ref(r).analyze(c.Map(r), c.NoBlt))
		}
		subjects[i].ref = nil
	})
}

func checkC03(r *Run) {
	r.rule = "one evaluation = one reported call path checked step by step against the call graph and the sources; non-trivial = the path has at least two functions, distinguished by its text"
	r.assume = []string{"the call graph and call positions built by x/tools are trusted", "compiler-generated wrappers may be attributed to any package that occurs in their receiver or parameters"}
	r.forEachRefCase(r.pathSubjects(r.pick(16, 80)), r.pick(2, 5), func(c *Case, rr *RefResult) {
		for _, g := range []string{"function", "package", "intermediate"} {
			if s := c.S.Dir; s == "/repo" && c.Name != "builtin" && !r.thorough() && g == "package" {
				continue
			}
			rep, args := r.report(c, "-granularity="+g)
			if rep == nil {
				continue
			}
			for _, e := range rep.CapabilityInfo {
				if bad := checkPath(rr, e, g); bad != "" {
					r.Violate(fmt.Sprintf("path/%s/%s", c.describe(), g), fmt.Sprintf("%s: entry for %s %s: %s\npath: %s", g, e.PackageDir, e.Capability, bad, pathText(e.Path)), c.replay(r, args, map[string]string{"path.txt": pathText(e.Path)}), c.replayDir())
				}
				key := ""
				if len(e.Path) > 1 {
					key = pathText(e.Path)
					r.Count("path steps checked", len(e.Path)-1)
				}
				for _, f := range e.Path {
					if f.Site != nil {
						r.Count("call sites checked", 1)
					}
				}
				r.Eval(key)
			}
			if len(rep.CapabilityInfo) > 0 {
				e := rep.CapabilityInfo[len(rep.CapabilityInfo)/2]
				r.Sample(map[string]any{"case": c.describe(), "granularity": g, "path": pathText(e.Path)})
			}
		}
	})
	r.Require("path steps checked", 500)
	r.Require("call sites checked", 300)
}

func pathText(p []PathFn) string {
	var b strings.Builder
	for _, f := range p {
		if f.Site != nil {
			fmt.Fprintf(&b, "%s:%s:%s:", f.Site.Filename, f.Site.Line, f.Site.Column)
		}
		fmt.Fprintf(&b, "%s{%s} ", f.Name, f.Package)
	}
	return b.String()
}

// checkPath returns what is wrong with the path of an entry.
func checkPath(rr *RefResult, e *CapInfo, gran string) string {
	capName := strings.TrimPrefix(e.Capability, "CAPABILITY_")
	if len(e.Path) == 0 {
		return "no path"
	}
	// Start.
	first := e.Path[0]
	startOK := false
	for _, n := range rr.rp.nodes(first.Name) {
		if rr.inQuery(n) {
			if gran == "intermediate" || fnPackage(n.Func).Path() == e.PackageDir {
				startOK = true
			}
		}
	}
	if !startOK {
		return fmt.Sprintf("path starts at %s, which is not a function of the right package", first.Name)
	}
	if gran == "intermediate" {
		ok := false
		for _, f := range e.Path {
			if f.Package == e.PackageDir {
				ok = true
			}
		}
		if !ok {
			return "the package is not on the path"
		}
	}
	if first.Site != nil {
		return "the first function has a call site"
	}
	if gran != "intermediate" || e.DepPath != "" {
		var names []string
		for _, f := range e.Path {
			names = append(names, f.Name)
		}
		if e.DepPath != strings.Join(names, " ") {
			return fmt.Sprintf("textual path %q differs from structured path", e.DepPath)
		}
	}
	// Functions.  Several functions can have the same name; cur is the set of
	// those that are consistent with the path so far.
	cur := map[*callgraph.Node]bool{}
	for i, f := range e.Path {
		nodes := rr.rp.nodes(f.Name)
		if len(nodes) == 0 {
			return fmt.Sprintf("no function %s in the program", f.Name)
		}
		pkgOK := false
		for _, n := range nodes {
			if p := declPackage(n.Func); p != nil {
				if p.Path() == f.Package {
					pkgOK = true
				}
				continue
			}
			if f.Package == "" {
				pkgOK = true
			}
			for _, p := range wrapperPackages(n.Func) {
				if p == f.Package {
					pkgOK = true
				}
			}
		}
		if !pkgOK {
			return fmt.Sprintf("package of %s given as %q", f.Name, f.Package)
		}
		next := map[*callgraph.Node]bool{}
		if i == 0 {
			for _, n := range nodes {
				if rr.inQuery(n) {
					next[n] = true
				}
			}
		} else {
			anyEdge, anyAllowed, anySite := false, false, false
			for v := range cur {
				for _, ed := range v.Out {
					if rr.rp.name(ed.Callee.Func) != rr.rp.canon(f.Name) {
						continue
					}
					anyEdge = true
					if rr.ignored(ed) || rr.cat[v] != "" {
						continue
					}
					anyAllowed = true
					if siteMatches(ed, f.Site) {
						anySite = true
						next[ed.Callee] = true
					}
				}
			}
			switch {
			case !anyEdge:
				return fmt.Sprintf("%s does not call %s", e.Path[i-1].Name, f.Name)
			case !anyAllowed:
				return fmt.Sprintf("the call from %s to %s is excluded by the map", e.Path[i-1].Name, f.Name)
			case !anySite:
				return fmt.Sprintf("there is no call from %s to %s at %v", e.Path[i-1].Name, f.Name, f.Site)
			}
		}
		cur = next
	}
	for v := range cur {
		if rr.byCap[capName][v] {
			return ""
		}
	}
	return fmt.Sprintf("the last function %s does not have the capability", e.Path[len(e.Path)-1].Name)
}

func siteMatches(e *callgraph.Edge, s *Site) bool {
	pos := edgePos(e)
	if !pos.IsValid() {
		return s == nil
	}
	return s != nil && s.Filename == filepath.Base(pos.Filename) && s.Line == strconv.Itoa(pos.Line) && s.Column == strconv.Itoa(pos.Column)
}

// shapeSubjects are small modules with several packages and modules whose call
// paths cross package boundaries in different ways.
func (r *Run) shapeSubjects() []*Subject {
	multi := map[string]string{
		"go.mod":     "module ex.com/m\n\ngo 1.23\n\nrequire (\n\tdep.org/d v1.2.3\n\tplain v0.1.0\n)\n\nreplace dep.org/d => ./dep\n\nreplace plain => ./plain\n",
		"dep/go.mod": "module dep.org/d\n\ngo 1.23\n",
		"dep/d.go": `package d

import "os"

type T struct{ N int }

func (T) Read()        { os.ReadFile("x") }
func (t *T) Write()    { os.WriteFile("x", nil, 0) }
func Env() string      { return os.Getenv("x") }
func Call(f func())    { f() }
func Each[V any](v V, f func(V)) { f(v) }

type Doer interface{ Do() }

func Run(d Doer) { d.Do() }
`,
		"plain/go.mod": "module plain\n\ngo 1.23\n",
		"plain/p.go": `package plain

import "os"

func Pid() int      { return os.Getpid() }
func Call(f func()) { f() }
`,
		"a/a.go": `package a

import (
	"os"

	"dep.org/d"
	"plain"
)

func Direct()       { os.Getenv("x") }
func Trans()        { d.Env() }
func Plain()        { plain.Pid() }
func PlainBack()    { plain.Call(func() { os.Exit(1) }) }
func TransBack()    { d.Call(func() { os.Exit(1) }) }
func GenBack()      { d.Each(1, func(int) { os.Hostname() }) }
func GenBackNamed() { d.Each(1, cb) }
func cb(int)        { os.Getwd() }

type E struct{ d.T }

func (e E) Own() { e.Read() }

type X struct{}

func (X) Do()     { os.Chdir("/") }
func Iface()      { d.Run(X{}) }
func MethExpr()   { f := d.T.Read; f(d.T{}) }
func MethVal()    { f := (&d.T{}).Write; f() }
func Prom()       { var i interface{ Read() } = E{}; i.Read() }
func Lit()        { func() { func() { d.Env() }() }() }
func Shared()     { Direct(); Trans() }
`,
		"b.v2/b.go": `package weird

import "ex.com/m/a"

func Via()  { a.Direct() }
func Via2() { a.Plain(); a.TransBack() }
`,
	}
	undotted := map[string]string{
		"go.mod":   "module local\n\ngo 1.23\n",
		"a/a.go":   "package a\n\nimport (\n\t\"local/b\"\n\t\"local/c.d\"\n)\n\nfunc F() { b.F() }\nfunc G() { cd.G() }\n",
		"b/b.go":   "package b\n\nimport \"os\"\n\nfunc F() { os.Getenv(\"x\") }\n",
		"c.d/c.go": "package cd\n\nimport \"os\"\n\nfunc G() { os.Getenv(\"x\") }\n",
	}
	// Packages vendored into the standard library have a dot in their paths.
	sv := r.srcSubject("stdvendor", map[string]string{"a/a.go": `package a

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"io"
)

func Sign(k *ecdsa.PrivateKey, r io.Reader) ([]byte, error) {
	h := sha256.Sum256(nil)
	return ecdsa.SignASN1(r, k, h[:])
}

func Key(r io.Reader) { ecdsa.GenerateKey(elliptic.P256(), r) }

func Both(r io.Reader) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), r)
	Sign(k, r)
}
`, "b/b.go": "package b\n\nimport \"ex.com/m/a\"\n\nfunc F() { a.Key(nil) }\nfunc G() { a.Sign(nil, nil) }\n"}, "./...")
	sv.Base, sv.NoBuilt = newCapMap(), true
	sv.Base.Package["vendor/golang.org/x/crypto/cryptobyte"] = "FILES"
	sv.Base.Func["crypto/ecdsa.SignASN1"] = "EXEC"
	sv.Base.Func["crypto/ecdsa.GenerateKey"] = "NETWORK"
	return []*Subject{
		sv,
		r.srcSubject("multi", multi, "./a", "./b.v2"),
		r.srcSubject("multi-dep", multi, "./a", "dep.org/d"),
		r.srcSubject("undotted", undotted, "./..."),
		r.srcSubject("samename", sameNames(), "./..."),
		r.srcSubject("localtypes", localTypes(), "./..."),
		r.srcSubject("extras", extraFindings(), "./a", "./b"),
		r.srcSubject("cycles", cycles(), "./a", "./c"),
	}
}

// sameNames has several packages, files, functions and types of the same name.
func sameNames() map[string]string {
	f := map[string]string{}
	ops := []string{"os.Remove(\"x\")", "os.Getenv(\"x\")", "os.Remove(\"y\")", "os.Getpid()"}
	for i, d := range []string{"v1/api", "v2/api", "api", "other/v2"} {
		imp, call := "", ""
		if i > 0 {
			imp, call = "\n\tprev \"ex.com/m/"+[]string{"", "v1/api", "v2/api", "api"}[i]+"\"", "prev.F(); "
		}
		f[d+"/api.go"] = fmt.Sprintf("package api\n\nimport (\n\t\"os\"%s\n)\n\ntype T struct{}\n\nfunc (T) M() { %s }\nfunc F() { T{}.M() }\nfunc G() { %sfunc() { F() }() }\nfunc Files() { os.Remove(\"z\") }\n", imp, ops[i], call)
	}
	f["cmd/x/main.go"] = "package main\n\nimport (\n\ta \"ex.com/m/v1/api\"\n\tb \"ex.com/m/v2/api\"\n)\n\nfunc main() { a.F(); b.F() }\n"
	f["cmd/y/main.go"] = "package main\n\nimport b \"ex.com/m/other/v2\"\n\nfunc main() { b.G() }\n"
	return f
}

// localTypes has distinct functions with the same printed name.
func localTypes() map[string]string {
	return map[string]string{"a/a.go": `package a

import "os"

type doer interface{ Do() }

func Apply[T doer](t T) { t.Do() }

type x struct{}

func (x) Do() { os.Getenv("X") }

type y struct{}

func (y) Do() { os.Remove("Y") }

type z struct{}

func (z) Do() { os.Getpid() }

type n struct{}

func (n) Do() {}

func Two() {
	type T struct{ x }
	f := Apply[T]
	{
		type T struct{ y }
		g := Apply[T]
		g(T{})
	}
	f(T{})
}

func Three() {
	type T struct{ y }
	Apply(T{})
	func() {
		type T struct{ z }
		Apply(T{})
		{
			type T struct{ n }
			Apply(T{})
		}
	}()
}

func None() {
	type T struct{ n }
	Apply(T{})
}

func Some() {
	type T struct{ n }
	Apply(T{})
	if true {
		type T struct{ z }
		Apply(T{})
	}
}

type S struct{}

func (S) M() { os.Getwd() }

func Bound() (func(), func(), func()) {
	a, b := S.M, S{}.M
	c := S{}.M
	b()
	return b, func() { a(S{}) }, c
}
`, "b/b.go": `package b

import "ex.com/m/a"

func Three() { a.Three(); a.None() }
func Bound() { _, f, g := a.Bound(); f(); g() }
`}
}

// extraFindings has functions whose capability is found by inspecting their
// code, in the queried packages and in dependencies.
func extraFindings() map[string]string {
	return map[string]string{"a/a.go": `package a

import (
	"os"
	"reflect"
	"unsafe"

	"ex.com/m/dep"
	"ex.com/m/dep/sub"
)

var V reflect.Value

func Store(x any)            { V = reflect.ValueOf(x) }
func Unsafe(p *int) *float32 { return (*float32)(unsafe.Pointer(p)) }
func Both(p *int)            { Unsafe(p); Store(p); os.Remove("x") }
func Dep(p *int)             { dep.Unsafe(p) }
func DepAsm()                { dep.Asm() }
func SubAsm()                { sub.Viadep() }
func Lit(p *int)             { func() { dep.Cast(unsafe.Pointer(p)) }() }
func Clean()                 { dep.Clean() }
func Mixed(p *int)           { dep.Mixed(p) }

var G = *(*int)(unsafe.Pointer(new(float64)))
`, "b/b.go": `package b

import "ex.com/m/a"

func Store()       { a.Store(1) }
func Both(x *int)  { a.Both(x) }
func Clean()       { a.Clean() }
func Via(x *int)   { Via2(x) }
func Via2(x *int)  { a.Mixed(x); a.SubAsm() }
`, "dep/d.go": `package dep

import (
	"os"
	"reflect"
	"unsafe"
)

type box struct{ v [2]reflect.Value }

var keep *box

func Asm()
func Unsafe(p *int) uint32          { return *(*uint32)(unsafe.Pointer(p)) }
func Cast(p unsafe.Pointer) uintptr { return uintptr(p) + uintptr(*(*byte)(p)) }
func Clean() uintptr                { var x int; return uintptr(unsafe.Pointer(&x)) }
func Mixed(p *int) {
	keep = &box{}
	keep.v[1] = reflect.ValueOf(p)
	Unsafe(p)
	os.Getenv("x")
	Asm()
}
`, "dep/d.s": "#include \"textflag.h\"\n\nTEXT ·Asm(SB),NOSPLIT,$0\n\tRET\n", "dep/sub/s.go": `package sub

import "ex.com/m/dep"

func Viadep() { dep.Asm(); dep.Clean() }
`}
}

// cycles has recursion through several packages, diamonds, and functions with
// many capabilities.
func cycles() map[string]string {
	return map[string]string{"a/a.go": `package a

import (
	"net"
	"os"
	"os/exec"

	"ex.com/m/b"
)

func init() { b.Hook = Back }

func Self(n int)  { if n > 0 { Self(n - 1) }; os.Getenv("x") }
func Even(n int)  { if n > 0 { Odd(n - 1) } }
func Odd(n int)   { if n > 0 { Even(n - 1) } else { os.Remove("x") } }
func Ring(n int)  { b.Ring(n) }
func Back(n int)  { if n > 0 { Ring(n - 1) } else { exec.Command("x").Run() } }
func Top()        { left(); right() }
func left()       { bottom() }
func right()      { bottom(); net.Dial("tcp", "x") }
func bottom()     { os.Getpid(); os.Setenv("a", "b") }
func Dead(n int)  { if n > 0 { Dead(n - 1) } }
func dead2()      { Dead(3); dead3() }
func dead3()      { dead2() }
func All()        { Top(); Ring(1); Even(1); Self(1); dead2() }
`, "b/b.go": `package b

import "ex.com/m/d"

var Hook func(int)

func Ring(n int) { d.Step(func() { Hook(n) }) }
`, "d/d.go": `package d

func Step(f func()) { if f != nil { f() }; helper(0) }
func helper(n int)  { if n > 3 { Step(nil) } }
`, "c/c.go": `package c

import "ex.com/m/a"

func C1() { C2(); a.All() }
func C2() { C3() }
func C3() { C1() }
func C4() { C4() }
func C5() { C4(); C2() }
`}
}
