package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

func init() { checks["C20"] = checkC20 }

// oddPackages are valid packages that use unusual constructs.
func oddPackages() map[string]string {
	f := map[string]string{
		"empty/e.go":      "package empty\n",
		"doconly/d.go":    "// Package doconly.\npackage doconly // import \"ex.com/odd/doconly\"\n",
		"consts/c.go":     "package consts\n\nimport (\n\t\"math\"\n\t\"unsafe\"\n)\n\nconst (\n\tA = iota\n\tB\n\t_\n\tC = 1 << (10 * iota)\n\tD = math.MaxUint64\n\tE = unsafe.Sizeof(struct{ a byte; b int64 }{})\n\tF = 'x' + 1.0 - 2i*0\n\tG = len([10]int{})\n)\n\nvar X [unsafe.Sizeof(uintptr(0))]byte\nvar Y [len(X)]unsafe.Pointer\n",
		"imports/i.go":    "package imports\n\nimport (\n\t_ \"embed\"\n\t. \"fmt\"\n\t_ \"net/http/pprof\"\n\tos2 \"os\"\n\tsort2 \"sort\"\n)\n\nfunc F() { Println(os2.Args, sort2.IntSlice(nil)) }\n",
		"blank/b.go":      "package blank\n\nimport \"os\"\n\nfunc _() { os.Exit(1) }\nfunc _() {}\n\ntype _ struct{}\ntype T struct{ _ int; _, _ string }\n\nfunc (T) _() {}\nfunc (_ T) M(_ int, _ ...string) (_ int, _ error) { return }\nfunc (T) N() {}\n\nvar _ = os.Getenv(\"x\")\nvar _, _ = os.Getwd()\nvar (\n\t_ = func() int { return os.Getpid() }()\n\t_ interface{ M(int, ...string) (int, error) } = T{}\n)\n\nconst _ = 1\n\nfunc init() {}\nfunc init() { _ = T{} }\n",
		"recur/r.go":      "package recur\n\ntype A []A\ntype B map[string]B\ntype C func(C) C\ntype D struct{ d *D; e []D; f func(D) D }\ntype E interface{ M(E) E }\ntype F chan F\ntype G *G\ntype H [2]*H\ntype I interface{ N() J }\ntype J interface{ O(I) }\n\nfunc (d *D) M(e E) E { return d }\nfunc (a A) Walk() { for _, x := range a { x.Walk() } }\nfunc Apply(c C) C { return c(c)(c) }\n\nvar X = A{A{}, A{A{}}}\nvar Y B = B{\"a\": B{\"b\": nil}}\nvar Z G\n",
		"reflectrec/r.go": "package reflectrec\n\nimport \"reflect\"\n\ntype R struct {\n\tr *R\n\tv reflect.Value\n\ta [0]reflect.Value\n\tm map[string]reflect.Value\n}\ntype N reflect.Value\ntype L struct{ next *L; arr [3]struct{ n N } }\ntype P struct{ p *P; q []P }\n\nvar g R\nvar ch = make(chan reflect.Value, 1)\nvar arr [4]R\n\nfunc Store(r *R, x any) { r.v = reflect.ValueOf(x); g = *r; ch <- r.v; arr[0] = *r; *r = R{} }\nfunc StoreL(l *L, n N) { l.arr[1].n = n; l.next = l; *l = *l.next }\nfunc StoreP(p *P) { *p = *p.p; p.q[0] = *p }\nfunc Closure(x any) func() reflect.Value { v := reflect.ValueOf(x); return func() reflect.Value { w := v; return w } }\nfunc Local(x any) int { var a [3]reflect.Value; a[1] = reflect.ValueOf(x); r := R{v: a[1]}; return int(r.v.Kind()) }\nfunc Multi(a, b reflect.Value) (c, d reflect.Value) { c, d = b, a; return d, c }\nfunc Defer(v reflect.Value) (r reflect.Value) { defer func() { r = v }(); return }\nfunc Gen[T any](p *T, t T) { *p = t }\nfunc UseGen(v reflect.Value) { var x reflect.Value; Gen(&x, v); Gen(&g, R{}) }\n",
		"unsafes/u.go":    "package unsafes\n\nimport u \"unsafe\"\n\ntype P u.Pointer\ntype Q = u.Pointer\ntype W uintptr\n\nvar A = (*int)(u.Pointer(nil))\nvar B = (*[1]byte)(Q(nil))\nvar C = func() *int { return (*int)(P(nil)) }\nvar D, E = (u.Pointer)(P(nil)), W(uintptr(u.Pointer(nil)))\n\nfunc F(p P) (a *int, b uintptr, c Q, d P) { return (*int)(p), uintptr(p), Q(p), P(Q(p)) }\nfunc G(b []byte) string { return u.String(u.SliceData(b), len(b)) }\nfunc H(p *int) []int { return u.Slice(p, 3) }\nfunc I(p u.Pointer) u.Pointer { return u.Add(p, 8) }\nfunc J() uintptr { return u.Offsetof(struct{ a, b int }{}.b) + u.Alignof(0) }\nfunc K[T ~*int | ~*byte](p Q) T { return T(p) }\nfunc L[T u.Pointer | uintptr](p T) u.Pointer { return u.Pointer(p) }\nfunc M() { K[*int](nil); L[u.Pointer](nil); type X u.Pointer; switch v := any(X(nil)).(type) { case X: _ = (*int)(v) } }\nfunc N(p u.Pointer) { var x [u.Sizeof(0)]int; _ = x[*(*int)(p)]; for range *(*[]int)(p) {}; go (*(*func())(p))(); defer (*(*func())(p))() }\nfunc (*S) M(p u.Pointer) *S { return (*S)(p) }\n\ntype S struct{ _ [0]func(); p P }\n",
		"asm/a.go":        "package asm\n\nfunc A()\nfunc B(x int) (y int)\n\ntype T struct{}\n\nvar F = A\n\nfunc Call() { A(); go B(1); defer A(); F() }\n",
		"asm/a.s":         "#include \"textflag.h\"\n\nTEXT ·A(SB),NOSPLIT,$0\n\tRET\n\nTEXT ·B(SB),NOSPLIT,$0-16\n\tRET\n",
		"linkname/l.go":   "package linkname\n\nimport _ \"unsafe\"\n\n//go:linkname nanotime runtime.nanotime\nfunc nanotime() int64\n\n//go:linkname Pushed ex.com/odd/linkname.hidden\nfunc Pushed() int64 { return nanotime() }\n\nfunc hidden() int64\n\nfunc Call() int64 { f := hidden; return f() + Pushed() }\n",
		"linkname/e.s":    "",
		"gos/g.go":        "package gos\n\ntype T struct{}\n\nfunc (T) M()  {}\nfunc (*T) P() {}\n\ntype I interface{ M() }\n\nfunc f() (int, error) { return 0, nil }\n\nfunc F(c chan int, i I, m map[int]int) {\n\tgo println(1)\n\tgo print()\n\tdefer recover()\n\tdefer panic(1)\n\tdefer close(c)\n\tdefer delete(m, 1)\n\tdefer clear(m)\n\tgo func() {}()\n\tgo (func())(nil)()\n\tdefer (func(int))(nil)(1)\n\tgo T{}.M()\n\tgo (*T).P(nil)\n\tdefer I.M(i)\n\tdefer i.M()\n\tgo interface{ M() }.M(T{})\n\tg := (&T{}).P\n\tgo g()\n\th := I.M\n\tdefer h(T{})\n\tfunc(...int) {}([]int{1}...)\n\tfunc(int, error) {}(f())\n\tcopy([]byte{}, \"x\")\n\t_ = append([]byte{}, \"x\"...)\n\t_, _ = min(1, 2.0), max(\"a\")\n}\n",
		"control/c.go": `package control

import (
	"os"
	"sort"
	"sync"
)

type S []int

func (s S) Len() int           { os.Getenv("l"); return len(s) }
func (s S) Less(i, j int) bool { return s[i] < s[j] }
func (s S) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }

func Labels(n int) {
outer:
	for i := 0; ; i++ {
		for range n {
			if i > 3 {
				break outer
			}
			continue outer
		}
		goto end
	}
end:
	;
lab:
	sort.Sort(S{})
	goto lab2
lab2:
	switch {
	case n > 1:
		sort.Stable(S{})
		fallthrough
	case n > 2:
		sort.IsSorted(S{})
	default:
	}
	if n > 100 {
		goto lab
	}
empty:
	{
	}
	if n > 1000 {
		goto empty
	}
}

func Select(a, b chan int, o *sync.Once) {
	select {}
	select {
	case <-a:
		sort.Sort(S{})
	case x, ok := <-b:
		_, _ = x, ok
		o.Do(func() { sort.Sort(S{}) })
	case a <- 1:
	case S{1}[<-a]  = <-b:
	default:
		sort.Slice(S{}, func(i, j int) bool { return false })
	}
	for {
		select {
		case <-a:
			return
		}
	}
}

func Positions(o *sync.Once, x sort.Interface) {
	for sort.Sort(x); false; sort.Sort(x) {
	}
	for o.Do(func() {}); false; o.Do(nil) {
	}
	if sort.Sort(x); true {
	}
	switch sort.Sort(x); {
	}
	switch o.Do(nil); y := x.(type) {
	case S:
		sort.Sort(y)
	case nil:
		sort.Sort(y)
	}
	go sort.Sort(x)
	defer sort.Stable(x)
	go o.Do(nil)
	_ = sort.IsSorted(x) || sort.SliceIsSorted(S{}, nil)
	sort.Slice(x, nil)
	sort.Sort(nil)
	sort.Sort(sort.Reverse(x))
	sort.Sort(struct{ sort.Interface }{x})
	sort.Sort(&S{})
	sort.Sort((x))
	(sort.Sort)(x)
	((o.Do))(nil)
	(*o).Do(nil)
	(*sync.Once).Do(o, nil)
	f := o.Do
	f(nil)
	type F func()
	o.Do(F(nil))
	type G = func()
	o.Do(G(nil))
	var oo struct{ sync.Once }
	oo.Do(Panics)
	var arr [2]sync.Once
	arr[0].Do(func() { arr[1].Do(Panics) })
	(&arr[1]).Do(func() { panic(1) })
	var pp **sync.Once = &o
	(*pp).Do(func() {})
	o.Do(func() func() { return nil }())
	sort.Slice(args())
	sort.SliceStable([]int{}, func() func(int, int) bool { return nil }())
}

func args() (any, func(int, int) bool) { return nil, nil }
func Panics()                         { panic(nil) }

func Gen[T sort.Interface, F ~func(), L ~func(int, int) bool, O ~*sync.Once](t T, f F, l L, o O) {
	sort.Sort(t)
	sort.Slice(nil, l)
	(*sync.Once)(o).Do(f)
}

func UseGen() { Gen(S{}, func() {}, func(int, int) bool { return true }, &sync.Once{}) }

func NoStmt() {
	;
	;
	{
		{
		}
	}
	func() {}()
}
`,
		"generics/g.go": `package generics

import (
	"cmp"
	"iter"
	"os"
)

type Num interface{ ~int | ~float64 }

type List[T any] struct {
	next *List[T]
	v    T
}

func (l *List[T]) All() iter.Seq[T] {
	return func(yield func(T) bool) {
		for ; l != nil; l = l.next {
			if !yield(l.v) {
				return
			}
		}
	}
}

func (l *List[_]) Len() (n int) {
	for range l.All() {
		n++
	}
	return
}

type Tree[K cmp.Ordered, V any] struct {
	l, r *Tree[K, V]
	k    K
	v    V
}

func (t *Tree[K, V]) Walk(f func(K, V) bool) { os.Getenv("x"); t.l.Walk(f); f(t.k, t.v) }

type Rec[T any] interface{ M(T) T }
type rec struct{}

func (rec) M(rec) rec { return rec{} }

func UseRec[T Rec[T]](t T) T { return t.M(t).M(t) }

func Sum[T Num](xs ...T) (s T) {
	for _, x := range xs {
		s += x
	}
	return
}

func Map[S ~[]E, E, F any](s S, f func(E) F) (r []F) {
	for i := range len(s) {
		r = append(r, f(s[i]))
	}
	return r
}

func Deep[T any](n int, t T) {
	if n > 0 {
		Deep[T](n-1, t)
	}
	func() { Deep2(n, &t) }()
}

func Deep2[T any](n int, t *T) { Deep(n, *t) }

type Emb[T any] struct {
	List[T]
	*Tree[string, T]
}

type Ifc[T any] interface {
	comparable
	Get() T
}

func CallIfc[I Ifc[T], T any](i I) T { return i.Get() }

type got struct{}

func (got) Get() func() { return func() { os.Exit(1) } }

type Fn[A, B any] func(A) B

func (f Fn[A, B]) Call(a A) B { return f(a) }

type Chan[T any] chan T
type Arr[T any] [3]T

func (a Arr[T]) Each(f func(int, T)) {
	for i, x := range a {
		f(i, x)
	}
}

func Conv[T ~[]byte | ~string](t T) int {
	n := 0
	for i := range len(t) {
		n += int(t[i])
	}
	return n + len(string(t)) + len([]byte(t))
}

func Switch[T any](t T) string {
	switch any(t).(type) {
	case int:
		return "int"
	case List[T]:
		return "list"
	case interface{ M(T) T }:
		return "m"
	}
	var z T
	return string(any(z).(string))
}

var Inst = Sum[int]
var Part = Map[[]int, int, string]

func Use() {
	var l *List[func()]
	l.Len()
	for f := range l.All() {
		f()
		defer f()
		if f == nil {
			break
		}
	}
	next, stop := iter.Pull(l.All())
	defer stop()
	next()
	UseRec(rec{})
	CallIfc(got{})()
	(&Tree[string, Chan[int]]{}).Walk(nil)
	m := (*Tree[int, Arr[List[int]]]).Walk
	m(nil, nil)
	e := Emb[int]{}
	e.Len()
	e.Walk(nil)
	var i interface{ Len() int } = &e
	i.Len()
	Fn[int, string](func(int) string { return os.Getenv("q") }).Call(1)
	Arr[func()]{}.Each(func(_ int, f func()) { f() })
	Conv("x")
	Conv([]byte{})
	Switch(1)
	Deep(3, struct{ x int }{})
	type local[T any] struct{ t T }
	_ = local[local[int]]{}
	_ = Inst(1) + Sum(2, 3)
	_ = Part(nil, nil)
	Map([]string{}, func(s string) List[Arr[string]] { return List[Arr[string]]{} })
}

func Range() {
	for range 3 {
	}
	for i := range 10 {
		_ = i
	}
	for range func(yield func() bool) { os.Getpid(); yield() } {
		continue
	}
	for a, b := range func(yield func(int, string) bool) { yield(1, "x") } {
		_, _ = a, b
		return
	}
	for range (chan int)(nil) {
	}
	for i, c := range "é" {
		_, _ = i, c
	}
	for i := range [3]int{} {
		_ = i
	}
	for i := range &[3]int{} {
		_ = i
	}
}
`,
		"embed/e.go": `package embed

import (
	"errors"
	"fmt"
	"io"
	"os"
	"sync"
)

type A struct{ B }
type B struct{ *C }
type C struct {
	D
	io.Reader
	sync.Mutex
}
type D interface {
	E
	M()
}
type E = interface{ N() }
type Al = C
type F struct {
	Al
	error
	fmt.Stringer
	G[int]
}
type Zer = interface{ Z() }
type G[T any] struct{ t T }

func (G[T]) P()  { os.Remove("x") }
func (*G[T]) Q() {}

type H struct {
	F
	_ int
}

func Use(h H, a A) {
	h.P()
	h.Q()
	h.Lock()
	h.Al.D.M()
	a.N()
	a.Read(nil)
	f := a.M
	f()
	g := (*A).N
	g(&a)
	k := A.Read
	k(a, nil)
	var x interface {
		P()
		io.Reader
	} = h
	x.P()
	errors.As(h, &x)
	_ = H.P
	_ = (*H).Q
	var an struct {
		*os.File
		Zer
	}
	an.Close()
	an.Z()
	z := struct{ fmt.Stringer }.String
	z(struct{ fmt.Stringer }{})
}
`,
		"shadow/s.go":         "package shadow\n\ntype int string\ntype uintptr *byte\ntype error interface{ Foo() }\n\nvar nil = 1\nvar true = false\n\nfunc len(x int) int { return x }\nfunc panic(x int) {}\nfunc real() {}\nfunc recover() int { return \"\" }\n\nfunc F() { panic(len(\"x\")); real(); print := 1; _ = print; new := func() {}; new(); _ = recover(); append := nil; _ = append }\n",
		"unsafeshadow/s.go":   "package unsafeshadow\n\nimport real \"unsafe\"\n\ntype T struct{}\n\nfunc (T) Pointer(x any) any { return x }\n\ntype uintptr real.Pointer\n\nvar unsafe T\n\nfunc F(p real.Pointer) { unsafe.Pointer(p); _ = uintptr(p); _ = (*int)(uintptr(p)) }\n",
		"sortshadow/s.go":     "package sortshadow\n\ntype T struct{}\n\nfunc (T) Sort(x any) {}\nfunc (T) Slice(x any, f func(int, int) bool) {}\n\nvar sort T\n\ntype Once struct{}\n\nfunc (*Once) Do(f func(int) (int, error)) {}\n\nfunc F(sync struct{ Once Once }) { sort.Sort(nil); sort.Slice(1, nil); sync.Once.Do(nil); new(Once).Do(func(int) (int, error) { return 0, nil }) }\n",
		"line/l.go":           "package line\n\nimport \"os\"\n\n//line weird \"name\".go:7\nfunc A() { os.Exit(1) }\n\n//line /abs/x.y:99:3\nfunc B() { /*line :1:1*/ os.Getenv(\"x\") }\n\n//line a.go:1\nfunc C() { A() }; func D() {\n//line \n\tC()\n}\n\n//line C:\\win\\x.go:10\nfunc E() { D() }\n\n//line b.go:1073741823\nfunc F() { E() }\n",
		"aliases/a.go":        "package aliases\n\nimport \"os\"\n\ntype A = B\ntype B = *C\ntype C struct{ a A }\ntype F = func() error\ntype M = map[string]F\ntype I = interface{ X() F }\ntype R = os.File\ntype E = struct{ R }\ntype U = interface{ ~int }\n\nfunc (c *C) X() F { return func() error { return os.Remove(\"x\") } }\n\nvar T A = &C{}\n\nfunc G(i I, m M) { i.X()(); m[\"x\"](); T.X()() ; var e E; e.Close(); (*R).Close(nil) }\nfunc H[T U](t T) {}\n",
		"initorder/i.go":      "package initorder\n\nimport \"os\"\n\nvar a = b + f()\nvar b = c()\nvar x, y = pair()\nvar m = map[string]func(){\"a\": g, \"b\": func() { g() }}\nvar s = []func() int{f, c}\nvar p = &struct{ f func() }{f: g}\n\nfunc f() int { return b }\nfunc c() int { os.Getenv(\"x\"); return 1 }\nfunc g() { m2() }\nfunc m2() { _ = x2 }\nfunc pair() (int, error) { return x2, nil }\n\nvar x2 = 3\n\nfunc init() { init2() }\nfunc init2() { for _, f := range m { f() }; _ = s; _, _, _ = a, x, y }\n",
		"mainpkg/main.go":     "package main\n\nimport \"os\"\n\nfunc main() { defer os.Exit(0); if r := recover(); r != nil { main() } }\n",
		"vendorish/v_test.go": "package vendorish_test\n\nfunc broken() { undefined() }\n",
		"vendorish/v.go":      "//go:build linux || !linux\n\npackage vendorish\n",
		"uni/ünï.go":          "package ünï\n\nimport \"os\"\n\ntype Ö struct{ ß int }\n\nfunc (ö Ö) Ñ世() { os.Getenv(\"ß\") }\nfunc 世() func() { return Ö{}.Ñ世 }\n",
		"a-b.c~d/x.go":        "package abcd\n\nimport \"os\"\n\nfunc F() { os.Getpid() }\n",
		"embedfs/e.go":        "package embedfs\n\nimport \"embed\"\n\n//go:embed *.go\nvar FS embed.FS\n\n//go:embed e.go\nvar S string\n\nfunc F() { FS.ReadFile(\"e.go\") }\n",
		"panics/p.go":         "package panics\n\nimport \"os\"\n\nfunc A() (err error) {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\terr, _ = r.(error)\n\t\t}\n\t}()\n\tpanic(os.Remove(\"x\"))\n}\n\nfunc B() { for { } }\nfunc C() int { panic(1); return 1 }\nfunc D() { return; os.Exit(1) }\nfunc E() { if false { os.Exit(1) }; var f func(); f(); var i interface{ M() }; i.M() }\nfunc F(x [0]func()) { for _, f := range x { f() } }\nfunc G() { var a []func(); a[10](); (*(*func())(nil))() ; func() { defer G() }() }\n",
		"consteval/c.go":      "package consteval\n\nimport \"os\"\n\nconst debug = false\n\nfunc F() { if debug { os.Exit(1) }; switch { case debug: os.Getpid() }; for debug { os.Getenv(\"x\") } ; const x = 1 << 100 >> 98; _ = [x]int{}; _ = \"a\" + \"b\"[0:1]; _ = complex(1, 2) * 3i }\n",
	}
	var b strings.Builder
	b.WriteString("package big\n\nimport \"os\"\n\n")
	for i := 0; i < 1500; i++ {
		fmt.Fprintf(&b, "func c%d() { c%d() }\n", i, i+1)
	}
	b.WriteString("func c1500() { os.Getenv(\"x\") }\n\nfunc many() {\n")
	for i := 0; i < 1500; i += 3 {
		fmt.Fprintf(&b, "\tc%d()\n", i)
	}
	b.WriteString("}\n\nfunc nest() {\n")
	b.WriteString(strings.Repeat("func() {\n", 80) + "os.Getpid()\n" + strings.Repeat("}()\n", 80) + "}\n\n")
	b.WriteString("var paren = " + strings.Repeat("(", 300) + "1" + strings.Repeat(")", 300) + "\n\nfunc blocks(n int) {\n" + strings.Repeat("if n > 1 {\n", 100) + "os.Exit(1)\n" + strings.Repeat("}\n", 100) + "}\n\n")
	b.WriteString("var table = []func(){\n")
	for i := 0; i < 1500; i += 2 {
		fmt.Fprintf(&b, "\tc%d,\n", i)
	}
	b.WriteString("}\n\nfunc useTable(i int) { table[i]() }\n\ntype deep " + strings.Repeat("struct{ f ", 40) + "int" + strings.Repeat(" }", 40) + "\n\nvar dv deep\n\nfunc chain() builder { return builder{}" + strings.Repeat(".b()", 120) + " }\n\ntype builder struct{}\n\nfunc (b builder) b() builder { os.Getenv(\"x\"); return b }\n")
	f["big/b.go"] = b.String()
	return f
}

// runtimeCorpus copies the single-file Go programs found in the installed
// tool chain and module cache to separate packages.
func (r *Run) runtimeCorpus(dst string) int {
	goroot := strings.TrimSpace(runCmd(CmdOpt{Dir: r.Scratch}, "go", "env", "GOROOT").Out)
	mod := strings.TrimSpace(runCmd(CmdOpt{Dir: r.Scratch}, "go", "env", "GOMODCACHE").Out)
	var files []string
	for _, g := range []string{
		goroot + "/src/internal/types/testdata/*/*.go",
		goroot + "/src/internal/types/testdata/fixedbugs/*.go",
		goroot + "/src/cmd/compile/internal/types2/testdata/local/*.go",
		goroot + "/src/cmd/compile/internal/ssa/testdata/*.go",
		goroot + "/src/cmd/compile/internal/test/testdata/*.go",
		mod + "/golang.org/x/tools@v0.32.0/go/ssa/interp/testdata/*.go",
		mod + "/golang.org/x/tools@v0.32.0/go/ssa/interp/testdata/fixedbugs/*.go",
		mod + "/golang.org/x/tools@v0.32.0/go/callgraph/vta/testdata/src/*.go",
		mod + "/golang.org/x/tools@v0.32.0/go/ssa/testdata/*.go",
		goroot + "/src/runtime/testdata/*/*.go",
	} {
		m, _ := filepath.Glob(g)
		files = append(files, m...)
	}
	sort.Strings(files)
	pkgRE := regexp.MustCompile(`(?m)^package (\w+)`)
	n := 0
	for i, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil || strings.Contains(string(b), "ERROR") || strings.Contains(string(b), "\n-- ") || len(b) > 60000 {
			continue
		}
		s := string(b)
		if !pkgRE.MatchString(s) || strings.Contains(s, "import \"C\"") || strings.Contains(s, "go:build") {
			continue
		}
		r.writeFiles(dst, map[string]string{fmt.Sprintf("c%d/%s", i, filepath.Base(strings.TrimSuffix(f, "_old.go"))): s})
		n++
	}
	// Keep the packages that the go command accepts.
	bad := regexp.MustCompile(`(?m)(?:^# ex\.com/corpus/(c\d+)|^(?:package ex\.com/corpus/)?(c\d+)[/\s:])`)
	for k := 0; k < 8; k++ {
		res := runCmd(CmdOpt{Dir: dst}, "go", "build", "-gcflags=-e", "./...")
		if res.Code == 0 {
			res = runCmd(CmdOpt{Dir: dst}, "go", "list", "-e", "-f", "{{if or .Error .DepsErrors}}{{.Dir}}{{end}}", "./...")
			if strings.TrimSpace(res.Out) == "" {
				break
			}
			for _, d := range strings.Fields(res.Out) {
				os.RemoveAll(d)
			}
			continue
		}
		ms := bad.FindAllStringSubmatch(res.Err, -1)
		if len(ms) == 0 {
			os.RemoveAll(dst)
			os.MkdirAll(dst, 0o755)
			return 0
		}
		for _, m := range ms {
			os.RemoveAll(filepath.Join(dst, m[1]+m[2]))
		}
	}
	m, _ := filepath.Glob(dst + "/c*")
	return len(m)
}

// randomMode returns random but valid options, and whether a comparison is
// made.
func randomMode(rnd *rand.Rand, k int, mapFile, baseline string) (args []string, compare bool) {
	mode := []string{"json", "graph", "v", "", "m", "compare"}[k%6]
	if mode != "" {
		args = append(args, "-output="+mode)
	}
	if g := []string{"", "package", "function", "intermediate"}[rnd.Intn(4)]; g != "" {
		args = append(args, "-granularity="+g)
	}
	if rnd.Intn(3) == 0 {
		args = append(args, "-omit_paths")
	}
	if rnd.Intn(3) == 0 {
		args = append(args, "-noisy")
	}
	if rnd.Intn(3) == 0 {
		args = append(args, "-capabilities="+randomCaps(rnd, nil))
	}
	if rnd.Intn(3) == 0 {
		args = append(args, "-capability_map="+mapFile)
		if rnd.Intn(2) == 0 {
			args = append(args, "-disable_builtin")
		}
	}
	if rnd.Intn(6) == 0 {
		args = append(args, "-force_local_module")
	}
	if rnd.Intn(8) == 0 {
		args = append(args, "-v="+fmt.Sprint(1+rnd.Intn(2)))
	}
	if rnd.Intn(8) == 0 {
		args = append(args, "-buildtags=foo,bar")
	}
	if mode == "compare" {
		args = append(args, baseline)
	}
	return args, mode == "compare"
}

func checkC20(r *Run) {
	r.rule = "one evaluation = one run of the tool on a package set the go command accepts; non-trivial = distinct package set and options"
	r.assume = []string{"a run that has not finished after 150 s (typically 1 to 10 s) counts as not completing"}
	aux := r.tmp("aux")
	mapFile := filepath.Join(aux, "m.cm")
	r.must(os.WriteFile(mapFile, []byte("# a map\npackage ex.com/odd/big CAPABILITY_EXEC\nfunc os.Getenv CAPABILITY_NETWORK\nfunc os.Exit CAPABILITY_SAFE\nunanalyzed os.Remove\nignore_edge os.Getpid syscall.Getpid\ncgo_suffix zzz\nfunc (*ex.com/odd/generics.List[T]).All CAPABILITY_FILES\n"), 0o644))
	baseline := filepath.Join(aux, "base.json")
	r.must(os.WriteFile(baseline, []byte(`{"capabilityInfo":[{"packageName":"x","capability":"CAPABILITY_FILES","depPath":"x","path":[{"name":"x"}],"packageDir":"x"},{},{"capability":"CAPABILITY_EXEC","path":[{},{"name":"y","package":"z","site":{}}]}]}`), 0o644))
	var subjects []*Subject
	// Hand-written packages.
	odd := oddPackages()
	odd["go.mod"] = "module ex.com/odd\n\ngo 1.23\n"
	s := r.srcSubject("odd", odd, "./...")
	if res := runCmd(CmdOpt{Dir: s.Dir}, "go", "build", "-gcflags=-e", "./..."); res.Code != 0 {
		r.inconclusive("odd packages do not build: %s", clip(res.Err, 3000))
	}
	subjects = append(subjects, s)
	names := map[string]bool{}
	for f := range odd {
		if strings.Contains(f, "/") {
			names[filepath.Dir(f)] = true
		}
	}
	var single []string
	for _, n := range sortedKeys(names) {
		if n != "vendorish" {
			single = append(single, "./"+n)
		}
	}
	r.Count("odd packages", len(single))
	for i, n := range single {
		if r.thorough() || (i+int(r.Seed))%3 == 0 {
			subjects = append(subjects, &Subject{Name: n, Dir: s.Dir, Patterns: []string{n}})
		}
	}
	// Programs from the tool chain.
	cdir := r.tmp("corpus")
	r.writeFiles(cdir, map[string]string{"go.mod": "module ex.com/corpus\n\ngo 1.23\n"})
	if n := r.runtimeCorpus(cdir); n > 0 {
		r.Count("corpus packages", n)
		subjects = append(subjects, &Subject{Name: "corpus", Dir: cdir, Patterns: []string{"./..."}})
	}
	// The packages of this repository, its dependencies, and the standard library.
	subjects = append(subjects, &Subject{Name: "repo", Dir: "/repo", Patterns: []string{"./..."}})
	subjects = append(subjects, r.stdSubjects("std", "unsafe", "unsafe,sort,sync", "runtime", "go/types,encoding/gob", "reflect")...)
	if res := runCmd(CmdOpt{Dir: "/repo"}, "go", "list", "-deps", "-f", "{{if not .Standard}}{{.ImportPath}}{{end}}", "./..."); res.Code == 0 {
		subjects = append(subjects, &Subject{Name: "deps", Dir: "/repo", Patterns: strings.Fields(res.Out)})
	}
	if r.thorough() {
		subjects = append(subjects, r.stdSubjects("cmd/go", "cmd/compile", "cmd/vet,cmd/gofmt", "net/http", "crypto/...")...)
	}
	subjects = append(subjects, r.oddNameSubjects()...)
	subjects = append(subjects, r.shapeSubjects()...)
	for i := 0; i < r.pick(4, 40); i++ {
		rnd := r.rng(fmt.Sprint("gen", i))
		g := r.genSubject(fmt.Sprintf("gen%d", i), rnd, 2+rnd.Intn(4), 8+rnd.Intn(20), 40+rnd.Intn(80), 3, rnd.Intn(4))
		if !g.builds() {
			r.Count("invalid generated programs skipped", 1)
			continue
		}
		subjects = append(subjects, g)
	}
	if c := r.cgoSubject(); c != nil {
		subjects = append(subjects, c)
	}
	type job struct {
		s    *Subject
		args []string
		cmp  bool
	}
	var jobs []job
	for i, s := range subjects {
		rnd := r.rng("modes/" + s.Name)
		n := r.pick(6, 18)
		if s.Name == "odd" || s.Name == "corpus" {
			n = r.pick(12, 36)
		}
		if len(s.Patterns) == 1 && strings.HasPrefix(s.Patterns[0], "./") && s.Patterns[0] != "./..." {
			n = r.pick(3, 6)
		}
		off := i
		if s.Name == "odd" || s.Name == "corpus" || s.Name == "std" {
			off = 0
		}
		for k := 0; k < n; k++ {
			a, cmp := randomMode(rnd, off+k, mapFile, baseline)
			jobs = append(jobs, job{s, append(s.args(), a...), cmp})
		}
	}
	r.parallel(len(jobs), 8, func(i int) {
		j := jobs[i]
		res := runCmd(CmdOpt{Dir: j.s.Dir, Timeout: 150 * time.Second}, r.CLI, j.args...)
		r.Count("capslock runs", 1)
		ok := !res.Timeout && (res.Code == 0 || res.Code == 1 && j.cmp)
		if strings.Contains(res.Err, "goroutine ") && strings.Contains(res.Err, "panic") {
			ok = false
		}
		if !ok {
			dir := j.s.Dir
			if dir == "/repo" {
				dir = ""
			}
			r.Violate(fmt.Sprintf("crash/%s/%s", j.s.Name, crashKey(res)), fmt.Sprintf("capslock %s in %s: exit %d timeout %v: %s", strings.Join(j.args, " "), j.s.Name, res.Code, res.Timeout, clip(res.Err, 1500)),
				map[string]string{"command.txt": "capslock " + strings.Join(j.args, " "), "stderr.txt": clip(res.Err, 20000)}, dir)
		}
		r.Count("bytes of output", len(res.Out))
		r.Eval(j.s.Name + " " + strings.Join(j.args[2:], " "))
		if i%40 == 0 {
			r.Sample(map[string]any{"packages": j.s.Name, "options": j.args[2:], "exit": res.Code, "output bytes": len(res.Out)})
		}
	})
	r.Require("capslock runs", 100)
}

// crashKey identifies a crash by the innermost function of the panic.
func crashKey(res Result) string {
	if res.Timeout {
		return "timeout"
	}
	if m := regexp.MustCompile(`(?m)^(github\.com/google/capslock\S*?)\(`).FindStringSubmatch(res.Err); m != nil {
		return m[1]
	}
	return fmt.Sprint("exit", res.Code)
}

// cgoSubject returns a package that uses cgo, if the go command can build it.
func (r *Run) cgoSubject() *Subject {
	s := r.srcSubject("cgo", map[string]string{"c/c.go": `package c

/*
#include <errno.h>
#include <stdlib.h>

typedef int (*fn)(int);
struct s { int a; double b; };
enum e { X, Y };
union u { int i; float f; };
static int add(int a, int b) { return a + b; }
static int call(fn f, int x) { return f(x); }
static void nothing(void) { errno = 3; }
static int field(struct s *x) { return x->a; }
static int global;
#define CONST 17
extern int goCallback(int);
*/
import "C"

import (
	"os"
	"unsafe"
)

//export goCallback
func goCallback(x C.int) C.int { os.Getenv("x"); return x }

func Add() int { return int(C.add(1, 2)) }

func Errno() error { _, err := C.nothing(); return err }

func Str(s string) string {
	c := C.CString(s)
	defer C.free(unsafe.Pointer(c))
	return C.GoString(c) + C.GoStringN(c, 1) + string(C.GoBytes(unsafe.Pointer(c), 1))
}

func OnlyCString(s string) *C.char         { return C.CString(s) }
func OnlyCBytes(b []byte) unsafe.Pointer   { return C.CBytes(b) }
func OnlyGoString(c *C.char) string        { return C.GoString(c) }
func OnlyGoStringN(c *C.char) string       { return C.GoStringN(c, 1) }
func OnlyGoBytes(p unsafe.Pointer) []byte  { return C.GoBytes(p, 1) }
func OnlyMalloc() unsafe.Pointer           { return C.malloc(8) }
func OnlyPtr(s *C.struct_s) int            { return int(C.field(s)) }
func OnlyGo()                              { go C.nothing() }
func OnlyVar() *C.int                      { return &C.global }
func OnlyConst() int                       { return C.CONST + C.Y + C.sizeof_int }
func OnlyLit() func() C.int                { return func() C.int { return C.add(3, 4) } }

type T struct{ c *C.char }

func (t T) Method() string      { return C.GoString(t.c) }
func (t *T) PtrMethod() C.int   { return C.add(C.int(len(t.Method())), 1) }
func (t *T) NoC() *C.char       { return t.c }

func Struct() float64 { var s C.struct_s; s.a = C.int(C.X); var u C.union_u; _ = u; return float64(s.b) }

func Callback() C.int { return C.call(C.fn(C.goCallback), 1) }

var V = C.add(1, 1)
`, "d/d.go": "package d\n\nimport \"ex.com/m/c\"\n\nfunc D() { c.Add() }\n"}, "./...")
	if runCmd(CmdOpt{Dir: s.Dir}, "go", "build", "./...").Code != 0 {
		return nil
	}
	return s
}
