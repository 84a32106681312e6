package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

func init() { checks["C14"] = checkC14 }

// opaqueGen generates functions with and without code that the analysis
// cannot follow.
type opaqueGen struct {
	rnd    *rand.Rand
	src    strings.Builder
	want   map[string]map[string]bool // function → capabilities
	form   map[string]string
	called []string // functions with their calls, for callers
	n      int
}

func (g *opaqueGen) expect(fn, form string, caps ...string) {
	fn = "ex.com/m/p." + fn
	if strings.HasPrefix(fn, "ex.com/m/p.(") {
		fn = "(" + strings.TrimPrefix(fn, "ex.com/m/p.(")
	}
	if g.want[fn] == nil {
		g.want[fn] = map[string]bool{}
	}
	for _, c := range caps {
		g.want[fn][c] = true
	}
	g.form[fn] = form
}

// unsafeExpr returns an expression converting an unsafe pointer, the type of
// the expression, and whether it must be flagged.  Parameters p (a
// unsafe.Pointer), n (of a named type), a (of an alias) and u (uintptr) are
// in scope.
func (g *opaqueGen) unsafeExpr() (expr, form string, flagged bool) {
	from := [][2]string{{"p", "unsafe.Pointer"}, {"n", "named type"}, {"a", "alias"}, {"n2", "type named after a named type"}, {"(p)", "parenthesised"}, {"s.f", "field"}, {"arr[0]", "element"}, {"get()", "call"}, {"unsafe.Pointer(q)", "conversion"}, {"us.Pointer(q)", "renamed import"}, {"Pointer(q)", "dot import"}, {"*pp", "dereference"}, {"unsafe.Add(p, 1)", "unsafe.Add"}, {"(<-ch)", "receive"}, {"any(x).(P)", "assertion"}}[g.rnd.Intn(15)]
	to := [][2]string{{"*int", "pointer"}, {"*[4]byte", "pointer to array"}, {"IntPtr", "named pointer"}, {"AliasPtr", "alias of pointer"}, {"unsafe.Pointer", "unsafe.Pointer"}, {"P", "named unsafe pointer"}, {"*struct{ x int }", "pointer to struct"}, {"**func()", "pointer to pointer"}, {"*Gen[int]", "pointer to generic"}, {"any", "interface"}, {"PA", "alias of unsafe pointer"}, {"GenPtr[int]", "instance of a generic pointer"}, {"GenPtr2[int, string]", "instance of a generic pointer of two parameters"}, {"GenP[int]", "instance of a generic unsafe pointer"}, {"dep.Ptr", "named pointer of a dependency"}, {"dep.GenPtr[[]P]", "instance of a generic pointer of a dependency"}, {"LocalPtr", "local type"}, {"interface{}", "interface literal"}}[g.rnd.Intn(18)]
	safe := g.rnd.Intn(4) == 0
	if safe {
		switch g.rnd.Intn(7) {
		case 0:
			return "uintptr(" + from[0] + ")", "to uintptr from " + from[1], from[1] == "assertion" && false
		case 1:
			return "Word(" + from[0] + ")", "to type of underlying type uintptr from " + from[1], false
		case 2:
			return "unsafe.Pointer(q)", "from pointer to unsafe.Pointer", false
		case 3:
			return "P(u)", "from uintptr to named unsafe pointer", false
		case 4:
			return "unsafe.Pointer(u)", "from uintptr", false
		case 5:
			return "conv(p)", "call of a function named conv", false
		default:
			return "(*Ints)(&ints)", "conversion of another pointer", false
		}
	}
	t := to[0]
	if strings.HasPrefix(t, "*") || g.rnd.Intn(3) == 0 {
		t = "(" + t + ")"
	}
	if g.rnd.Intn(6) == 0 {
		t = "(" + t + ")"
	}
	return t + "(" + from[0] + ")", "from " + from[1] + " to " + to[1], true
}

const unsafeParams = "p unsafe.Pointer, n P, n2 P2, a PA, u uintptr, q *int, pp *unsafe.Pointer, s S, arr [2]P, ch chan unsafe.Pointer, x any"

// unsafeCase adds a function containing one conversion.
func (g *opaqueGen) unsafeCase() {
	id := g.n
	g.n++
	e, form, flagged := g.unsafeExpr()
	fn := fmt.Sprintf("U%d", id)
	self := fn // the function that contains the expression
	body := ""
	params := unsafeParams
	// Positions.
	k := g.rnd.Intn(34)
	if strings.Contains(e, "LocalPtr") && k >= 23 && k <= 25 {
		k = 0
	}
	switch k {
	case 0:
		body = "_ = " + e
	case 1:
		body = "v := " + e + "; _ = v"
	case 2:
		body = "var v = " + e + "; _ = v"
	case 3:
		body = "use(" + e + ")"
	case 4:
		body = "if box(" + e + ") == nil {\n}"
	case 5:
		body = "switch " + e + " {\n}"
	case 6:
		body = "switch any(nil) {\ncase " + e + ":\n}"
	case 7:
		body = "for box(" + e + ") == nil {\n}"
	case 8:
		body = "for range []any{" + e + "} {\n}"
	case 9:
		body = "_ = map[string]any{\"k\": " + e + "}"
	case 10:
		body = "_ = map[any]int{" + e + ": 1}"
	case 11:
		body = "defer use(" + e + ")"
	case 12:
		body = "go use(" + e + ")"
	case 13:
		body = "chAny <- " + e
	case 14:
		body = "select {\ncase chAny <- " + e + ":\ndefault:\n}"
	case 15:
		body = "switch box(" + e + ").(type) {\n}"
	case 16:
		body = "_ = struct{ f any }{f: " + e + "}"
	case 17:
		form += ", in a literal that is not called"
		body = "fn := func() any { return " + e + " }; _ = fn"
		self = fn + "$1"
	case 18:
		form += ", in a literal that is called"
		body = "use(func() any { return " + e + " }())"
		self = fn + "$1"
	case 19:
		form += ", in a nested literal"
		body = "_ = func() any { return func() any { return " + e + " } }"
		self = fn + "$1$1"
	case 20:
		body = "goto l\nl:\nuse(" + e + ")"
	case 21:
		body = "return\nuse(" + e + ")"
	case 22:
		body = "{ { use(1, " + e + ") } }"
	case 23:
		form += ", in a method"
		fn = fmt.Sprintf("(ex.com/m/p.M%d).m", id)
		self = fn
		fmt.Fprintf(&g.src, "type M%d struct{}\n\nfunc (M%d) m(%s) { use(%s) }\n\n", id, id, params, e)
	case 24:
		form += ", in a pointer method"
		fn = fmt.Sprintf("(*ex.com/m/p.M%d).m", id)
		self = fn
		fmt.Fprintf(&g.src, "type M%d struct{}\n\nfunc (*M%d) m(%s) { use(%s) }\n\n", id, id, params, e)
	case 25:
		form += ", in a generic function"
		fmt.Fprintf(&g.src, "func g%d[T any](t T, %s) { use(%s) }\n\n", id, params, e)
		body = fmt.Sprintf("g%d(1, p, n, n2, a, u, q, pp, s, arr, ch, x)", id)
	case 26:
		form += ", in a loop over a function"
		body = "for range seq {\n\t\tuse(" + e + ")\n\t}"
	case 27:
		form += ", in an argument of sort.Slice"
		body = "sort.Slice(" + e + ", func(i, j int) bool { return i < j })"
	case 28:
		form += ", in an argument of a deferred literal"
		body = "defer func(any) {}(" + e + ")"
	case 29, 30, 31, 32:
		// The converted pointer is used at once.
		d := [][2]string{
			{"*(*int)(p) = 1", "assigned through"}, {"(*[4]byte)(n)[1]++", "incremented element"}, {"_ = len((*[4]byte)(a)[:2])", "sliced"}, {"for range (*[4]byte)(p)[:] {\n\t}", "ranged over"},
			{"for (*[4]int)(p)[0] = range 3 {\n\t}", "loop variable"}, {"(*Gen[int])(n2).t, u = 1, 2", "field assigned"}, {"_ = [...]int{0: *(*int)(p)}", "element of a literal"}, {"(*HasM)(p).m()", "method called"},
			{"_ = (*HasM)(n).m", "method value"}, {"usePtr((*int)(p))", "argument of an inferred instance"}, {"usePtr[int]((*int)(p))", "argument of an explicit instance"}, {"sort.Slice(*(*[]int)(p), func(i, j int) bool { return i < j })", "sorted"},
			{"(*sync.Once)(p).Do(func() {})", "receiver of Once.Do"}, {"(*struct{ o sync.Once })(p).o.Do(func() {})", "in the receiver of Once.Do"}, {"sort.Sort((*SortX)(a))", "argument of sort.Sort"}, {"for range *(*func(func() bool))(p) {\n\t}", "loop over a converted function"},
			{"(*(*func())(p))()", "converted function called"}, {"_ = tpTo[*int](p)", "to a type parameter"}, {"go (*HasM)(p).m()", "method in a goroutine"}, {"switch v := any(*(*int)(p)).(type) {\n\tdefault:\n\t\t_ = v\n\t}", "type switch"},
			{"select {\n\tcase *(*int)(p) = <-chInt:\n\tdefault:\n\t}", "receive into"}, {"if x, ok := any(nil).(int); ok && x == *(*int)(n) {\n\t}", "condition"}, {"q = (GenPtr[int])(p)", "assigned"}, {"var arr2 [4]int; arr2[*(*int)(p)&3] = 1", "index"},
			{"return; _ = (*int)(p)", "after return"}, {"copy((*[4]byte)(p)[:], \"ab\")", "argument of copy"}, {"_ = unsafe.Slice((*byte)(p), 3)", "argument of unsafe.Slice"}, {"_ = unsafe.String((*byte)(n), 3)", "argument of unsafe.String"},
		}[g.rnd.Intn(28)]
		body, form, flagged = d[0], "conversion used: "+d[1], true
		e = ""
	default:
		form += ", in a dependency"
		body = fmt.Sprintf("dep.F%d(p)", id)
	}
	if k := strings.Index(form, "in a dependency"); k >= 0 {
		// The dependency has one function per case of its own.
		flagged = id%2 == 0
		form = fmt.Sprint("conversion in a dependency: ", flagged)
	}
	if strings.Contains(body, "LocalPtr") {
		body = "type LocalPtr *int\n\t" + body
	}
	if !strings.HasPrefix(fn, "(") {
		fmt.Fprintf(&g.src, "func %s(%s) {\n\t%s\n}\n\n", fn, params, body)
	}
	g.expect(self, form)
	g.expect(fn, form)
	if flagged {
		g.expect(self, form, "UNSAFE_POINTER")
		if self == fn || strings.Contains(form, "that is called") {
			g.expect(fn, form, "UNSAFE_POINTER")
		}
	}
	if !strings.HasPrefix(fn, "(") && g.rnd.Intn(2) == 0 {
		g.caller(fn, "unsafe.Pointer(nil), nil, nil, nil, 0, nil, nil, S{}, [2]P{}, nil, nil")
	}
}

// caller adds a function that calls fn in one of several ways.
func (g *opaqueGen) caller(fn, args string) {
	id := g.n
	g.n++
	name := fmt.Sprintf("C%d", id)
	full := "ex.com/m/p." + fn
	var body string
	how := ""
	switch g.rnd.Intn(5) {
	case 0:
		how, body = "call", fn+"("+args+")"
	case 1:
		how, body = "defer", "defer "+fn+"("+args+")"
	case 2:
		how, body = "variable", "f := "+fn+"\n\tf("+args+")"
	case 3:
		how, body = "not called", "_ = "+fn
	default:
		how, body = "literal", "func() { "+fn+"("+args+") }()"
	}
	fmt.Fprintf(&g.src, "func %s() {\n\t%s\n}\n\n", name, body)
	g.expect(name, how+" of "+g.form[full])
	if how == "not called" {
		return
	}
	for c := range g.want[full] {
		g.expect(name, how+" of "+g.form[full], c)
		if how == "literal" {
			g.expect(name+"$1", how+" of "+g.form[full], c)
		}
	}
	if how == "literal" {
		g.expect(name+"$1", how+" of "+g.form[full])
	}
}

// reflectCase adds a function that copies a reflect.Value.
func (g *opaqueGen) reflectCase() {
	id := g.n
	g.n++
	fn := fmt.Sprintf("R%d", id)
	type typ struct{ decl, val string } // a type containing reflect.Value and a value of it made from v
	ts := []typ{
		{"reflect.Value", "v"}, {"Str3", "Str3{1, Str{v: v}}"}, {"ValAlias", "v"}, {"Str", "Str{v: v}"}, {"StrS", "StrS{Str: Str{v: v}}"}, {"Arr", "Arr{v}"}, {"Arr2", "Arr2{1: {v: v}}"},
		{"struct{ a int; v reflect.Value }", "struct{ a int; v reflect.Value }{1, v}"}, {"[3]reflect.Value", "[3]reflect.Value{v}"}, {"[2][2]ValAlias", "[2][2]ValAlias{{v}}"}, {"GenS[reflect.Value]", "GenS[reflect.Value]{v}"}, {"StrTag", "StrTag{v: v}"},
		{"Deep", "Deep{1: {s: [1]Arr3{{1: StrS{Str: Str{v: v}}}}}}"}, {"DeepArr", "DeepArr{1: Arr4{0: {1: {v: v}}}}"}, {"Deep2", "Deep2{1, Str3{1, Str{v: v}}, [1]DeepArr{{1: Arr4{0: {1: {v: v}}}}}}"}, {"Deep3", "Deep3{a: Deep2{1, Str3{1, Str{v: v}}, [1]DeepArr{}}}"},
	}
	t := ts[g.rnd.Intn(len(ts))]
	neg := []typ{{"*reflect.Value", "&v2"}, {"[]reflect.Value", "nil"}, {"map[string]reflect.Value", "nil"}, {"func() reflect.Value", "nil"}, {"NoVal", "NoVal{}"}, {"reflect.Kind", "0"}, {"chan reflect.Value", "nil"}, {"reflect.Type", "nil"}, {"Value", "Value{}"}, {"any", "v"}, {"[2]*Str", "[2]*Str{}"}}
	flaggedType := true
	if g.rnd.Intn(5) == 0 {
		k := g.rnd.Intn(len(neg))
		for neg[k].decl == "*reflect.Value" {
			k = g.rnd.Intn(len(neg))
		}
		t = neg[k]
		flaggedType = false
	}
	form := "store of " + t.decl
	if g.rnd.Intn(2) == 0 {
		// The value is copied as a whole.
		mk := fmt.Sprintf("mk%d", id)
		fmt.Fprintf(&g.src, "func %s(v reflect.Value) %s { return %s }\n\n", mk, t.decl, t.val)
		g.expect(mk, "result "+t.decl)
		t.val = mk + "(v)"
	}
	body, params := "", "v reflect.Value"
	self := fn
	flagged := flaggedType
	args := "reflect.Value{}"
	ex := ""
	switch k := g.rnd.Intn(26); k {
	case 0:
		form += " to a global"
		fmt.Fprintf(&g.src, "var gl%d %s\n\n", id, t.decl)
		body = fmt.Sprintf("gl%d = %s", id, t.val)
	case 1:
		form += " through a pointer"
		params += ", d *" + t.decl
		body = "*d = " + t.val
		ex = ", nil"
	case 2:
		form += " to a field through a pointer"
		params += ", d *struct{ n int; f " + t.decl + " }"
		body = "d.f = " + t.val
		ex = ", nil"
	case 3:
		form += " to a slice element"
		params += ", d []" + t.decl
		body = "d[1] = " + t.val
		ex = ", nil"
	case 4:
		form += " to an array element through a pointer"
		params += ", d *[3]" + t.decl + ", i int"
		body = "d[i] = " + t.val
		ex = ", nil, 0"
	case 5:
		form += " to a captured variable"
		body = fmt.Sprintf("var c %s\n\tfunc(v reflect.Value) { c = %s }(v)\n\tuse(c)", t.decl, t.val)
		g.expect(fn+"$1", form)
		if flagged {
			g.expect(fn+"$1", form, "REFLECT")
		}
	case 6:
		form += " to an escaping local"
		body = fmt.Sprintf("c := %s(%s)\n\tusePtr(&c)", parenType(t.decl), t.val)
	case 7:
		form += " to a local"
		body = fmt.Sprintf("var c %s\n\tif v.IsValid() {\n\t\tc = %s\n\t}\n\tuse(c)", t.decl, t.val)
		flagged = false
	case 8:
		form += " to an element of a local array"
		body = fmt.Sprintf("var c [4]%s\n\tfor i := range c {\n\t\tc[i] = %s\n\t}\n\tuse(c)", t.decl, t.val)
		flagged = false
	case 9:
		form += " to a field of a local struct"
		body = fmt.Sprintf("var c struct{ n int; f [2]struct{ g %s } }\n\tfor i := 0; i < 2; i++ {\n\t\tc.f[i].g = %s\n\t}\n\tuse(c)", t.decl, t.val)
		flagged = false
	case 10:
		form += " to a map element"
		body = fmt.Sprintf("m := map[int]%s{}\n\tm[1] = %s", t.decl, t.val)
		flagged = false
	case 11:
		form += " to a channel"
		params += ", c chan " + t.decl
		body = "c <- " + t.val
		ex = ", nil"
		flagged = false
	case 12:
		form += " to a result"
		fmt.Fprintf(&g.src, "func res%d(v reflect.Value) %s { var v2 reflect.Value; _ = v2; return %s }\n\n", id, t.decl, t.val)
		body = fmt.Sprintf("use(res%d(v))", id)
		flagged = false
	case 13:
		form += " in a slice literal"
		body = fmt.Sprintf("useSlice([]%s{%s})", t.decl, t.val)
	case 14:
		form += " in a pointer literal"
		body = fmt.Sprintf("use(&struct{ f %s }{%s})", t.decl, t.val)
	case 15:
		form += " as variadic argument"
		fmt.Fprintf(&g.src, "func vari%d(...%s) {}\n\n", id, t.decl)
		body = fmt.Sprintf("vari%d(%s)", id, t.val)
	case 16:
		form += " to a global array element"
		fmt.Fprintf(&g.src, "var ga%d [3]struct{ f %s }\n\n", id, t.decl)
		body = fmt.Sprintf("ga%d[1].f = %s", id, t.val)
	case 17:
		form += " in a generic function"
		fmt.Fprintf(&g.src, "func gs%d[T any](d *T, t T) { *d = t }\n\n", id)
		params += ", d *" + t.decl
		body = fmt.Sprintf("gs%d[%s](d, %s)", id, t.decl, t.val)
		ex = ", nil"
	case 18:
		form += " in a literal that is not called"
		params += ", d *" + t.decl
		body = fmt.Sprintf("_ = func(v reflect.Value) { *d = %s }", t.val)
		self = fn + "$1"
		ex = ", nil"
	case 19:
		form += " in a method"
		fmt.Fprintf(&g.src, "type RM%d struct{ f %s }\n\nfunc (m *RM%d) set(v reflect.Value) { var v2 reflect.Value; _ = v2; m.f = %s }\n\n", id, t.decl, id, t.val)
		body = fmt.Sprintf("new(RM%d).set(v)", id)
		g.expect(fmt.Sprintf("(*ex.com/m/p.RM%d).set", id), form)
		if flagged {
			g.expect(fmt.Sprintf("(*ex.com/m/p.RM%d).set", id), form, "REFLECT")
		}
	case 20:
		form += " from a range over a slice"
		params += ", d, e []" + t.decl
		body = "for i, x := range d {\n\t\te[i] = x\n\t}"
		ex = ", nil, nil"
	case 21:
		form += " by multiple assignment"
		params += ", d, e *" + t.decl
		body = "*d, *e = *e, *d"
		ex = ", nil, nil"
	case 22:
		form += " with append"
		params += ", d []" + t.decl
		body = "d = append(d, " + t.val + ")\n\tuse(d)"
		ex = ", nil"
	case 23:
		form += " to a new variable"
		body = fmt.Sprintf("c := new(%s)\n\t*c = %s\n\tusePtr(c)", t.decl, t.val)
	case 24:
		form += " in a goroutine"
		fmt.Fprintf(&g.src, "var gg%d %s\n\n", id, t.decl)
		body = fmt.Sprintf("go func(v reflect.Value) { gg%d = %s }(v)", id, t.val)
		g.expect(fn+"$1", form)
		if flagged {
			g.expect(fn+"$1", form, "REFLECT")
		}
	default:
		form += " to a pointer in a local struct"
		params += ", d *" + t.decl
		body = "l := struct{ p *" + t.decl + " }{d}\n\t*l.p = " + t.val
		ex = ", nil"
	}
	fmt.Fprintf(&g.src, "func %s(%s) {\n\tvar v2 reflect.Value\n\t_ = v2\n\t%s\n}\n\n", fn, params, body)
	g.expect(fn, form)
	g.expect(self, form)
	if flagged {
		g.expect(self, form, "REFLECT")
	}
	if g.rnd.Intn(3) == 0 {
		g.caller(fn, args+ex)
	}
}

func parenType(s string) string { return "(" + s + ")" }

// execCase adds a function that uses functions without a body.
func (g *opaqueGen) execCase() {
	id := g.n
	g.n++
	fn := fmt.Sprintf("X%d", id)
	body, form, flagged := "", "", true
	switch g.rnd.Intn(13) {
	case 0:
		form, body = "assembly call", "asm1()"
	case 1:
		form, body = "assembly call with results", "_ = asm2(1)"
	case 2:
		form, body = "assembly deferred", "defer asm1()"
	case 3:
		form, body = "assembly in a goroutine", "go asm2(2)"
	case 4:
		form, body = "assembly through a variable", "f := asm1\n\tf()"
	case 5:
		form, body = "assembly in a method of a struct", fmt.Sprintf("var i interface{ m%d() } = AsmT%d{}\n\ti.m%d()", id, id, id)
		fmt.Fprintf(&g.src, "type AsmT%d struct{}\n\nfunc (AsmT%d) m%d() { asm1() }\n\n", id, id, id)
	case 6:
		form, body = "linkname call", "_ = linked()"
	case 7:
		form, body = "assembly of a dependency", "depasm.Asm()"
	case 8:
		form, body = "assembly of a dependency through a variable", "f := depasm.Asm\n\tf()"
	case 9:
		form, body, flagged = "assembly not called", "_ = asm1", false
	case 10:
		form, body, flagged = "Go function called in assembly package", "depasm.Plain()", false
	case 11:
		form, body, flagged = "nil function variable", "var f func()\n\tif f != nil {\n\t\tf()\n\t}", false
	default:
		form, body = "assembly in a struct", fmt.Sprintf("type t%d struct{ f func(int) int }\n\tx := t%d{asm2}\n\tx.f(1)", id, id)
	}
	fmt.Fprintf(&g.src, "func %s() {\n\t%s\n}\n\n", fn, body)
	g.expect(fn, form)
	if flagged {
		g.expect(fn, form, "ARBITRARY_EXECUTION")
	}
	if g.rnd.Intn(3) == 0 {
		g.caller(fn, "")
	}
}

var opaqueCaps = []string{"UNSAFE_POINTER", "REFLECT", "ARBITRARY_EXECUTION", "CGO"}

func (r *Run) opaqueProgram(rnd *rand.Rand, n int) (map[string]string, *opaqueGen) {
	g := &opaqueGen{rnd: rnd, want: map[string]map[string]bool{}, form: map[string]string{}}
	for i := 0; i < n; i++ {
		switch k := rnd.Intn(8); {
		case k < 4:
			g.unsafeCase()
		case k < 7:
			g.reflectCase()
		default:
			g.execCase()
		}
	}
	for i, c := range []string{"UNSAFE_POINTER", "UNSAFE_POINTER", "UNSAFE_POINTER", "", "", "UNSAFE_POINTER", "", "REFLECT", "", "", "REFLECT", "UNSAFE_POINTER", "UNSAFE_POINTER", "UNSAFE_POINTER", "", "UNSAFE_POINTER", "UNSAFE_POINTER", "UNSAFE_POINTER", "UNSAFE_POINTER"} {
		f := fmt.Sprint("TP", i+1)
		g.expect(f, "type parameters, "+f)
		if c != "" {
			g.expect(f, "type parameters, "+f, c)
		}
	}
	for _, f := range []string{"asm1", "asm2", "linked"} {
		g.expect(f, "function without a body", "ARBITRARY_EXECUTION")
	}
	for _, f := range []string{"(ex.com/m/p.AM).V", "(*ex.com/m/p.AM).P", "XM1", "XM2", "XM3", "XM4", "XM5", "XM6", "XM7"} {
		g.expect(f, "method without a body, "+f, "ARBITRARY_EXECUTION")
	}
	g.expect("XM8", "no method without a body")
	var dep strings.Builder
	dep.WriteString("package dep\n\nimport \"unsafe\"\n\nfunc use(...any) {}\n\n")
	for i := 0; i < g.n; i++ {
		if i%2 == 0 {
			fmt.Fprintf(&dep, "func F%d(p unsafe.Pointer) { use((*int)(p)) }\n", i)
		} else {
			fmt.Fprintf(&dep, "func F%d(p unsafe.Pointer) { use(uintptr(p)) }\n", i)
		}
	}
	head := `package p

import (
	"reflect"
	"sort"
	"sync"
	"unsafe"
	us "unsafe"
	. "unsafe"

	"ex.com/m/dep"
	"ex.com/m/depasm"
)

type P unsafe.Pointer
type P2 P
type PA = unsafe.Pointer
type IntPtr *int
type AliasPtr = *int
type Word uintptr
type Ints [2]int
type Gen[T any] struct{ t T }
type GenPtr[T any] *T
type GenPtr2[K comparable, V any] *map[K]V
type GenP[T any] unsafe.Pointer
type HasM struct{ n int }
type SortX []int

func (*HasM) m()                  {}
func (*SortX) Len() int           { return 0 }
func (*SortX) Less(i, j int) bool { return false }
func (*SortX) Swap(i, j int)      {}
func seq(func() bool)             {}

func tpTo[T ~*int](p unsafe.Pointer) T { return T(p) }

var chInt chan int
var _ = sort.Ints
var _ sync.Mutex

type S struct{ f P }
type Str3 struct {
	n int
	s Str
}
type ValAlias = reflect.Value
type Str struct {
	n int
	v reflect.Value
}
type StrS struct {
	Str
	s string
}
type StrTag struct {
	v ValAlias ` + "`json:\"x\"`" + `
	_ int
}
type Arr [2]reflect.Value
type Arr2 [2]Str
type Arr3 [2]StrS
type Arr4 [1]Arr2
type Deep [2]struct {
	n int
	s [1]Arr3
}
type DeepArr [2]Arr4
type Deep2 struct {
	n int
	s Str3
	d [1]DeepArr
}
type Deep3 struct {
	_ [0]func()
	a Deep2
}
type GenS[T any] struct{ t T }
type NoVal struct {
	p *reflect.Value
	s []reflect.Value
	f func(reflect.Value)
	m map[string]Str
}
type Value struct{ n int }

var ints [2]int
var chAny chan any
var _ = us.Pointer(nil)
var _ Pointer
var _ dep.T
var _ depasm.T

func asm1()
func asm2(int) int

type AM struct{ x int }

func (AM) V(int) int
func (*AM) P()

type AME struct{ *AM }

func XM1()        { AM{}.V(1) }
func XM2(a *AM)   { a.P() }
func XM3(a AME)   { a.P() }
func XM4()        { var i interface{ P() } = &AM{1}; i.P() }
func XM5()        { f := AM{}.V; f(1) }
func XM6(a *AM)   { f := (*AM).P; f(a) }
func XM7()        { var i interface{ V(int) int } = AME{&AM{}}; i.V(2) }
func XM8(a *AM)   { use(a.x) }

func use(...any)                 {}
func box(x any) any              { return x }
func usePtr[T any](*T)           {}
func useSlice[T any]([]T)        {}
func get() unsafe.Pointer        { return nil }
func conv(p unsafe.Pointer) *int { return nil }

func tp1[T ~unsafe.Pointer](t T) *int                    { return (*int)(t) }
func tp2[T interface{ P | PA }](t T) *int                { return (*int)(t) }
func tp3[T Union](t T) IntPtr                            { return IntPtr(t) }
func tp4[T ~uintptr](t T) unsafe.Pointer                 { return unsafe.Pointer(t) }
func tp5[T ~unsafe.Pointer](t T) uintptr                 { return uintptr(t) }
func (g GenM[T]) conv() *int                             { return (*int)(g.t) }
func (g GenM[T]) conv2() uintptr                         { return uintptr(g.t) }
func (g *GenN[T]) set(t T)                               { g.t[1].t = t }
func (g *GenN[T]) get() T                                { return g.t[0].t }
func TP1(p unsafe.Pointer)                               { tp1(p) }
func TP2(p P)                                            { tp2(p) }
func TP3(p P2)                                           { tp3(p) }
func TP4()                                               { tp4(Word(1)) }
func TP5(p P)                                            { tp5(p) }
func TP6(p P)                                            { GenM[P]{p}.conv() }
func TP7(p P)                                            { GenM[P]{p}.conv2() }
func TP8(v reflect.Value, g *GenN[reflect.Value])        { g.set(v) }
func TP9(v reflect.Value, g *GenN[int])                  { g.set(1) }
func TP10(v reflect.Value, g *GenN[reflect.Value])       { use(g.get()) }
func TP11(v reflect.Value, g *GenN[Arr2], a Arr2)        { g.set(a) }
func TP12(p P, g func(P) *int)                           { f := tp1[P]; f(p) }
func TP13(p P)                                           { tp13(p) }
func TP14(p P)                                           { tp14(p) }
func TP15(p P)                                           { tp15(p) }
func TP16(p P)                                           { tp16[int, P](p) }
func TP17(p P)                                           { new(GenQ[P, int]).conv(p) }
func TP18(p P)                                           { tp18(p)() }
func TP19(p P)                                           { tp19[P, *int](p) }

func tp13[T interface {
	comparable
	Union
}](t T) *int { return (*int)(t) }
func tp14[T interface {
	Union
	any
}](t T) *int { return (*int)(t) }
func tp15[T interface {
	comparable
	Union
}](t T) Word { return Word(t) }
func tp16[K any, T Union2](t T) *K        { return (*K)(t) }
func tp18[T Union](t T) func() *int       { return func() *int { return (*int)(t) } }
func tp19[T Union, U interface{ *int }](t T) U { return U(t) }

type Union2 interface {
	comparable
	interface{ Union | P2 }
}
type GenQ[T Union, V any] struct{}

func (*GenQ[T, V]) conv(t T) *V { return (*V)(t) }

type Union interface{ ~unsafe.Pointer }
type GenM[T Union] struct{ t T }
type GenN[T any] struct{ t [2]GenS[T] }

//go:linkname linked runtime.nanotime
func linked() int64

`
	dep.WriteString("\ntype T int\ntype Ptr *int\ntype GenPtr[T any] *T\n")
	files := map[string]string{
		"p/p.go":          head + g.src.String(),
		"p/p_amd64.s":     "#include \"textflag.h\"\n\nTEXT ·asm1(SB),NOSPLIT,$0\n\tRET\n\nTEXT ·asm2(SB),NOSPLIT,$0-16\n\tRET\n\n",
		"dep/d.go":        dep.String(),
		"depasm/d.go":     "package depasm\n\ntype T int\n\nfunc Asm()\nfunc Plain() {}\n",
		"depasm/d_a.s":    "#include \"textflag.h\"\n\nTEXT ·Asm(SB),NOSPLIT,$0\n\tRET\n",
		"go.mod":          "module ex.com/m\n\ngo 1.23\n",
		"inits/a/a.go":    "package a\n\nimport \"unsafe\"\n\nvar U unsafe.Pointer\nvar X = (*int)(U)\n\nfunc F() {}\n",
		"inits/b/b.go":    "package b\n\nimport \"unsafe\"\n\nvar U unsafe.Pointer\nvar X = func() *int { return (*int)(U) }\n\nfunc F() {}\nfunc G() { X() }\n",
		"inits/c/c.go":    "package c\n\nimport \"unsafe\"\n\nvar U unsafe.Pointer\n\nfunc init() { _ = (*int)(U) }\n\nfunc F() {}\n",
		"inits/d/d.go":    "package d\n\nimport _ \"ex.com/m/inits/a\"\n\nfunc F() {}\n",
		"inits/e/e.go":    "package e\n\nimport \"unsafe\"\n\nvar U unsafe.Pointer\nvar M = map[string][]any{\"x\": {1, struct{ p *int }{(*int)(U)}}}\n\nfunc F() {}\n",
		"inits/f/f.go":    "package f\n\nimport \"unsafe\"\n\nvar U unsafe.Pointer\nvar A, B = uintptr(U), unsafe.Pointer(new(int))\n\nfunc F() {}\n",
		"inits/g/g.go":    "package g\n\nfunc F() {}\n",
		"inits/g/g2.go":   "package g\n\nimport \"unsafe\"\n\nvar (\n\tU unsafe.Pointer\n\tx, y = 1, (*string)(U)\n)\n",
		"inits/h/h.go":    "package h\n\nimport (\n\t\"reflect\"\n)\n\nvar V reflect.Value\nvar W = struct{ v reflect.Value }{V}\n\nfunc F() {}\n",
		"inits/i/i.go":    "package i\n\nfunc A() int\n\nvar X = A()\n\nfunc F() {}\n",
		"inits/i/i.s":     "#include \"textflag.h\"\n\nTEXT ·A(SB),NOSPLIT,$0-8\n\tRET\n",
		"inits/j/j.go":    "package j\n\nimport \"unsafe\"\n\nvar U unsafe.Pointer\nvar X = func() *int { return (*int)(U) }()\n\nfunc F() {}\n",
		"inits/k/k.go":    "package k\n\nimport \"unsafe\"\n\nvar U unsafe.Pointer\nvar _ = (*int)(U)\n\nfunc F() {}\n",
		"inits/l/l.go":    "package l\n\nimport \"unsafe\"\n\ntype T struct{ p unsafe.Pointer }\n\nfunc (t T) M() *int { return (*int)(t.p) }\nfunc (t T) N() uintptr { return uintptr(t.p) }\n\nvar X = T{}.M\nvar Y = T{}.N()\n\nfunc F() { X() }\n",
		"inits/m/m1.go":   "package m\n\nimport \"unsafe\"\n\nvar U unsafe.Pointer\nvar X = (*int)(U)\n",
		"inits/m/m2.go":   "package m\n\nvar Y = 2\n\nfunc F() {}\n",
		"inits/m/m3.go":   "package m\n\nvar Z = uintptr(U)\n",
		"inits/n/n.go":    "package n\n\nimport \"reflect\"\n\nfunc mk() (v reflect.Value) { return }\n\nvar V = mk()\n\nfunc F() { mk() }\n",
		"inits/none/n.go": "package none\n\nimport (\n\t\"reflect\"\n\t\"unsafe\"\n)\n\nvar P *reflect.Value\nvar U unsafe.Pointer\nvar S = unsafe.Sizeof(P)\n\nfunc F(v reflect.Value) reflect.Value { w := v; return w }\n",
	}
	for fn, caps := range map[string]string{
		"a.init": "UNSAFE_POINTER", "a.F": "", "b.init": "", "b.init$1": "UNSAFE_POINTER", "b.F": "", "b.G": "UNSAFE_POINTER", "c.init": "UNSAFE_POINTER", "c.init#1": "UNSAFE_POINTER", "d.init": "UNSAFE_POINTER", "d.F": "",
		"e.init": "UNSAFE_POINTER", "f.init": "", "g.init": "UNSAFE_POINTER", "g.F": "", "h.init": "REFLECT", "h.F": "", "i.init": "ARBITRARY_EXECUTION", "i.A": "ARBITRARY_EXECUTION", "i.F": "",
		"j.init": "UNSAFE_POINTER", "j.init$1": "UNSAFE_POINTER", "j.F": "", "k.init": "UNSAFE_POINTER", "l.init": "", "(T).M": "", "l.F": "UNSAFE_POINTER", "m.init": "UNSAFE_POINTER", "m.F": "", "n.init": "REFLECT", "n.mk": "", "n.F": "", "none.init": "", "none.F": "",
	} {
		full := "ex.com/m/inits/" + fn
		form := "initialisation"
		if fn == "(T).M" {
			full, caps = "(ex.com/m/inits/l.T).M", "UNSAFE_POINTER"
		}
		g.want[full] = map[string]bool{}
		if caps != "" {
			g.want[full][caps] = true
		}
		g.form[full] = form
	}
	g.want["(ex.com/m/inits/l.T).N"] = map[string]bool{}
	g.form["(ex.com/m/inits/l.T).N"] = "method used in initialisation"
	return files, g
}

func (r *Run) compareOpaque(c *Case, want map[string]map[string]bool, form map[string]string, what string) {
	rep, args := r.report(c)
	if rep == nil {
		return
	}
	got := map[string]map[string]bool{}
	for _, e := range rep.CapabilityInfo {
		f := e.fn()
		if got[f] == nil {
			got[f] = map[string]bool{}
		}
		got[f][strings.TrimPrefix(e.Capability, "CAPABILITY_")] = true
	}
	for _, f := range sortedKeys(want) {
		var a, b []string
		for _, k := range append([]string{"FILES", "NETWORK"}, opaqueCaps...) {
			if got[f][k] {
				a = append(a, k)
			}
			if want[f][k] {
				b = append(b, k)
			}
		}
		if strings.Join(a, " ") != strings.Join(b, " ") {
			r.Violate(fmt.Sprintf("%s/%s", what, formKey(form[f])), fmt.Sprintf("%s: %s (%s) is reported with %v, expected %v", c.describe(), f, form[f], a, b), c.replay(r, args, nil), c.replayDir())
		}
		r.Count("functions compared", 1)
		if len(b) > 0 {
			r.Count("functions expected to be flagged", 1)
		}
		key := ""
		if form[f] != "" {
			key = what + " " + formKey(form[f])
		}
		r.Eval(key)
	}
	if len(want) > 0 {
		fs := sortedKeys(want)
		sort.Strings(fs)
		f := fs[len(fs)/3]
		r.Sample(map[string]any{"case": what, "function": f, "form": form[f], "reported": sortedKeys(got[f])})
	}
}

func checkC14(r *Run) {
	r.rule = "one evaluation = the opaque-code capabilities reported for one generated function, compared with its construction; non-trivial = distinct spelling, position and settings"
	r.parallel(r.pick(14, 60), 4, func(k int) {
		rnd := r.rng(fmt.Sprint("prog", k))
		files, g := r.opaqueProgram(rnd, 110)
		s := r.srcSubject(fmt.Sprintf("opaque%d", k), files, "./p", "./inits/...")
		if res := runCmd(CmdOpt{Dir: s.Dir}, "go", "build", "./..."); res.Code != 0 {
			r.inconclusive("generated program does not build: %s", clip(res.Err, 3000))
		}
		r.compareOpaque(&Case{S: s, Name: "builtin"}, g.want, g.form, "flagged")
		// Disabled built-in analysis: only the user map counts.
		um := newCapMap()
		um.Func["ex.com/m/p.use"] = "FILES"
		want := map[string]map[string]bool{}
		for f := range g.want {
			want[f] = map[string]bool{}
		}
		dis := &Case{S: s, Name: "disabled", User: um, NoBlt: true}
		rep, args := r.report(dis)
		if rep == nil {
			return
		}
		nf := 0
		for _, e := range rep.CapabilityInfo {
			switch strings.TrimPrefix(e.Capability, "CAPABILITY_") {
			case "FILES":
				nf++
			default:
				r.Violate("disabled/"+e.Capability, fmt.Sprintf("with built-in analysis disabled, %s is reported with %s", e.fn(), e.Capability), dis.replay(r, args, nil), dis.replayDir())
			}
		}
		if nf == 0 {
			r.Violate("disabled/lost", "with built-in analysis disabled, no finding of the user map is left", dis.replay(r, args, nil), dis.replayDir())
		}
		r.Count("user-map findings with disabled built-in analysis", nf)
		r.Eval(fmt.Sprintf("disabled, %d findings", nf))
		// Functions categorised by the user map keep that category only.
		um = newCapMap()
		want = map[string]map[string]bool{}
		for f, c := range g.want {
			want[f] = map[string]bool{}
			for k := range c {
				want[f][k] = true
			}
		}
		var direct []string
		for _, f := range sortedKeys(g.want) {
			if strings.Contains(f, "/p.U") && !strings.Contains(f, "$") && len(g.want[f]) == 1 && strings.Contains(g.form[f], " to ") && !strings.Contains(g.form[f], "literal") && !strings.Contains(g.form[f], "generic function") {
				direct = append(direct, f)
			}
		}
		callers := map[string]bool{}
		for f, fm := range g.form {
			if strings.Contains(f, "/p.C") {
				callers[f] = true
				_ = fm
			}
		}
		for i, f := range direct {
			switch i % 3 {
			case 0:
				um.Func[f] = "SAFE"
				want[f] = map[string]bool{}
			case 1:
				um.Func[f] = "NETWORK"
				want[f] = map[string]bool{"NETWORK": true}
			}
		}
		// Callers of recategorised functions are left to the next check.
		for f := range callers {
			delete(want, f)
		}
		r.compareOpaque(&Case{S: s, Name: "recategorised", User: um}, want, g.form, "recategorised")
		r.Count("functions recategorised", len(um.Func))
	})
	// C.
	if s := r.cgoSubject(); s != nil {
		want := map[string]map[string]bool{"ex.com/m/c.Add": {"CGO": true}, "ex.com/m/c.Errno": {"CGO": true}, "ex.com/m/c.Callback": {"CGO": true}, "ex.com/m/c.init": {"CGO": true}, "ex.com/m/c.Str": {"CGO": true}, "ex.com/m/d.D": {"CGO": true}}
		for _, f := range []string{"ex.com/m/c.OnlyCString", "ex.com/m/c.OnlyCBytes", "ex.com/m/c.OnlyGoString", "ex.com/m/c.OnlyGoStringN", "ex.com/m/c.OnlyGoBytes", "ex.com/m/c.OnlyMalloc", "ex.com/m/c.OnlyPtr", "ex.com/m/c.OnlyGo", "ex.com/m/c.OnlyLit$1", "(ex.com/m/c.T).Method", "(*ex.com/m/c.T).PtrMethod"} {
			want[f] = map[string]bool{"CGO": true}
		}
		form := map[string]string{}
		for f := range want {
			form[f] = "cgo " + f
		}
		rep, args := r.report(&Case{S: s, Name: "builtin"})
		if rep != nil {
			got := rep.pairs()
			for _, f := range []string{"ex.com/m/c.OnlyConst", "ex.com/m/c.OnlyLit", "ex.com/m/c.Struct", "(*ex.com/m/c.T).NoC"} {
				if got[f+" CGO"] != 0 {
					r.Violate("cgo/"+f, fmt.Sprintf("%s calls no C but is reported with CGO", f), map[string]string{"command.txt": strings.Join(args, " ")}, s.Dir)
				}
				r.Eval("no cgo " + f)
			}
			for f := range want {
				if got[f+" CGO"] != 1 {
					r.Violate("cgo/"+f, fmt.Sprintf("%s calls C but is not reported with CGO", f), map[string]string{"command.txt": strings.Join(args, " ")}, s.Dir)
				}
				r.Eval(form[f])
				r.Count("functions calling C", 1)
			}
		}
	}
	r.Require("functions expected to be flagged", 100)
	r.Require("user-map findings with disabled built-in analysis", 10)
}
