package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

func init() { checks["C15"] = checkC15 }

// A sortCase is one function F<id> of a generated package containing one call
// to a sort function or to (*sync.Once).Do.
type sortCase struct {
	id       int
	form     string
	decls    string
	body     string
	possible []int // sinks that this call can lead to
	must     []int // sinks that the construction says are executed
	precise  bool  // nothing else may be reported
	builtin  bool  // with the built-in map, the call itself is not reported as UNANALYZED
	results  string
}

// sortGen generates cases.
type sortGen struct {
	rnd   *rand.Rand
	nsink int
	cases []*sortCase
}

func (g *sortGen) sink() int { g.nsink++; return g.nsink }

func callSink(n int) string { return fmt.Sprintf("rt.S%d()", n) }

func (g *sortGen) one(id int) *sortCase {
	rnd := g.rnd
	c := &sortCase{id: id, precise: true, builtin: true}
	hit := func(n int) { c.possible = append(c.possible, n); c.must = append(c.must, n) }
	var form []string
	note := func(s string) { form = append(form, s) }
	kind := []string{"Sort", "Stable", "IsSorted", "Slice", "SliceStable", "Once", "Once"}[rnd.Intn(7)]
	note(kind)
	var pre []string // statements before the call
	var call string
	calls := false // the receiver or a data argument contains a call
	// evalFn declares a function of the given result type that reaches a sink.
	evalFn := func(typ, val string) string {
		n := g.sink()
		hit(n)
		name := fmt.Sprintf("ev%d_%d", id, n)
		c.decls += fmt.Sprintf("func %s() %s { %s; return %s }\n", name, typ, callSink(n), val)
		calls = true
		return name + "()"
	}
	pkg := []string{"sort", "sort", "sort", "srt"}[rnd.Intn(4)]
	if kind != "Once" && rnd.Intn(12) == 0 {
		pkg = "" // dot import
		note("dot import")
		c.precise, c.builtin = false, false
	} else if pkg == "srt" {
		note("renamed import")
	}
	sel := func(fn string) string {
		if pkg == "" {
			return fn
		}
		return pkg + "." + fn
	}
	switch kind {
	case "Sort", "Stable", "IsSorted":
		T := fmt.Sprintf("T%d", id)
		l, le, sw := g.sink(), g.sink(), g.sink()
		hit(l)
		hit(le)
		c.possible = append(c.possible, sw)
		if kind != "IsSorted" {
			c.must = append(c.must, sw)
		}
		c.decls += fmt.Sprintf("type %s []int\n\nfunc (t %s) Len() int { %s; return len(t) }\nfunc (t %s) Less(i, j int) bool { %s; return t[i] < t[j] }\nfunc (t %s) Swap(i, j int) { %s; t[i], t[j] = t[j], t[i] }\n", T, T, callSink(l), T, callSink(le), T, callSink(sw))
		lit := T + "{3, 1, 2}"
		arg := ""
		switch k := rnd.Intn(23); k {
		case 0:
			note("literal")
			arg = lit
		case 1:
			note("variable")
			pre = append(pre, "x := "+lit)
			arg = "x"
		case 2:
			note("interface variable")
			pre = append(pre, "var x sort.Interface = "+lit)
			arg = "x"
		case 3:
			note("call")
			arg = evalFn(T, lit)
		case 4:
			note("conversion")
			arg = T + "([]int{3, 1, 2})"
		case 5:
			note("parenthesised")
			arg = "((" + lit + "))"
		case 6:
			note("index with call")
			n := evalFn("int", "0")
			pre = append(pre, "a := [1]"+T+"{"+lit+"}")
			arg = "a[" + n + "]"
		case 7:
			note("field")
			pre = append(pre, "x := struct{ f "+T+" }{"+lit+"}")
			arg = "x.f"
		case 8:
			note("type assertion")
			pre = append(pre, "var x any = "+lit)
			arg = "x.(sort.Interface)"
		case 9:
			note("dereference")
			pre = append(pre, "x := &"+lit)
			arg = "*x"
		case 10:
			note("pointer")
			pre = append(pre, "x := "+lit)
			arg = "&x"
		case 11:
			note("function literal called")
			n := g.sink()
			hit(n)
			arg = "func() " + T + " { " + callSink(n) + "; return " + lit + " }()"
			calls = true
		case 12:
			note("embedded in a struct")
			c.decls += fmt.Sprintf("type E%d struct {\n\t%s\n\tx int\n}\n", id, T)
			arg = fmt.Sprintf("E%d{%s: %s}", id, T, lit)
		case 13:
			note("embedded interface")
			arg = "struct{ sort.Interface }{" + lit + "}"
			// The embedded interface field is a type shared with other cases.
			c.precise = false
		case 14:
			note("reverse")
			arg = sel2(pkg, "Reverse") + "(" + lit + ")"
			c.precise, c.builtin = false, false
		case 15:
			note("channel receive")
			pre = append(pre, "x := make(chan "+T+", 3)", "x <- "+lit, "x <- "+lit, "x <- "+lit)
			arg = "<-x"
		case 16:
			note("slice expression with calls")
			n := evalFn("int", "0")
			pre = append(pre, "x := "+lit)
			arg = "x[" + n + ":len(x):cap(x)]"
		case 17:
			note("alias type")
			c.decls += fmt.Sprintf("type A%d = %s\n", id, T)
			arg = fmt.Sprintf("A%d{3, 2, 1}", id)
		case 18:
			note("global")
			c.decls += fmt.Sprintf("var g%d sort.Interface = %s\n", id, lit)
			arg = fmt.Sprintf("g%d", id)
		case 19:
			note("literal with call in element")
			n := evalFn("int", "3")
			arg = T + "{" + n + ", 1, 2}"
		case 20:
			note("map element")
			pre = append(pre, "x := map[string]"+T+"{\"k\": "+lit+"}")
			n := evalFn("string", `"k"`)
			arg = "x[" + n + "]"
		case 21:
			note("method named Reverse")
			n, m := g.sink(), g.sink()
			hit(n)
			hit(m)
			c.decls += fmt.Sprintf("type R%d struct{ %s }\n\nfunc (r R%d) Len() int { %s; return r.%s.Len() }\n\ntype P%d struct{}\n\nfunc (P%d) Reverse(x %s) R%d { %s; return R%d{x} }\n", id, T, id, callSink(n), T, id, id, T, id, callSink(m), id)
			arg = fmt.Sprintf("P%d{}.Reverse(%s)", id, lit)
			calls = true
		default:
			note("method call chain")
			n := g.sink()
			hit(n)
			c.decls += fmt.Sprintf("type C%d struct{}\n\nfunc (c C%d) self() C%d { %s; return c }\nfunc (C%d) get() %s { return %s }\n", id, id, id, callSink(n), id, T, lit)
			arg = fmt.Sprintf("C%d{}.self().get()", id)
			calls = true
		}
		call = sel(kind) + "(" + arg + ")"
		if rnd.Intn(14) == 0 {
			note("generic helper")
			c.decls += fmt.Sprintf("func gen%d[X sort.Interface](x X) { sort.%s(x) }\n", id, kind)
			call = fmt.Sprintf("gen%d(%s)", id, arg)
			if kind == "IsSorted" {
				kind = "genIsSorted"
			}
		}
	case "Slice", "SliceStable":
		le := g.sink()
		hit(le)
		data := "[]int{3, 1, 2}"
		switch rnd.Intn(13) {
		case 8:
			note("data parenthesised binary operand")
			pre = append(pre, "d := "+data)
			data = "(d[1*(" + evalFn("int", "0") + "+0):])"
		case 9:
			note("data slice maximum")
			pre = append(pre, "d := "+data)
			data = "d[0:2:" + evalFn("int", "3") + "]"
		case 10:
			note("data unary operand")
			pre = append(pre, "d := "+data)
			data = "d[-(" + evalFn("int", "0") + "):3]"
		case 11:
			note("data assertion of call")
			data = evalFn("any", data) + ".([]int)"
		case 0:
			note("data literal")
		case 1:
			note("data variable")
			pre = append(pre, "d := "+data)
			data = "d"
		case 2:
			note("data call")
			data = evalFn("[]int", data)
		case 3:
			note("data field of call")
			data = evalFn(fmt.Sprintf("Dt%d", id), fmt.Sprintf("Dt%d{f: []int{3, 1, 2}}", id)) + ".f"
			c.decls += fmt.Sprintf("type Dt%d struct{ f []int }\n", id)
		case 4:
			note("data literal with call")
			data = "[]int{3, " + evalFn("int", "1") + ", 2}"
		case 5:
			note("data literal with call in nested key and value")
			data = "[]struct{ m map[int]int }{{map[int]int{" + evalFn("int", "1") + ": " + evalFn("int", "2") + "}}, {}, {}}"
		case 6:
			note("data slice expression")
			pre = append(pre, "d := "+data)
			data = "d[:" + evalFn("int", "3") + "]"
		case 7:
			note("data assertion of index")
			pre = append(pre, "d := []any{"+data+"}")
			data = "d[-" + evalFn("int", "0") + "].([]int)"
		default:
			note("data pointer dereference of call")
			c.decls += fmt.Sprintf("var pd%d = []int{3, 2, 1}\n", id)
			data = "*" + evalFn("*[]int", fmt.Sprintf("&pd%d", id))
		}
		cb, cbPre := g.callback(c, id, fmt.Sprintf("(i, j int) bool { %s; return i < j }", callSink(le)), "func(int, int) bool", hit, note)
		pre = append(pre, cbPre...)
		call = sel(kind) + "(" + data + ", " + cb + ")"
	case "Once":
		n := g.sink()
		hit(n)
		recv := ""
		switch rnd.Intn(16) {
		case 11:
			note("type assertion of call")
			recv = evalFn("any", "new(sync.Once)") + ".(*sync.Once)"
		case 12:
			note("dereferenced call")
			recv = "(*" + evalFn("*sync.Once", "new(sync.Once)") + ")"
		case 13:
			note("element of a slice expression")
			pre = append(pre, "a := make([]sync.Once, 2)")
			recv = "a[" + evalFn("int", "1") + ":][0]"
		case 14:
			note("field of a literal with a call")
			c.decls += fmt.Sprintf("type W%d struct {\n\tn int\n\to *sync.Once\n}\n", id)
			recv = fmt.Sprintf("(W%d{n: %s, o: new(sync.Once)}).o", id, evalFn("int", "1"))
		case 0:
			note("local once")
			pre = append(pre, "var o sync.Once")
			recv = "o"
		case 1:
			note("pointer")
			pre = append(pre, "o := new(sync.Once)")
			recv = "o"
		case 2:
			note("returned by a call")
			recv = evalFn("*sync.Once", "new(sync.Once)")
		case 3:
			note("field")
			pre = append(pre, "var s struct{ a struct{ o sync.Once } }")
			recv = "s.a.o"
		case 4:
			note("index with call")
			pre = append(pre, "var a [2]sync.Once")
			recv = "a[" + evalFn("int", "1") + "]"
		case 5:
			note("embedded")
			pre = append(pre, "var s struct{ sync.Once }")
			recv = "s"
			c.precise, c.builtin = false, false
		case 6:
			note("explicit dereference")
			pre = append(pre, "o := new(sync.Once)")
			recv = "(*o)"
		case 7:
			note("address of")
			pre = append(pre, "var o sync.Once")
			recv = "(&o)"
		case 8:
			note("global")
			c.decls += fmt.Sprintf("var once%d sync.Once\n", id)
			recv = fmt.Sprintf("once%d", id)
		case 9:
			note("composite literal")
			recv = "(&sync.Once{})"
		case 10:
			note("alias type")
			c.decls += fmt.Sprintf("type O%d = sync.Once\n", id)
			pre = append(pre, fmt.Sprintf("var o O%d", id))
			recv = "o"
		default:
			note("map of pointers")
			pre = append(pre, "m := map[int]*sync.Once{7: {}}")
			recv = "m[" + evalFn("int", "7") + "]"
		}
		cb, cbPre := g.callback(c, id, "() { "+callSink(n)+" }", "func()", hit, note)
		pre = append(pre, cbPre...)
		call = recv + ".Do(" + cb + ")"
		if rnd.Intn(16) == 0 && strings.IndexByte(recv, '(') < 0 && !strings.Contains(recv, "[") && form[1] != "embedded" {
			note("method expression")
			pre = append(pre, "_ = &"+recv)
			call = "(*sync.Once).Do(new(sync.Once), " + cb + ")"
			c.precise, c.builtin = false, false
		}
	}
	if calls && kind != "Sort" && kind != "Stable" && kind != "IsSorted" {
		// The call is analysed as it stands.
		c.precise, c.builtin = false, false
	}
	// The position of the call.
	stmt := call
	body := strings.Join(pre, "\n\t")
	if body != "" {
		body += "\n\t"
	}
	inexact := func() { c.precise, c.builtin = false, false }
	isExpr := kind == "IsSorted"
	switch k := rnd.Intn(26); {
	case k < 5:
		note("statement")
	case k == 5:
		note("if body")
		stmt = "if rt.True() {\n" + call + "\n}"
	case k == 6:
		note("else body")
		stmt = "if !rt.True() {\n} else {\n" + call + "\n}"
	case k == 7:
		note("for body")
		stmt = "for i := 0; i < 1; i++ {\n" + call + "\n}"
	case k == 8:
		note("for init")
		stmt = "for " + paren(call) + "; false; {\n}"
		inexact()
	case k == 9:
		note("for post")
		stmt = "for i := 0; i < 1; " + paren(call) + " {\ni++\n}"
		inexact()
	case k == 10:
		note("if init")
		stmt = "if " + paren(call) + "; true {\n}"
		inexact()
	case k == 11:
		note("switch init")
		stmt = "switch " + paren(call) + "; {\n}"
		inexact()
	case k == 12:
		note("case body")
		stmt = "switch {\ncase rt.True():\n" + call + "\ndefault:\n}"
	case k == 13:
		note("type switch body")
		stmt = "switch any(1).(type) {\ncase string:\ncase int:\n" + call + "\n}"
	case k == 14:
		note("select body")
		stmt = "select {\ndefault:\n" + call + "\n}"
	case k == 15:
		note("labelled")
		stmt = fmt.Sprintf("goto l%d\nl%d:\n%s", id, id, call)
	case k == 16:
		note("defer")
		stmt = "defer " + call
		inexact()
	case k == 17:
		note("go")
		stmt = "rt.Go()\ngo " + call
		inexact()
	case k == 18 && isExpr:
		note("condition")
		stmt = "if " + paren(call) + " {\n}"
		inexact()
	case k == 19 && isExpr:
		note("assigned")
		stmt = "_ = " + call
		inexact()
	case k == 20 && isExpr:
		note("returned")
		stmt = "return " + call
		c.results = "bool"
		inexact()
	case k == 21:
		note("parenthesised callee")
		if i := strings.IndexByte(call, '('); i > 0 && !strings.HasPrefix(call, "gen") && kind != "Once" {
			stmt = "(" + call[:i] + ")" + call[i:]
			inexact()
		}
	case k == 22:
		note("in a called literal")
		stmt = "func() {\n" + call + "\n}()"
	case k == 23:
		note("function value")
		if i := strings.IndexByte(call, '('); i > 0 && kind != "Once" && !strings.HasPrefix(call, "gen") {
			stmt = "f := " + call[:i] + "\nf" + call[i:]
			inexact()
		}
	case k == 24:
		note("nested block")
		stmt = "{\n{\n;\n" + call + "\n}\n}"
	case k == 25:
		note("range over function")
		stmt = "for range func(yield func() bool) { yield() } {\n" + call + "\n}"
		// The loop body is a function of its own, called through a function
		// value of a type other cases use as well.
		c.precise = false
	}
	if c.results != "" {
		c.body = body + stmt
	} else {
		c.body = body + stmt
	}
	c.form = strings.Join(form, ", ")
	return c
}

// paren protects composite literals in statement headers.
func paren(call string) string {
	if i := strings.IndexByte(call, '('); i >= 0 && strings.Contains(call, "{") && strings.HasPrefix(call, "(&sync") {
		return "(" + call + ")"
	}
	return call
}

func sel2(pkg, fn string) string {
	if pkg == "" {
		return fn
	}
	return pkg + "." + fn
}

// callback returns an expression for a function with the given parameters and
// body, and statements it needs.
func (g *sortGen) callback(c *sortCase, id int, fn, typ string, hit func(int), note func(string)) (string, []string) {
	lit := "func" + fn
	switch g.rnd.Intn(12) {
	case 0, 1:
		note("callback literal")
		return lit, nil
	case 2:
		note("callback variable")
		return "cb", []string{"cb := " + lit}
	case 3:
		note("callback function")
		c.decls += fmt.Sprintf("func cb%d%s\n", id, fn)
		return fmt.Sprintf("cb%d", id), nil
	case 4:
		note("callback method value")
		c.decls += fmt.Sprintf("type M%d struct{}\n\nfunc (M%d) m%s\n", id, id, fn)
		return fmt.Sprintf("M%d{}.m", id), nil
	case 5:
		note("callback returned by a call")
		n := g.sink()
		hit(n)
		c.decls += fmt.Sprintf("func mk%d() %s { %s; return %s }\n", id, typ, callSink(n), lit)
		return fmt.Sprintf("mk%d()", id), nil
	case 6:
		note("callback in a struct")
		c.decls += fmt.Sprintf("type K%d struct{ f %s }\n", id, typ)
		return "k.f", []string{fmt.Sprintf("k := K%d{%s}", id, lit)}
	case 7:
		note("callback of named type")
		c.decls += fmt.Sprintf("type N%d %s\n", id, typ)
		c.precise, c.builtin = false, false
		return fmt.Sprintf("N%d(%s)", id, lit), nil
	case 8:
		note("callback of alias type")
		c.decls += fmt.Sprintf("type Y%d = %s\n", id, typ)
		return "y", []string{fmt.Sprintf("var y Y%d = %s", id, lit)}
	case 9:
		note("callback that captures")
		return "cb", []string{"inner := " + lit, "cb := " + wrapInner(typ)}
	case 10:
		note("interface method value")
		c.decls += fmt.Sprintf("type Q%d struct{}\n\nfunc (Q%d) q%d%s\n", id, id, id, fn)
		return fmt.Sprintf("q.q%d", id), []string{fmt.Sprintf("var q interface{ q%d%s } = Q%d{}", id, strings.TrimPrefix(typ, "func"), id)}
	default:
		note("callback parenthesised global")
		c.decls += fmt.Sprintf("var gcb%d = %s\n", id, lit)
		return fmt.Sprintf("(gcb%d)", id), nil
	}
}

func wrapInner(typ string) string {
	if typ == "func()" {
		return "func() { inner() }"
	}
	return "func(i, j int) bool { return inner(i, j) }"
}

// sortLookalikes are calls that resemble the special ones.
func (g *sortGen) lookalikes(start int) []*sortCase {
	var out []*sortCase
	add := func(form, decls, body string, sinks ...int) {
		out = append(out, &sortCase{id: start + len(out), form: "lookalike: " + form, decls: decls, body: body, possible: sinks, must: sinks, precise: true, builtin: true})
	}
	n := func() (string, int) { k := g.sink(); return callSink(k), k }
	s, a := n()
	t, _ := n()
	add("own Once", fmt.Sprintf("type Once struct{}\n\nfunc (*Once) Do(f func()) { %s }\n\nfunc unusedA() { %s }\n", s, t), "var o Once\n\to.Do(unusedA)", a)
	s, a = n()
	add("own type with Do and another signature", fmt.Sprintf("type Once2 struct{ sync.Once }\n\nfunc (*Once2) Do(f func(), x int) { %s }\n", s), "new(Once2).Do(unusedA, 1)", a)
	s, a = n()
	t, _ = n()
	add("variable named sort", fmt.Sprintf("type sorter struct{}\n\nfunc (sorter) Sort(x sort.Interface) { %s }\nfunc (sorter) Slice(x any, f func(i, j int) bool) { %s }\n\ntype unusedT struct{ sort.IntSlice }\n\nfunc (unusedT) Less(i, j int) bool { %s; return false }\n", s, s, t), "sort := sorter{}\n\tsort.Sort(unusedT{})\n\tsort.Slice(nil, func(i, j int) bool { return false })", a)
	s, a = n()
	_ = s
	add("own package sort", "", fmt.Sprintf("mysort.Slice([]int{2, 1}, nil)\n\tmysort.Sort(unusedT{})\n\t%s", s), a, -1, -2)
	s, a = n()
	s2, b := n()
	add("once of another package", fmt.Sprintf("func cbA() { %s }\n", s2), fmt.Sprintf("mysort.Once{}.Do(cbA)\n\t%s", s), a, -3)
	_ = b
	s, a = n()
	add("sort.Ints", "", fmt.Sprintf("sort.Ints([]int{2, 1})\n\tsort.Strings(nil)\n\t%s", s), a)
	return out
}

func (r *Run) sortProgram(rnd *rand.Rand, n int) (files map[string]string, cases []*sortCase, nsink int) {
	g := &sortGen{rnd: rnd}
	for i := 0; i < n; i++ {
		cases = append(cases, g.one(i))
	}
	// Sinks of the package that resembles sort.
	m1, m2, m3 := g.sink(), g.sink(), g.sink()
	for _, c := range g.lookalikes(n) {
		for i, s := range c.possible {
			if s < 0 {
				c.possible[i] = map[int]int{-1: m1, -2: m2, -3: m3}[s]
			}
		}
		c.must = c.possible
		cases = append(cases, c)
	}
	var b, d strings.Builder
	b.WriteString("package p\n\nimport (\n\t. \"sort\"\n\t\"sort\"\n\tsrt \"sort\"\n\t\"sync\"\n\n\t\"ex.com/m/dep\"\n\t\"ex.com/m/rt\"\n\tmysort \"ex.com/m/sort\"\n)\n\nvar _ = Sort\nvar _ = srt.Sort\nvar _ sync.Once\nvar _ = sort.Sort\nvar _ = dep.X\n\n")
	d.WriteString("package dep\n\nimport (\n\t. \"sort\"\n\t\"sort\"\n\tsrt \"sort\"\n\t\"sync\"\n\n\t\"ex.com/m/rt\"\n)\n\nvar _ = Sort\nvar _ = srt.Sort\nvar _ sync.Once\nvar _ = sort.Sort\n\nvar X int\n\n")
	var calls strings.Builder
	for _, c := range cases {
		if c.id < n && c.id%5 == 4 {
			// In a dependency, reached through a function of p.
			fmt.Fprintf(&d, "%sfunc D%d() %s {\n\t%s\n}\n\n", c.decls, c.id, c.results, c.body)
			fmt.Fprintf(&b, "func F%d() { dep.D%d() }\n\n", c.id, c.id)
			c.form += ", in a dependency"
			c.results = ""
		} else if c.id < n && c.id%11 == 3 {
			// In a function literal that initialises a package variable.
			fmt.Fprintf(&b, "%svar lit%d = func() %s {\n\t%s\n}\n\nfunc F%d() { lit%d() }\n\n", c.decls, c.id, c.results, c.body, c.id, c.id)
			c.form += ", in a package variable"
			c.results = ""
		} else if c.id < n && c.id%11 == 7 {
			// In a method of a generic type.
			fmt.Fprintf(&b, "%stype gt%d[X any] struct{ x X }\n\nfunc (gt%d[X]) m() %s {\n\t%s\n}\n\nfunc F%d() { gt%d[int]{}.m() }\n\n", c.decls, c.id, c.id, c.results, c.body, c.id, c.id)
			c.form += ", in a generic method"
			c.results = ""
		} else {
			fmt.Fprintf(&b, "%sfunc F%d() %s {\n\t%s\n}\n\n", c.decls, c.id, c.results, c.body)
		}
		fmt.Fprintf(&calls, "\tcase %d:\n\t\tp.F%d()\n", c.id, c.id)
	}
	var rt strings.Builder
	rt.WriteString("package rt\n\nimport (\n\t\"fmt\"\n\t\"sync\"\n\t\"time\"\n)\n\nvar mu sync.Mutex\nvar hits = map[int]bool{}\nvar goes bool\n\nfunc hit(n int) { mu.Lock(); hits[n] = true; mu.Unlock() }\nfunc True() bool { return true }\nfunc Go() { goes = true }\n\nfunc Run(id int, f func()) {\n\tmu.Lock()\n\thits = map[int]bool{}\n\tgoes = false\n\tmu.Unlock()\n\tfunc() {\n\t\tdefer func() { if e := recover(); e != nil { fmt.Println(\"panic\", id, e) } }()\n\t\tf()\n\t}()\n\tif goes { time.Sleep(50 * time.Millisecond) }\n\tmu.Lock()\n\tfor h := range hits { fmt.Println(id, h) }\n\tmu.Unlock()\n}\n\n")
	for i := 1; i <= g.nsink; i++ {
		fmt.Fprintf(&rt, "func S%d() { hit(%d) }\n", i, i)
	}
	files = map[string]string{
		"p/p.go":       b.String(),
		"dep/d.go":     d.String(),
		"rt/rt.go":     rt.String(),
		"sort/sort.go": fmt.Sprintf("package sort\n\nimport \"ex.com/m/rt\"\n\nfunc Slice(x any, f func(i, j int) bool) { %s }\nfunc Sort(x any) { %s }\n\ntype Once struct{}\n\nfunc (Once) Do(f func()) { %s }\n", callSink(m1), callSink(m2), callSink(m3)),
		"run/main.go":  fmt.Sprintf("package main\n\nimport (\n\t\"ex.com/m/p\"\n\t\"ex.com/m/rt\"\n)\n\nfunc call(i int) {\n\tswitch i {\n%s\t}\n}\n\nfunc main() {\n\tfor i := 0; i < %d; i++ {\n\t\trt.Run(i, func() { call(i) })\n\t}\n}\n", calls.String(), len(cases)),
	}
	return files, cases, g.nsink
}

func checkC15(r *Run) {
	r.rule = "one evaluation = the report for one function containing one special call, compared with the callbacks observed when executing it and with what its construction allows; non-trivial = distinct combination of call, argument form, receiver form, callback form and position"
	nprog := r.pick(14, 50)
	r.parallel(nprog, 4, func(k int) {
		rnd := r.rng(fmt.Sprint("prog", k))
		files, cases, nsink := r.sortProgram(rnd, 90)
		s := r.srcSubject(fmt.Sprintf("sort%d", k), files, "./p")
		bin := filepath.Join(s.Dir, "run.exe")
		if res := runCmd(CmdOpt{Dir: s.Dir}, "go", "build", "-o", bin, "./run"); res.Code != 0 {
			r.inconclusive("generated program does not build: %s", clip(res.Err, 2000))
		}
		ex := runCmd(CmdOpt{Dir: s.Dir}, bin)
		os.Remove(bin)
		if ex.Code != 0 || strings.Contains(ex.Out, "panic") {
			r.inconclusive("generated program fails: %s %s", clip(ex.Out, 500), clip(ex.Err, 1000))
		}
		hits := map[int]map[int]bool{}
		for _, l := range strings.Split(strings.TrimSpace(ex.Out), "\n") {
			f := strings.Fields(l)
			if len(f) == 2 {
				a, _ := strconv.Atoi(f[0])
				b, _ := strconv.Atoi(f[1])
				if hits[a] == nil {
					hits[a] = map[int]bool{}
				}
				hits[a][b] = true
				r.Count("callback executions observed", 1)
			}
		}
		for _, c := range cases {
			for _, m := range c.must {
				if !hits[c.id][m] {
					r.inconclusive("%s F%d (%s): expected S%d to be executed, saw %v\n%s", s.Name, c.id, c.form, m, hits[c.id], c.body)
				}
			}
		}
		for v := 0; v < r.pick(3, 5); v++ {
			builtin := v == 2
			um := newCapMap()
			um.Package["ex.com/m/rt"] = "SAFE"
			caps := make([]string, nsink+1)
			pool := []string{}
			for _, c := range reportCaps {
				if c != "UNANALYZED" && c != "REFLECT" && c != "UNSAFE_POINTER" && c != "ARBITRARY_EXECUTION" {
					pool = append(pool, c)
				}
			}
			for i := 1; i <= nsink; i++ {
				caps[i] = pool[rnd.Intn(len(pool))]
				um.Func[fmt.Sprintf("ex.com/m/rt.S%d", i)] = caps[i]
			}
			c := &Case{S: s, Name: fmt.Sprintf("map%d", v), User: um, NoBlt: !builtin}
			rep, args := r.report(c)
			if rep == nil {
				return
			}
			got := map[string]map[string]bool{}
			for _, e := range rep.CapabilityInfo {
				f := e.fn()
				if got[f] == nil {
					got[f] = map[string]bool{}
				}
				got[f][strings.TrimPrefix(e.Capability, "CAPABILITY_")] = true
			}
			for _, sc := range cases {
				fn := fmt.Sprintf("ex.com/m/p.F%d", sc.id)
				g := got[fn]
				may := map[string]bool{}
				for _, p := range sc.possible {
					may[caps[p]] = true
				}
				for h := range hits[sc.id] {
					if !g[caps[h]] && !(builtin && !sc.builtin && g["UNANALYZED"]) {
						r.Violate(fmt.Sprintf("lost/%s", formKey(sc.form)), fmt.Sprintf("%s: executing F%d (%s) calls S%d (%s), but the report for F%d has only %v\n%s%s", c.describe(), sc.id, sc.form, h, caps[h], sc.id, sortedKeys(g), sc.decls, sc.body), c.replay(r, args, map[string]string{"case.go": sc.decls + sc.body}), s.Dir)
					}
				}
				if sc.precise && (!builtin || sc.builtin) {
					for x := range g {
						if !may[x] {
							r.Violate(fmt.Sprintf("invented/%s", formKey(sc.form)), fmt.Sprintf("%s: F%d (%s) is reported with %s, which it cannot reach; it can reach %v\n%s%s", c.describe(), sc.id, sc.form, x, sortedKeys(may), sc.decls, sc.body), c.replay(r, args, map[string]string{"case.go": sc.decls + sc.body}), s.Dir)
						}
					}
					r.Count("exact reports compared", 1)
				}
				r.Eval(fmt.Sprintf("%s builtin=%v", formKey(sc.form), builtin))
				if sc.id == 0 {
					r.Sample(map[string]any{"form": sc.form, "body": sc.body, "observed": len(hits[sc.id]), "reported": sortedKeys(g), "precise": sc.precise})
				}
			}
		}
		// The rewritten packages are still a well-formed program.
		ops := []LibOp{
			{Op: "load", ID: "p", Dir: s.Dir, Patterns: s.Patterns},
			{Op: "counts", Load: "p"},
			{Op: "sanity", Load: "p"},
		}
		res, pr := r.lib(r.Lib, ops)
		if res == nil || res[1].Panic+res[1].Err != "" || res[2].Panic != "" {
			d := clip(pr.Err, 2000)
			if res != nil {
				d += clip(res[1].Panic+res[1].Err+res[2].Panic, 3000)
			}
			r.Violate("sanity/"+s.Name, "the packages are not well-formed after the analysis: "+d, map[string]string{"ops.json": opsJSON(ops)}, s.Dir)
		} else {
			r.Count("rewritten programs checked for sanity", 1)
		}
	})
	r.Require("callback executions observed", 200)
	r.Require("exact reports compared", 100)
}

var formNum = regexp.MustCompile(`\d+`)

func formKey(s string) string { return formNum.ReplaceAllString(s, "") }
