package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// A Node is a declared function or method of a generated program, with the
// abstract set of nodes it can call.
type Node struct {
	ID    int
	Pkg   *GPkg
	SSA   string // name as it appears in reports
	Call  string // call expression relative to its own package, without package qualifier handled by callExpr
	Recv  string // for methods: receiver expression without package qualifier, "" for functions
	RType string // receiver type, e.g. "T3" or "*T3"
	Name  string
	Out   map[*Node]bool
	Sites map[[2]*Node]bool
	// owners lists the packages whose presence in the program makes the edge.
	owners map[*Node]map[*GPkg]bool
	// direct and indirect record whether an edge is made by a plain call (which
	// an ignore_edge line can suppress) or in some other way.
	direct, indirect map[*Node]bool
	// DontCare: whether the node is reported is not decided by the abstract
	// model (generic origins).
	DontCare bool
	Sink     bool
	body     []string
	header   string // "func F1()" etc.
	root     bool   // callable from main with no arguments
	ret      string // final return statement, if any
}

// A GPkg is one generated package.
type GPkg struct {
	Name, Path string
	Idx        int
	imports    map[string]bool
	decls      []string
	nodes      []*Node
	initN      int
	initNode   *Node
	importsOf  map[*GPkg]bool
	files      int
}

// A Prog is a generated module with an abstract call graph.
type Prog struct {
	rnd    *rand.Rand
	Mod    string
	Pkgs   []*GPkg // importable generated packages; Pkgs[i] may import Pkgs[j], j>i
	SinkP  *GPkg
	Nodes  []*Node
	Sinks  []*Node
	n      int
	Used   map[string]int // constructs used
	owner  *GPkg          // package whose construct is being made
	Stub   bool           // do not make the program executable
	filler bool           // Files was called
}

func (p *Prog) id() int { p.n++; return p.n }

func newProg(rnd *rand.Rand, mod string, npkg, nsink int) *Prog {
	p := &Prog{rnd: rnd, Mod: mod, Used: map[string]int{}}
	for i := 0; i < npkg; i++ {
		p.addPkg(fmt.Sprintf("p%d", i))
	}
	p.SinkP = p.addPkg("sink")
	for i := 0; i < nsink; i++ {
		var n *Node
		switch rnd.Intn(3) {
		case 0:
			tn := fmt.Sprintf("K%d", i)
			p.SinkP.decls = append(p.SinkP.decls, fmt.Sprintf("type %s struct{}", tn))
			n = p.addMethod(p.SinkP, tn, fmt.Sprintf("S%d", i), rnd.Intn(2) == 0)
		default:
			n = p.addFunc(p.SinkP, fmt.Sprintf("S%d", i))
		}
		n.Sink = true
		n.body = append(n.body, fmt.Sprintf("rt.Hit(%q)", n.SSA))
		p.Sinks = append(p.Sinks, n)
	}
	return p
}

func (p *Prog) addPkg(name string) *GPkg {
	g := &GPkg{Name: name, Path: p.Mod + "/" + name, Idx: len(p.Pkgs), imports: map[string]bool{}, importsOf: map[*GPkg]bool{}}
	g.initNode = &Node{ID: p.id(), Pkg: g, SSA: g.Path + ".init", Name: "init", Out: map[*Node]bool{}}
	p.Pkgs = append(p.Pkgs, g)
	p.Nodes = append(p.Nodes, g.initNode)
	return g
}

func (p *Prog) addNode(g *GPkg, n *Node) *Node {
	n.ID = p.id()
	n.Pkg = g
	n.Out = map[*Node]bool{}
	g.nodes = append(g.nodes, n)
	p.Nodes = append(p.Nodes, n)
	return n
}

func (p *Prog) addFunc(g *GPkg, name string) *Node {
	return p.addNode(g, &Node{SSA: g.Path + "." + name, Name: name, header: "func " + name + "()", root: true})
}

func (p *Prog) addMethod(g *GPkg, typ, name string, ptr bool) *Node {
	if ptr {
		return p.addNode(g, &Node{SSA: "(*" + g.Path + "." + typ + ")." + name, Name: name, RType: "*" + typ, header: fmt.Sprintf("func (r *%s) %s()", typ, name), root: true})
	}
	return p.addNode(g, &Node{SSA: "(" + g.Path + "." + typ + ")." + name, Name: name, RType: typ, header: fmt.Sprintf("func (r %s) %s()", typ, name), root: true})
}

// use makes package from import g and returns the qualifier.
func (p *Prog) use(from, g *GPkg) string {
	if from == g {
		return ""
	}
	from.imports[g.Path] = true
	from.importsOf[g] = true
	return g.Name + "."
}

func (g *GPkg) std(path string) { g.imports[path] = true }

// value returns an expression of type func() that denotes n.
func (p *Prog) value(from *GPkg, n *Node) string {
	q := p.use(from, n.Pkg)
	switch {
	case n.RType == "":
		return q + n.Name
	case strings.HasPrefix(n.RType, "*"):
		return "(&" + q + n.RType[1:] + "{})." + n.Name
	default:
		return q + n.RType + "{}." + n.Name
	}
}

// call returns a call expression for n.
func (p *Prog) call(from *GPkg, n *Node) string { return p.value(from, n) + "()" }

func (p *Prog) edge(a, b *Node) {
	p.own(a, b)
	if a.indirect == nil {
		a.indirect = map[*Node]bool{}
	}
	a.indirect[b] = true
}

func (p *Prog) own(a, b *Node) {
	a.Out[b] = true
	if a.owners == nil {
		a.owners = map[*Node]map[*GPkg]bool{}
	}
	if a.owners[b] == nil {
		a.owners[b] = map[*GPkg]bool{}
	}
	o := p.owner
	if o == nil {
		o = a.Pkg
	}
	a.owners[b][o] = true
}

// loaded returns the packages loaded when the given packages are queried.
func (p *Prog) loaded(queried map[string]bool) map[*GPkg]bool {
	out := map[*GPkg]bool{}
	var rec func(g *GPkg)
	rec = func(g *GPkg) {
		if out[g] {
			return
		}
		out[g] = true
		for h := range g.importsOf {
			rec(h)
		}
	}
	for _, g := range p.Pkgs {
		if queried[g.Path] {
			rec(g)
		}
	}
	return out
}

// live reports whether the edge exists when only some packages are loaded.
func (a *Node) live(b *Node, loaded map[*GPkg]bool) bool {
	for g := range a.owners[b] {
		if loaded[g] {
			return true
		}
	}
	return false
}

// edgeD records an edge made by a plain call, defer or go statement.
func (p *Prog) edgeD(a, b *Node) {
	p.own(a, b)
	if a.direct == nil {
		a.direct = map[*Node]bool{}
	}
	a.direct[b] = true
}

// Filled reports whether the program was rendered.
func (p *Prog) Filled() bool { return p.filler }

func (n *Node) add(lines ...string) { n.body = append(n.body, lines...) }

// A construct makes from call to in some particular way.
type construct struct {
	name string
	fn   func(p *Prog, from, to *Node)
}

func lines(s string) []string { return strings.Split(strings.Trim(s, "\n"), "\n") }

// helperType declares a type with one method calling `to`; it returns the type
// name, the method name and the node of the method.
func (p *Prog) helperType(from, to *Node, ptr bool) (typ, meth string, h *Node) {
	i := p.id()
	typ, meth = fmt.Sprintf("X%d", i), fmt.Sprintf("M%d", i)
	from.Pkg.decls = append(from.Pkg.decls, fmt.Sprintf("type %s struct{ a, b int }", typ))
	h = p.addMethod(from.Pkg, typ, meth, ptr)
	h.add(p.call(from.Pkg, to))
	p.edgeD(h, to)
	p.edge(from, h)
	return
}

func (p *Prog) decl(from *Node, format string, args ...any) {
	from.Pkg.decls = append(from.Pkg.decls, fmt.Sprintf(format, args...))
}

// helperFunc declares a function node with the given parameters, called by from.
func (p *Prog) helperFunc(g *GPkg, from *Node, name, header string) *Node {
	h := p.addNode(g, &Node{SSA: g.Path + "." + name, Name: name, header: header})
	p.edge(from, h)
	return h
}

var constructs = []construct{
	{"direct", func(p *Prog, f, t *Node) {
		f.add(p.call(f.Pkg, t))
		p.edgeD(f, t)
	}},
	{"defer", func(p *Prog, f, t *Node) {
		f.add("defer " + p.call(f.Pkg, t))
		p.edgeD(f, t)
	}},
	{"go", func(p *Prog, f, t *Node) {
		f.add("go " + p.call(f.Pkg, t))
		p.edgeD(f, t)
	}},
	{"go-closure", func(p *Prog, f, t *Node) {
		f.add("go func() {", "\t"+p.call(f.Pkg, t), "}()")
		p.edge(f, t)
	}},
	{"defer-closure", func(p *Prog, f, t *Node) {
		f.add("defer func() {", "\t"+p.call(f.Pkg, t), "}()")
		p.edge(f, t)
	}},
	{"closure", func(p *Prog, f, t *Node) {
		f.add("func() {", "\t"+p.call(f.Pkg, t), "}()")
		p.edge(f, t)
	}},
	{"closure-var", func(p *Prog, f, t *Node) {
		f.add("{", "\tf := func() {", "\t\t"+p.call(f.Pkg, t), "\t}", "\tf()", "}")
		p.edge(f, t)
	}},
	{"nested-closure", func(p *Prog, f, t *Node) {
		f.add("{", "\tf := func() func() {", "\t\treturn func() {", "\t\t\t"+p.call(f.Pkg, t), "\t\t}", "\t}", "\tf()()", "}")
		p.edge(f, t)
	}},
	{"func-value", func(p *Prog, f, t *Node) {
		f.add("{", "\tf := "+p.value(f.Pkg, t), "\tf()", "}")
		p.edge(f, t)
	}},
	{"global-assigned", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "var gv%d func()", i)
		f.add(fmt.Sprintf("gv%d = %s", i, p.value(f.Pkg, t)), fmt.Sprintf("gv%d()", i))
		p.edge(f, t)
	}},
	{"global-initialised", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "var gv%d = %s", i, p.value(f.Pkg, t))
		f.add(fmt.Sprintf("gv%d()", i))
		p.edge(f, t)
	}},
	{"global-set-in-init", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "var gv%d func()", i)
		h := p.addInit(f.Pkg)
		h.add(fmt.Sprintf("gv%d = %s", i, p.value(f.Pkg, t)))
		f.add(fmt.Sprintf("gv%d()", i))
		p.edge(f, t)
	}},
	{"field", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type S%d struct{ n int; f func() }", i)
		f.add("{", fmt.Sprintf("\ts := S%d{f: %s}", i, p.value(f.Pkg, t)), "\ts.f()", "}")
		p.edge(f, t)
	}},
	{"field-pointer", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type S%d struct{ n int; in struct{ f func() } }", i)
		f.add("{", fmt.Sprintf("\ts := &S%d{}", i), "\ts.in.f = "+p.value(f.Pkg, t), "\ts.in.f()", "}")
		p.edge(f, t)
	}},
	{"map", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type K%d string", i)
		p.decl(f, "type F%d func()", i)
		f.add("{", fmt.Sprintf("\tm := map[K%d]F%d{\"k\": %s}", i, i, p.value(f.Pkg, t)), "\tm[\"k\"]()", "}")
		p.edge(f, t)
	}},
	{"map-range", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type K%d string", i)
		p.decl(f, "type F%d func()", i)
		f.add("{", fmt.Sprintf("\tm := map[K%d]F%d{}", i, i), "\tm[\"k\"] = "+p.value(f.Pkg, t), "\tfor _, f := range m {", "\t\tf()", "\t}", "}")
		p.edge(f, t)
	}},
	{"slice", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type F%d func()", i)
		f.add("{", fmt.Sprintf("\ts := []F%d{nil}", i), "\ts[0] = "+p.value(f.Pkg, t), "\tfor _, f := range s {", "\t\tf()", "\t}", "}")
		p.edge(f, t)
	}},
	{"slice-append", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type F%d func()", i)
		f.add("{", fmt.Sprintf("\tvar s []F%d", i), "\ts = append(s, "+p.value(f.Pkg, t)+")", "\ts[0]()", "}")
		p.edge(f, t)
	}},
	{"array", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type F%d func()", i)
		f.add("{", fmt.Sprintf("\ta := [2]F%d{1: %s}", i, p.value(f.Pkg, t)), "\ta[1]()", "}")
		p.edge(f, t)
	}},
	{"channel", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type F%d func()", i)
		f.add("{", fmt.Sprintf("\tc := make(chan F%d, 1)", i), "\tc <- "+p.value(f.Pkg, t), "\t(<-c)()", "}")
		p.edge(f, t)
	}},
	{"select", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type F%d func()", i)
		f.add("{", fmt.Sprintf("\tc := make(chan F%d, 1)", i), "\tc <- "+p.value(f.Pkg, t), "\tselect {", "\tcase f := <-c:", "\t\tf()", "\t}", "}")
		p.edge(f, t)
	}},
	{"func-pointer", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type F%d func()", i)
		f.add("{", fmt.Sprintf("\tvar f F%d", i), "\tq := &f", "\t*q = "+p.value(f.Pkg, t), "\t(*q)()", "}")
		p.edge(f, t)
	}},
	{"interface", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, false)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		f.add("{", fmt.Sprintf("\tvar i I%s = %s{}", typ, typ), "\ti."+m+"()", "}")
	}},
	{"interface-pointer", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, true)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		f.add("{", fmt.Sprintf("\tvar i I%s = &%s{}", typ, typ), "\ti."+m+"()", "}")
	}},
	{"interface-value-in-pointer", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, false)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		f.add("{", fmt.Sprintf("\tvar i I%s = &%s{}", typ, typ), "\ti."+m+"()", "}")
	}},
	{"interface-defer-go", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, true)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		f.add("{", fmt.Sprintf("\tvar i I%s = &%s{}", typ, typ), "\tdefer i."+m+"()", "\tgo i."+m+"()", "}")
	}},
	{"embedded", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, false)
		p.decl(f, "type E%s struct{ z string; %s }", typ, typ)
		f.add(fmt.Sprintf("E%s{}.%s()", typ, m))
	}},
	{"embedded-iface-dispatch", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, true)
		p.decl(f, "type E%s struct{ *%s }", typ, typ)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		f.add("{", fmt.Sprintf("\tvar i I%s = E%s{&%s{}}", typ, typ, typ), "\ti."+m+"()", "}")
	}},
	{"embedded-interface", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, false)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		p.decl(f, "type E%s struct{ I%s }", typ, typ)
		f.add(fmt.Sprintf("E%s{%s{}}.%s()", typ, typ, m))
	}},
	{"interface-embedding", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, false)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		p.decl(f, "type J%s interface{ I%s }", typ, typ)
		f.add("{", fmt.Sprintf("\tvar j J%s = %s{}", typ, typ), fmt.Sprintf("\tvar i I%s = j", typ), "\ti."+m+"()", "}")
	}},
	{"anonymous-struct-embedding", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, false)
		f.add("{", fmt.Sprintf("\tx := struct{ *%s }{&%s{}}", typ, typ), "\tx."+m+"()", "}")
	}},
	{"method-value", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, false)
		f.add("{", fmt.Sprintf("\tf := %s{}.%s", typ, m), "\tf()", "}")
	}},
	{"method-value-pointer", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, true)
		f.add("{", fmt.Sprintf("\tx := &%s{}", typ), "\tf := x."+m, "\tdefer f()", "}")
	}},
	{"method-expression", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, false)
		f.add("{", fmt.Sprintf("\tf := %s.%s", typ, m), fmt.Sprintf("\tf(%s{})", typ), "}")
	}},
	{"method-expression-pointer", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, true)
		f.add(fmt.Sprintf("(*%s).%s(&%s{})", typ, m, typ))
	}},
	{"interface-method-value", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, false)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		f.add("{", fmt.Sprintf("\tvar i I%s = %s{}", typ, typ), "\tf := i."+m, "\tf()", "}")
	}},
	{"interface-method-expression", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, false)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		f.add("{", fmt.Sprintf("\tf := I%s.%s", typ, m), fmt.Sprintf("\tf(%s{})", typ), "}")
	}},
	{"interface-assertion", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, true)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		f.add("{", fmt.Sprintf("\tvar a any = &%s{}", typ), fmt.Sprintf("\tif i, ok := a.(I%s); ok {", typ), "\t\ti."+m+"()", "\t}", "}")
	}},
	{"type-switch", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, true)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		f.add("{", fmt.Sprintf("\tvar a any = &%s{}", typ), "\tswitch x := a.(type) {", "\tcase nil:", "\tcase int, string:", fmt.Sprintf("\tcase I%s:", typ), "\t\tx."+m+"()", "\t}", "}")
	}},
	{"nil-receiver", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, true)
		f.add("{", fmt.Sprintf("\tvar x *%s", typ), "\tx."+m+"()", "}")
	}},
	{"alias", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, true)
		p.decl(f, "type A%s = %s", typ, typ)
		f.add("{", fmt.Sprintf("\tx := new(A%s)", typ), "\tx."+m+"()", "}")
	}},
	{"generic-func-arg", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "func G%d[F ~func()](f F) {\n\tf()\n}", i)
		f.add(fmt.Sprintf("G%d(%s)", i, p.value(f.Pkg, t)))
		p.edge(f, t)
		p.generic(f.Pkg, fmt.Sprintf("G%d", i))
	}},
	{"generic-closure-arg", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "func G%d[T any](t T, f func(T)) {\n\tf(t)\n}", i)
		f.add(fmt.Sprintf("G%d(1, func(int) {", i), "\t"+p.call(f.Pkg, t), "})")
		p.edge(f, t)
		p.generic(f.Pkg, fmt.Sprintf("G%d", i))
	}},
	{"generic-type-method", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type B%d[T any] struct {\n\tv T\n\tf func()\n}", i)
		p.decl(f, "func (b *B%d[T]) M() {\n\tb.f()\n}", i)
		f.add(fmt.Sprintf("(&B%d[int]{f: %s}).M()", i, p.value(f.Pkg, t)))
		p.edge(f, t)
	}},
	{"generic-static", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "func G%d[T any](t T) {\n\t%s\n}", i, p.call(f.Pkg, t))
		f.add(fmt.Sprintf("G%d(\"x\")", i), fmt.Sprintf("G%d[[]int](nil)", i))
		p.edge(f, t)
		p.generic(f.Pkg, fmt.Sprintf("G%d", i))
	}},
	{"generic-constraint-method", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, false)
		p.decl(f, "func G%s[T interface{ %s() }](t T) {\n\tt.%s()\n}", typ, m, m)
		f.add(fmt.Sprintf("G%s(%s{})", typ, typ))
		p.generic(f.Pkg, "G"+typ)
	}},
	{"generic-nested", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "func GA%d[T any](f func()) {\n\tGB%d[[]T](f)\n}", i, i)
		p.decl(f, "func GB%d[T any](f func()) {\n\tvar x T\n\t_ = x\n\tf()\n}", i)
		f.add(fmt.Sprintf("GA%d[int](%s)", i, p.value(f.Pkg, t)))
		p.edge(f, t)
		p.generic(f.Pkg, fmt.Sprintf("GA%d", i))
		p.generic(f.Pkg, fmt.Sprintf("GB%d", i))
	}},
	{"generic-interface", func(p *Prog, f, t *Node) {
		i := p.id()
		typ := fmt.Sprintf("X%d", i)
		p.decl(f, "type I%d[T any] interface{ M%d(T) }", i, i)
		p.decl(f, "type %s struct{}", typ)
		h := p.addNode(f.Pkg, &Node{SSA: "(" + f.Pkg.Path + "." + typ + fmt.Sprintf(").M%d", i), Name: fmt.Sprintf("M%d", i), RType: typ, header: fmt.Sprintf("func (%s) M%d(int)", typ, i)})
		h.add(p.call(f.Pkg, t))
		p.edge(h, t)
		p.edge(f, h)
		f.add("{", fmt.Sprintf("\tvar i I%d[int] = %s{}", i, typ), fmt.Sprintf("\ti.M%d(1)", i), "}")
	}},
	{"generic-closure-inside", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "func G%d[T any]() func() {\n\treturn func() {\n\t\t%s\n\t}\n}", i, p.call(f.Pkg, t))
		f.add(fmt.Sprintf("G%d[int]()()", i))
		p.edge(f, t)
		p.generic(f.Pkg, fmt.Sprintf("G%d", i))
	}},
	{"returned-func", func(p *Prog, f, t *Node) {
		i := p.id()
		h := p.helperFunc(f.Pkg, f, fmt.Sprintf("R%d", i), fmt.Sprintf("func R%d() (int, func())", i))
		h.ret = "return 1, " + p.value(f.Pkg, t)
		f.add("{", fmt.Sprintf("\t_, f := R%d()", i), "\tf()", "}")
		p.edge(f, t)
	}},
	{"variadic", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type F%d func()", i)
		h := p.helperFunc(f.Pkg, f, fmt.Sprintf("V%d", i), fmt.Sprintf("func V%d(n int, fs ...F%d)", i, i))
		h.add("for _, f := range fs {", "\tf()", "}")
		p.edge(h, t)
		f.add(fmt.Sprintf("V%d(1, %s)", i, p.value(f.Pkg, t)))
	}},
	{"any-assertion", func(p *Prog, f, t *Node) {
		i := p.id()
		p.decl(f, "type F%d func()", i)
		f.add("{", fmt.Sprintf("\tvar a any = F%d(%s)", i, p.value(f.Pkg, t)), fmt.Sprintf("\ta.(F%d)()", i), "}")
		p.edge(f, t)
	}},
	{"panic-recover", func(p *Prog, f, t *Node) {
		f.add("func() {", "\tdefer func() {", "\t\trecover()", "\t\t"+p.call(f.Pkg, t), "\t}()", "\tpanic(\"x\")", "}()")
		p.edge(f, t)
	}},
	{"range-func", func(p *Prog, f, t *Node) {
		i := p.id()
		h := p.helperFunc(f.Pkg, f, fmt.Sprintf("Q%d", i), fmt.Sprintf("func Q%d(yield func(int) bool)", i))
		h.add(p.call(f.Pkg, t), "yield(1)")
		p.edge(h, t)
		f.add(fmt.Sprintf("for range Q%d {", i), "}")
	}},
	{"range-func-body", func(p *Prog, f, t *Node) {
		i := p.id()
		h := p.helperFunc(f.Pkg, f, fmt.Sprintf("Q%d", i), fmt.Sprintf("func Q%d(yield func(int) bool)", i))
		h.add("yield(1)")
		p.edge(h, t)
		f.add(fmt.Sprintf("for range Q%d {", i), "\t"+p.call(f.Pkg, t), "}")
	}},
	{"adapter", func(p *Prog, f, t *Node) {
		i := p.id()
		typ := fmt.Sprintf("H%d", i)
		p.decl(f, "type %s func()", typ)
		h := p.addNode(f.Pkg, &Node{SSA: "(" + f.Pkg.Path + "." + typ + ").Serve", Name: "Serve", RType: typ, header: fmt.Sprintf("func (h %s) Serve()", typ)})
		h.add("h()")
		p.edge(h, t)
		p.edge(f, h)
		f.add(fmt.Sprintf("%s(%s).Serve()", typ, p.value(f.Pkg, t)))
	}},
	{"recursion", func(p *Prog, f, t *Node) {
		i := p.id()
		h := p.helperFunc(f.Pkg, f, fmt.Sprintf("R%d", i), fmt.Sprintf("func R%d(n int)", i))
		h.add("if n > 0 {", fmt.Sprintf("\tR%d(n - 1)", i), "\treturn", "}", p.call(f.Pkg, t))
		p.edge(h, h)
		p.edge(h, t)
		f.add(fmt.Sprintf("R%d(2)", i))
	}},
	{"callback-through-dependency", func(p *Prog, f, t *Node) {
		i := p.id()
		dep := f.Pkg
		if f.Pkg.Idx+1 < len(p.Pkgs) {
			dep = p.Pkgs[f.Pkg.Idx+p.rnd.Intn(len(p.Pkgs)-f.Pkg.Idx)]
		}
		h := p.helperFunc(dep, f, fmt.Sprintf("C%d", i), fmt.Sprintf("func C%d(f func())", i))
		h.add("f()")
		p.edge(h, t)
		f.add(fmt.Sprintf("%sC%d(%s)", p.use(f.Pkg, dep), i, p.value(f.Pkg, t)))
	}},
	{"callback-stored-in-dependency", func(p *Prog, f, t *Node) {
		i := p.id()
		dep := f.Pkg
		if f.Pkg.Idx+1 < len(p.Pkgs) {
			dep = p.Pkgs[f.Pkg.Idx+p.rnd.Intn(len(p.Pkgs)-f.Pkg.Idx)]
		}
		dep.decls = append(dep.decls, fmt.Sprintf("var Hook%d func()", i))
		h := p.helperFunc(dep, f, fmt.Sprintf("D%d", i), fmt.Sprintf("func D%d()", i))
		h.add(fmt.Sprintf("Hook%d()", i))
		p.edge(h, t)
		q := p.use(f.Pkg, dep)
		f.add(fmt.Sprintf("%sHook%d = %s", q, i, p.value(f.Pkg, t)), fmt.Sprintf("%sD%d()", q, i))
	}},
	{"interface-in-dependency", func(p *Prog, f, t *Node) {
		typ, m, h0 := p.helperType(f, t, true)
		_ = h0
		dep := f.Pkg
		if f.Pkg.Idx+1 < len(p.Pkgs) {
			dep = p.Pkgs[f.Pkg.Idx+p.rnd.Intn(len(p.Pkgs)-f.Pkg.Idx)]
		}
		dep.decls = append(dep.decls, fmt.Sprintf("type I%s interface{ %s() }", typ, m))
		h := p.helperFunc(dep, f, "C"+typ, fmt.Sprintf("func C%s(i I%s)", typ, typ))
		h.add(fmt.Sprintf("i.%s()", m))
		delete(f.Out, h0)
		p.edge(h, h0)
		f.add(fmt.Sprintf("%sC%s(&%s{})", p.use(f.Pkg, dep), typ, typ))
	}},
	{"goto-loop", func(p *Prog, f, t *Node) {
		i := p.id()
		f.add("{", "\tn := 0", fmt.Sprintf("L%d:", i), "\tn++", "\tif n < 2 {", fmt.Sprintf("\t\tgoto L%d", i), "\t}", "\t"+p.call(f.Pkg, t), "}")
		p.edgeD(f, t)
	}},
	{"switch", func(p *Prog, f, t *Node) {
		f.add("switch rt.One() {", "case 0:", "\trt.One()", "case 1:", "\tfallthrough", "default:", "\t"+p.call(f.Pkg, t), "}")
		p.edgeD(f, t)
	}},
	{"dead-branch", func(p *Prog, f, t *Node) {
		f.add("if rt.One() == 0 {", "\t"+p.call(f.Pkg, t), "}")
		p.edgeD(f, t)
	}},
	{"for-post", func(p *Prog, f, t *Node) {
		f.add("for i := 0; i < 1; func() {", "\ti++", "\t"+p.call(f.Pkg, t), "}() {", "}")
		p.edge(f, t)
	}},
	{"loop-labels", func(p *Prog, f, t *Node) {
		i := p.id()
		f.add(fmt.Sprintf("O%d:", i), "for i := range 3 {", "\tfor {", "\t\tif i == 1 {", "\t\t\t"+p.call(f.Pkg, t), fmt.Sprintf("\t\t\tbreak O%d", i), "\t\t}", fmt.Sprintf("\t\tcontinue O%d", i), "\t}", "}")
		p.edgeD(f, t)
	}},
	{"closure-in-args", func(p *Prog, f, t *Node) {
		i := p.id()
		h := p.helperFunc(f.Pkg, f, fmt.Sprintf("A%d", i), fmt.Sprintf("func A%d(n int, s string)", i))
		h.add("_ = n")
		f.add(fmt.Sprintf("A%d(len(func() string {", i), "\t"+p.call(f.Pkg, t), "\treturn \"\"", "}()), \"\")")
		p.edge(f, t)
	}},
	{"struct-with-receiver-field", func(p *Prog, f, t *Node) {
		i := p.id()
		typ := fmt.Sprintf("W%d", i)
		p.decl(f, "type %s struct{ f func(); n int }", typ)
		h := p.addNode(f.Pkg, &Node{SSA: "(*" + f.Pkg.Path + "." + typ + ").Do", Name: "Do", RType: "*" + typ, header: fmt.Sprintf("func (w *%s) Do()", typ)})
		h.add("w.f()")
		p.edge(h, t)
		p.edge(f, h)
		f.add("{", fmt.Sprintf("\tw := &%s{f: %s}", typ, p.value(f.Pkg, t)), "\tw.Do()", "}")
	}},
	{"conditional-func", func(p *Prog, f, t *Node) {
		f.add("{", "\tvar f func()", "\tif rt.One() == 1 {", "\t\tf = "+p.value(f.Pkg, t), "\t} else {", "\t\tf = func() {", "\t\t}", "\t}", "\tf()", "}")
		p.edge(f, t)
	}},
	{"defer-in-loop-method-expr", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, true)
		f.add("for range 2 {", fmt.Sprintf("\tdefer (*%s).%s(&%s{})", typ, m, typ), "}")
	}},
	{"interface-slice", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, true)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		f.add(fmt.Sprintf("for _, i := range []I%s{&%s{}} {", typ, typ), "\ti."+m+"()", "}")
	}},
	{"interface-map-key", func(p *Prog, f, t *Node) {
		typ, m, _ := p.helperType(f, t, true)
		p.decl(f, "type I%s interface{ %s() }", typ, m)
		f.add(fmt.Sprintf("for i := range map[I%s]bool{&%s{}: true} {", typ, typ), "\ti."+m+"()", "}")
	}},
	{"named-result-defer", func(p *Prog, f, t *Node) {
		i := p.id()
		h := p.helperFunc(f.Pkg, f, fmt.Sprintf("N%d", i), fmt.Sprintf("func N%d() (err error)", i))
		h.add("defer func() {", "\tif err == nil {", "\t\t"+p.call(f.Pkg, t), "\t}", "}()")
		h.ret = "return nil"
		p.edge(h, t)
		f.add(fmt.Sprintf("_ = N%d()", i))
	}},
	{"blank-assign-and-expression", func(p *Prog, f, t *Node) {
		i := p.id()
		h := p.helperFunc(f.Pkg, f, fmt.Sprintf("N%d", i), fmt.Sprintf("func N%d() int", i))
		h.add(p.call(f.Pkg, t))
		h.ret = "return 1"
		p.edge(h, t)
		f.add(fmt.Sprintf("_ = [3]int{1: N%d() + 2}", i), fmt.Sprintf("if x := N%d(); x < 0 && N%d() > 1 {", i, i), "}")
	}},
}

// generic marks a generic function whose own entry is not modelled.
func (p *Prog) generic(g *GPkg, name string) {
	p.Nodes = append(p.Nodes, &Node{ID: p.id(), Pkg: g, SSA: g.Path + "." + name, Out: map[*Node]bool{}, DontCare: true})
}

// addInit declares an init function and returns its node.
func (p *Prog) addInit(g *GPkg) *Node {
	g.initN++
	n := p.addNode(g, &Node{SSA: fmt.Sprintf("%s.init#%d", g.Path, g.initN), Name: "init", header: "func init()"})
	p.edge(g.initNode, n)
	return n
}

// initConstructs make package initialisation call a node.
var initConstructs = []construct{
	{"init-func", func(p *Prog, f, t *Node) {
		n := p.addInit(f.Pkg)
		n.add(p.call(f.Pkg, t))
		p.edge(n, t)
	}},
	{"init-var-closure", func(p *Prog, f, t *Node) {
		p.decl(f, "var _ = func() int {\n\t%s\n\treturn 0\n}()", p.call(f.Pkg, t))
		p.edge(f, t)
	}},
	{"init-var-call", func(p *Prog, f, t *Node) {
		i := p.id()
		h := p.helperFunc(f.Pkg, f, fmt.Sprintf("N%d", i), fmt.Sprintf("func N%d() int", i))
		h.add(p.call(f.Pkg, t))
		h.ret = "return 1"
		p.edge(h, t)
		p.decl(f, "var iv%d = N%d()", i, i)
	}},
}

// randomProg makes a program with nfn declared base functions and about nedge
// call edges using random constructs.
func randomProg(rnd *rand.Rand, npkg, nfn, nedge, nsink, ninit int) *Prog {
	p := newProg(rnd, "ex.com/gen", npkg, nsink)
	var base []*Node
	for i := 0; i < nfn; i++ {
		g := p.Pkgs[rnd.Intn(npkg)]
		switch rnd.Intn(4) {
		case 0, 1:
			base = append(base, p.addFunc(g, fmt.Sprintf("F%d", i)))
		case 2:
			tn := fmt.Sprintf("T%d", i)
			g.decls = append(g.decls, fmt.Sprintf("type %s struct{ x int }", tn))
			base = append(base, p.addMethod(g, tn, "M", false))
		case 3:
			tn := fmt.Sprintf("T%d", i)
			g.decls = append(g.decls, fmt.Sprintf("type %s struct{ x []int }", tn))
			base = append(base, p.addMethod(g, tn, "M", true))
		}
	}
	target := func(from *Node) *Node {
		if rnd.Intn(4) == 0 {
			return p.Sinks[rnd.Intn(len(p.Sinks))]
		}
		for k := 0; k < 10; k++ {
			t := base[rnd.Intn(len(base))]
			if t.Pkg.Idx >= from.Pkg.Idx {
				return t
			}
		}
		return p.Sinks[rnd.Intn(len(p.Sinks))]
	}
	perm := rnd.Perm(len(constructs))
	for e := 0; e < nedge; e++ {
		f := base[rnd.Intn(len(base))]
		t := target(f)
		c := constructs[perm[e%len(perm)]]
		if c.name == "global-initialised" && t.Pkg == f.Pkg {
			t = p.Sinks[rnd.Intn(len(p.Sinks))] // avoid initialisation cycles
		}
		p.Used[c.name]++
		p.owner = f.Pkg
		c.fn(p, f, t)
		p.owner = nil
	}
	for e := 0; e < ninit; e++ {
		g := p.Pkgs[rnd.Intn(npkg)]
		t := target(g.initNode)
		c := initConstructs[rnd.Intn(len(initConstructs))]
		p.Used[c.name]++
		p.owner = g
		c.fn(p, g.initNode, t)
		p.owner = nil
	}
	return p
}

// finish completes the model: package initialisation calls the initialisation
// of imported packages.
func (p *Prog) finish() {
	for _, g := range p.Pkgs {
		for h := range g.importsOf {
			p.edge(g.initNode, h.initNode)
		}
	}
}

// Files renders the program.
func (p *Prog) Files() map[string]string {
	p.finish()
	p.filler = true
	files := map[string]string{
		"go.mod":   "module " + p.Mod + "\n\ngo 1.23\n",
		"rt/rt.go": rtSource,
	}
	for _, g := range p.Pkgs {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t%q\n", g.Name, p.Mod+"/rt")
		for _, im := range sortedKeys(g.imports) {
			fmt.Fprintf(&b, "\t%q\n", im)
		}
		b.WriteString(")\n\nvar _ = rt.One\n\n")
		for _, d := range g.decls {
			b.WriteString(d + "\n\n")
		}
		for _, n := range g.nodes {
			fmt.Fprintf(&b, "%s {\n", n.header)
			if !n.Sink {
				if n.ret == "" {
					b.WriteString("\tif !rt.Step() {\n\t\treturn\n\t}\n")
				}
			}
			for _, l := range n.body {
				b.WriteString("\t" + l + "\n")
			}
			if n.ret != "" {
				b.WriteString("\t" + n.ret + "\n")
			}
			b.WriteString("}\n\n")
		}
		files[g.Name+"/"+g.Name+".go"] = b.String()
	}
	if p.Stub {
		files["rt/rt.go"] = rtStub
		return files
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package main\n\nimport (\n\t%q\n", p.Mod+"/rt")
	for _, g := range p.Pkgs {
		fmt.Fprintf(&b, "\t%q\n", g.Path)
	}
	b.WriteString(")\n\nfunc main() {\n")
	for _, g := range p.Pkgs {
		used := false
		for _, n := range g.nodes {
			if !n.root || n.Sink {
				continue
			}
			used = true
			v := ""
			switch {
			case n.RType == "":
				v = g.Name + "." + n.Name
			case n.RType[0] == '*':
				v = "(&" + g.Name + "." + n.RType[1:] + "{})." + n.Name
			default:
				v = g.Name + "." + n.RType + "{}." + n.Name
			}
			fmt.Fprintf(&b, "\trt.Root(%q, %s)\n", n.SSA, v)
		}
		if !used {
			fmt.Fprintf(&b, "\t_ = %s.Keep\n", g.Name)
			files[g.Name+"/keep.go"] = "package " + g.Name + "\n\nconst Keep = 1\n"
		}
	}
	b.WriteString("\trt.Done()\n}\n")
	files["cmd/main.go"] = b.String()
	return files
}

// rtStub replaces rtSource in programs that are not executed.
const rtStub = `package rt

func Step() bool      { return true }
func One() int        { return 1 }
func Hit(name string) {}
`

// rtSource is the run-time support of generated programs: it bounds recursion
// and records the stack, including the stacks of ancestor goroutines, at every
// execution of a sink.
const rtSource = `package rt

import (
	"bufio"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	budget = 200
	seen   = map[string]bool{}
	roots  int
)

// Step reports whether the calling function should go on.
func Step() bool {
	mu.Lock()
	defer mu.Unlock()
	budget--
	return budget >= 0
}

func One() int { return 1 }

// Hit records the execution of a sink.
func Hit(name string) {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, false)]
	var frames []string
	fn := ""
	for _, l := range strings.Split(string(buf), "\n") {
		if strings.HasPrefix(l, "\t") {
			l = l[1:]
			if i := strings.Index(l, " +0x"); i >= 0 {
				l = l[:i]
			}
			frames = append(frames, fn+"|"+l)
			fn = ""
		} else {
			fn = strings.TrimPrefix(l, "created by ")
			if i := strings.Index(fn, " in goroutine"); i >= 0 {
				fn = fn[:i]
			}
			if i := strings.LastIndex(fn, "("); i > 0 && strings.HasSuffix(fn, ")") {
				fn = fn[:i]
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if len(seen) < 20000 {
		seen[name+"\x00"+strings.Join(frames, "\x00")] = true
	}
}

// Root runs one function of the program with a fresh budget.
func Root(name string, f func()) {
	mu.Lock()
	budget = 60
	roots++
	mu.Unlock()
	func() {
		defer func() {
			// Code that is cut short by the budget can leave variables unset.
			if e := recover(); e != nil {
				fmt.Fprintln(os.Stderr, "panic in", name, e)
			}
		}()
		f()
	}()
	for i := 0; i < 2000 && runtime.NumGoroutine() > 1; i++ {
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

// Done writes the recorded events to the file named by RT_OUT.
func Done() {
	mu.Lock()
	defer mu.Unlock()
	f, err := os.Create(os.Getenv("RT_OUT"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := bufio.NewWriter(f)
	var keys []string
	for k := range seen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Fprintf(w, "roots %d\n", roots)
	for _, k := range keys {
		fmt.Fprintf(w, "%q\n", k)
	}
	w.Flush()
	f.Close()
}
`
