package main

// This file is the reference model: an independent, unoptimised implementation
// of what the report means, on top of the same (trusted) loader, SSA builder
// and VTA call-graph construction of x/tools.

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// A CapMap is a parsed capability map.
type CapMap struct {
	Func       map[string]string
	Unanalyzed map[string]bool
	Package    map[string]string
	Ignore     map[[2]string]bool
	Cgo        []string
}

func newCapMap() *CapMap {
	return &CapMap{map[string]string{}, map[string]bool{}, map[string]string{}, map[[2]string]bool{}, nil}
}

// parseCapMap parses map text that is known to be well-formed.
func parseCapMap(text string) (*CapMap, error) {
	m := newCapMap()
	sc := bufio.NewScanner(strings.NewReader(text))
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		l, _, _ := strings.Cut(sc.Text(), "#")
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch {
		case f[0] == "func" && len(f) >= 3:
			m.Func[f[1]] = strings.TrimPrefix(f[2], "CAPABILITY_")
		case f[0] == "package" && len(f) >= 3:
			m.Package[f[1]] = strings.TrimPrefix(f[2], "CAPABILITY_")
		case f[0] == "unanalyzed" && len(f) >= 2:
			m.Unanalyzed[f[1]] = true
		case f[0] == "ignore_edge" && len(f) >= 3:
			m.Ignore[[2]string{f[1], f[2]}] = true
		case f[0] == "cgo_suffix" && len(f) >= 2:
			m.Cgo = append(m.Cgo, f[1])
		default:
			return nil, fmt.Errorf("cannot parse %q", l)
		}
	}
	return m, sc.Err()
}

func (m *CapMap) String() string {
	var out []string
	for k, v := range m.Func {
		out = append(out, "func "+k+" CAPABILITY_"+v)
	}
	for k, v := range m.Package {
		out = append(out, "package "+k+" CAPABILITY_"+v)
	}
	for k := range m.Unanalyzed {
		out = append(out, "unanalyzed "+k)
	}
	for k := range m.Ignore {
		out = append(out, "ignore_edge "+k[0]+" "+k[1])
	}
	for _, k := range m.Cgo {
		out = append(out, "cgo_suffix "+k)
	}
	sort.Strings(out)
	return strings.Join(out, "\n") + "\n"
}

// merge returns the map with the entries of user taking precedence.
func (m *CapMap) merge(user *CapMap) *CapMap {
	r := newCapMap()
	for _, s := range []*CapMap{m, user} {
		for k, v := range s.Func {
			r.Func[k] = v
		}
		for k, v := range s.Package {
			r.Package[k] = v
		}
		for k, v := range s.Unanalyzed {
			r.Unanalyzed[k] = v
		}
		for k, v := range s.Ignore {
			r.Ignore[k] = v
		}
		r.Cgo = append(r.Cgo, s.Cgo...)
	}
	return r
}

// withoutUnanalyzed is the map used with -noisy.
func (m *CapMap) withoutUnanalyzed() *CapMap {
	r := newCapMap().merge(m)
	r.Unanalyzed = map[string]bool{}
	for k, v := range r.Func {
		if v == "UNANALYZED" {
			delete(r.Func, k)
		}
	}
	for k, v := range r.Package {
		if v == "UNANALYZED" {
			delete(r.Package, k)
		}
	}
	return r
}

// category returns the category of a function, "" if it has none.
func (m *CapMap) category(pkg, name string) string {
	for _, s := range m.Cgo {
		if strings.HasSuffix(name, s) {
			return "CGO"
		}
	}
	if c, ok := m.Func[name]; ok {
		if c == "UNSPECIFIED" {
			return ""
		}
		return c
	}
	if m.Unanalyzed[name] {
		return "UNANALYZED"
	}
	if c := m.Package[pkg]; c != "UNSPECIFIED" {
		return c
	}
	return ""
}

var builtinOnce = sync.OnceValues(func() (*CapMap, error) {
	names, _ := filepath.Glob("/repo/interesting/*.cm")
	if len(names) == 0 {
		filepath.Walk("/repo", func(p string, fi os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(p, ".cm") {
				names = append(names, p)
			}
			return nil
		})
	}
	if len(names) == 0 {
		return nil, fmt.Errorf("no capability map found in /repo")
	}
	m := newCapMap()
	for _, n := range names {
		b, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		mm, err := parseCapMap(string(b))
		if err != nil {
			return nil, fmt.Errorf("%s: %v", n, err)
		}
		m = m.merge(mm)
	}
	return m, nil
})

// builtinMap returns the built-in map, read from its data file.
func (r *Run) builtinMap() *CapMap {
	m, err := builtinOnce()
	r.must(err)
	return m
}

// RefOpt says what to load.
type RefOpt struct {
	Dir      string
	Patterns []string
	Tags     string
	Env      []string
}

// A RefProg is a loaded program with its call graph.
type RefProg struct {
	Pkgs     []*packages.Package
	Prog     *ssa.Program
	All      map[*ssa.Function]bool
	Graph    *callgraph.Graph
	Nodes    []*callgraph.Node
	ByName   map[string][]*callgraph.Node
	Queried  map[*types.Package]bool
	aliases  map[string]string
	unsafeFn map[*ssa.Function]bool
	reflFn   map[*ssa.Function]bool
	noBody   map[*ssa.Function]bool
}

const refLoadMode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule

func refLoad(o RefOpt) (*RefProg, error) {
	cfg := &packages.Config{Mode: refLoadMode, Dir: o.Dir, Env: append(os.Environ(), o.Env...)}
	if o.Tags != "" {
		cfg.BuildFlags = []string{"-tags=" + o.Tags}
	}
	pkgs, err := packages.Load(cfg, o.Patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", clip(strings.Join(errs, "\n"), 2000))
	}
	return &RefProg{Pkgs: pkgs}, nil
}

// refBuild loads packages and builds the call graph.
func refBuild(o RefOpt) (*RefProg, error) {
	rp, err := refLoad(o)
	if err != nil {
		return nil, err
	}
	rw := newRefRewriter()
	packages.Visit(rp.Pkgs, nil, rw.pkg)
	rp.build()
	return rp, nil
}

func (rp *RefProg) build() {
	rp.Prog, _ = ssautil.AllPackages(rp.Pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	pkgs := rp.Prog.AllPackages()
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	for _, p := range pkgs {
		p.Build()
	}
	rp.findAliases()
	rp.All = ssautil.AllFunctions(rp.Prog)
	rp.addMethods()
	rp.Graph = vta.CallGraph(rp.All, nil)
	rp.ByName = map[string][]*callgraph.Node{}
	rp.Queried = map[*types.Package]bool{}
	for _, p := range rp.Pkgs {
		rp.Queried[p.Types] = true
	}
	for f, n := range rp.Graph.Nodes {
		if f == nil {
			continue
		}
		rp.Nodes = append(rp.Nodes, n)
		name := rp.name(f)
		rp.ByName[name] = append(rp.ByName[name], n)
	}
	rp.extras()
}

// findAliases records the names of alias types.  Identical types can appear
// under different names in the names of instances of generic functions; which
// one is used is not prescribed.
func (rp *RefProg) findAliases() {
	rp.aliases = map[string]string{"any": "interface{}", "byte": "uint8", "rune": "int32"}
	for _, p := range rp.Prog.AllPackages() {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || !tn.IsAlias() {
				continue
			}
			if a, ok := tn.Type().(*types.Alias); ok && a.TypeParams().Len() == 0 {
				rp.aliases[p.Pkg.Path()+"."+n] = types.Unalias(a).String()
			}
		}
	}
}

var typeToken = regexp.MustCompile(`[\pL\pN_./~-]+`)

// canon returns the canonical form of a function name.
func (rp *RefProg) canon(name string) string {
	i := strings.IndexByte(name, '[')
	if i < 0 {
		return name
	}
	rest := name[i:]
	for k := 0; k < 4; k++ {
		next := typeToken.ReplaceAllStringFunc(rest, func(t string) string {
			if a, ok := rp.aliases[t]; ok {
				return a
			}
			return t
		})
		if next == rest {
			break
		}
		rest = next
	}
	return name[:i] + rest
}

func (rp *RefProg) name(f *ssa.Function) string { return rp.canon(f.String()) }

// nodes returns the functions with the given name.
func (rp *RefProg) nodes(name string) []*callgraph.Node { return rp.ByName[rp.canon(name)] }

// addMethods adds all methods declared in the loaded root packages, and what
// they refer to, to the set of functions.
func (rp *RefProg) addMethods() {
	var work []*ssa.Function
	for _, p := range rp.Pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv == nil {
					continue
				}
				if obj, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
					if fn := rp.Prog.FuncValue(obj); fn != nil {
						work = append(work, fn)
					}
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if rp.All[f] {
			continue
		}
		rp.All[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						work = append(work, g)
					}
				}
			}
		}
	}
}

// fnPackage returns the package a function belongs to for reporting.
func fnPackage(f *ssa.Function) *types.Package {
	if f.Package() != nil {
		return f.Package().Pkg
	}
	return nil
}

// declPackage returns the package declaring the function, looking through
// generic instantiation; nil for wrappers.
func declPackage(f *ssa.Function) *types.Package {
	if p := fnPackage(f); p != nil {
		return p
	}
	if o := f.Origin(); o != nil {
		return fnPackage(o)
	}
	return nil
}

// extras finds the functions with capabilities deduced from source code.
func (rp *RefProg) extras() {
	rp.unsafeFn, rp.reflFn, rp.noBody = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	unsafeNodes := map[ast.Node]bool{}
	unsafeInit := map[*types.Package]bool{}
	packages.Visit(rp.Pkgs, nil, func(p *packages.Package) {
		for _, f := range p.Syntax {
			var stack []ast.Node
			ast.Inspect(f, func(n ast.Node) bool {
				if n == nil {
					stack = stack[:len(stack)-1]
					return true
				}
				stack = append(stack, n)
				call, ok := n.(*ast.CallExpr)
				if !ok || !isUnsafeConversion(p.TypesInfo, call) {
					return true
				}
				for i := len(stack) - 1; i >= 0; i-- {
					switch stack[i].(type) {
					case *ast.FuncDecl, *ast.FuncLit:
						unsafeNodes[stack[i]] = true
						return true
					}
				}
				unsafeInit[p.Types] = true
				return true
			})
		}
	})
	for f := range rp.All {
		if s := f.Syntax(); s != nil && unsafeNodes[s] {
			rp.unsafeFn[f] = true
		}
		if storesReflectValue(f) {
			rp.reflFn[f] = true
		}
	}
	for _, p := range rp.Prog.AllPackages() {
		if unsafeInit[p.Pkg] {
			if f := p.Func("init"); f != nil {
				rp.unsafeFn[f] = true
			}
		}
	}
	for _, n := range rp.Nodes {
		if n.Func.Blocks == nil && n.Func.Synthetic == "" {
			rp.noBody[n.Func] = true
		}
	}
}

func isUnsafePointerType(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return termsHave(tp.Constraint(), map[types.Type]bool{}, isUnsafePointerType)
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// termsHave reports whether some term of the constraint satisfies ok.
func termsHave(t types.Type, seen map[types.Type]bool, ok func(types.Type) bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Interface:
		for i := 0; i < u.NumEmbeddeds(); i++ {
			switch e := types.Unalias(u.EmbeddedType(i)).(type) {
			case *types.Union:
				for j := 0; j < e.Len(); j++ {
					if termsHave(e.Term(j).Type(), seen, ok) {
						return true
					}
				}
			default:
				if termsHave(e, seen, ok) {
					return true
				}
			}
		}
		return false
	default:
		return ok(t)
	}
}

func isUnsafeConversion(info *types.Info, call *ast.CallExpr) bool {
	tv, ok := info.Types[call.Fun]
	if !ok || !tv.IsType() || len(call.Args) != 1 {
		return false
	}
	if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
		return false
	}
	return isUnsafePointerType(info.Types[call.Args[0]].Type)
}

func hasReflectValue(t types.Type, seen map[types.Type]bool) bool {
	t = types.Unalias(t)
	if seen[t] {
		return false
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasReflectValue(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return hasReflectValue(u.Elem(), seen)
	}
	return false
}

func storesReflectValue(f *ssa.Function) bool {
	var local func(v ssa.Value) bool
	local = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Alloc:
			return !v.Heap && v.Parent() == f
		case *ssa.IndexAddr:
			return local(v.X)
		case *ssa.FieldAddr:
			return local(v.X)
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok || local(s.Addr) {
				continue
			}
			p, ok := types.Unalias(s.Addr.Type()).(*types.Pointer)
			if ok && hasReflectValue(p.Elem(), map[types.Type]bool{}) {
				return true
			}
		}
	}
	return false
}

// RefResult is the reference analysis of a program under one map.
type RefResult struct {
	rp      *RefProg
	cat     map[*callgraph.Node]string          // explicit category, including SAFE
	byCap   map[string]map[*callgraph.Node]bool // nodes having each capability
	Reach   map[string]map[*callgraph.Node]bool // nodes reaching each capability
	ignored func(e *callgraph.Edge) bool
	queried map[*types.Package]bool
}

func (rp *RefProg) analyze(m *CapMap, disableBuiltin bool) *RefResult {
	return rp.analyzeWith(m.category, func(e *callgraph.Edge) bool {
		if len(m.Ignore) == 0 {
			return false
		}
		return m.Ignore[[2]string{e.Caller.Func.String(), e.Callee.Func.String()}]
	}, rp.Queried, disableBuiltin)
}

func (rp *RefProg) analyzeWith(category func(pkg, name string) string, ignored func(e *callgraph.Edge) bool, queried map[*types.Package]bool, disableBuiltin bool) *RefResult {
	rr := &RefResult{rp: rp, ignored: ignored, queried: queried, cat: map[*callgraph.Node]string{}, byCap: map[string]map[*callgraph.Node]bool{}, Reach: map[string]map[*callgraph.Node]bool{}}
	add := func(c string, n *callgraph.Node) {
		if rr.byCap[c] == nil {
			rr.byCap[c] = map[*callgraph.Node]bool{}
		}
		rr.byCap[c][n] = true
	}
	for _, n := range rp.Nodes {
		f := n.Func
		if fnPackage(f) == nil {
			if f = f.Origin(); f == nil || fnPackage(f) == nil {
				continue
			}
		}
		if c := category(fnPackage(f).Path(), f.String()); c != "" {
			rr.cat[n] = c
			if c != "SAFE" {
				add(c, n)
			}
		}
	}
	if !disableBuiltin {
		for _, n := range rp.Nodes {
			// A finding from source code does not apply to a function with an
			// explicit category.
			if rr.cat[n] != "" {
				continue
			}
			if rp.unsafeFn[n.Func] {
				add("UNSAFE_POINTER", n)
			}
			if rp.reflFn[n.Func] {
				add("REFLECT", n)
			}
			if rp.noBody[n.Func] {
				add("ARBITRARY_EXECUTION", n)
			}
		}
	}
	for c := range rr.byCap {
		rr.Reach[c] = rr.closure(rr.byCap[c])
	}
	return rr
}

// closure returns the nodes from which a node in start can be reached.
func (rr *RefResult) closure(start map[*callgraph.Node]bool) map[*callgraph.Node]bool {
	vis := map[*callgraph.Node]bool{}
	var stack []*callgraph.Node
	for n := range start {
		vis[n] = true
		stack = append(stack, n)
	}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, e := range n.In {
			w := e.Caller
			if vis[w] || w.Func == nil || rr.cat[w] != "" || rr.ignored(e) {
				continue
			}
			vis[w] = true
			stack = append(stack, w)
		}
	}
	return vis
}

func (rr *RefResult) inQuery(n *callgraph.Node) bool {
	p := fnPackage(n.Func)
	return p != nil && rr.queried[p]
}

// FuncPairs returns the multiset of "function CAP" pairs.
func (rr *RefResult) FuncPairs() map[string]int {
	out := map[string]int{}
	for c, vis := range rr.Reach {
		for n := range vis {
			if rr.inQuery(n) {
				out[rr.rp.name(n.Func)+" "+c]++
			}
		}
	}
	return out
}

// PkgPairs returns the set of "package CAP" pairs.
func (rr *RefResult) PkgPairs() map[string]int {
	out := map[string]int{}
	for c, vis := range rr.Reach {
		for n := range vis {
			if rr.inQuery(n) {
				out[fnPackage(n.Func).Path()+" "+c] = 1
			}
		}
	}
	return out
}

// onPath returns, for one capability, the nodes and edges on call chains from
// queried functions to functions with the capability.
func (rr *RefResult) onPath(reach map[*callgraph.Node]bool, visitEdge func(e *callgraph.Edge)) map[*callgraph.Node]bool {
	vis := map[*callgraph.Node]bool{}
	var stack []*callgraph.Node
	for n := range reach {
		if rr.inQuery(n) {
			vis[n] = true
			stack = append(stack, n)
		}
	}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if rr.cat[n] != "" {
			continue
		}
		for _, e := range n.Out {
			if !reach[e.Callee] || rr.ignored(e) {
				continue
			}
			if visitEdge != nil {
				visitEdge(e)
			}
			if !vis[e.Callee] {
				vis[e.Callee] = true
				stack = append(stack, e.Callee)
			}
		}
	}
	return vis
}

// IntermediatePairs returns the pairs that must be reported and the pairs that
// may be reported because a compiler-generated wrapper is attributed to the
// package.
func (rr *RefResult) IntermediatePairs(has func(c string) bool) (must, may map[string]bool) {
	must, may = map[string]bool{}, map[string]bool{}
	for c, reach := range rr.Reach {
		if !has(c) {
			continue
		}
		for n := range rr.onPath(reach, nil) {
			if p := declPackage(n.Func); p != nil {
				must[p.Path()+" "+c] = true
				continue
			}
			for _, p := range wrapperPackages(n.Func) {
				may[p+" "+c] = true
			}
		}
	}
	return must, may
}

// wrapperPackages lists the packages a synthetic wrapper can be attributed to.
func wrapperPackages(f *ssa.Function) []string {
	var out []string
	addType := func(t types.Type) {
		if t == nil {
			return
		}
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			out = append(out, n.Obj().Pkg().Path())
		}
	}
	for _, p := range f.Params {
		addType(p.Type())
	}
	for _, p := range f.FreeVars {
		addType(p.Type())
	}
	if f.Signature != nil && f.Signature.Recv() != nil {
		addType(f.Signature.Recv().Type())
		if p := f.Signature.Recv().Pkg(); p != nil {
			out = append(out, p.Path())
		}
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		out = append(out, o.Pkg().Path())
	}
	return out
}

// GraphLines returns the set of graph lines "a -> b" (unquoted, with a tab
// between) expected for the given capability filter; has == nil means a single
// graph of all capabilities.
func (rr *RefResult) GraphLines(has func(c string) bool) map[string]bool {
	out := map[string]bool{}
	emit := func(reach map[*callgraph.Node]bool, caps []string) {
		nodes := rr.onPath(reach, func(e *callgraph.Edge) {
			out[rr.rp.name(e.Caller.Func)+"\t"+rr.rp.name(e.Callee.Func)] = true
		})
		for n := range nodes {
			for _, c := range caps {
				if rr.byCap[c][n] {
					out[rr.rp.name(n.Func)+"\tCAPABILITY_"+c] = true
				}
			}
		}
	}
	if has == nil {
		all := map[*callgraph.Node]bool{}
		var caps []string
		for c, vis := range rr.Reach {
			caps = append(caps, c)
			for n := range vis {
				all[n] = true
			}
		}
		emit(all, caps)
		return out
	}
	for c, vis := range rr.Reach {
		if has(c) {
			emit(vis, []string{c})
		}
	}
	return out
}

// position of an edge's call site.
func edgePos(e *callgraph.Edge) token.Position {
	return e.Caller.Func.Prog.Fset.Position(e.Pos())
}

// ---- rewriting of calls to sort and sync.Once ----

type refRewriter struct {
	zero, val, void types.TypeAndValue
}

func newRefRewriter() *refRewriter {
	ev := func(s string) types.TypeAndValue {
		tv, err := types.Eval(token.NewFileSet(), nil, token.NoPos, s)
		if err != nil {
			panic(err)
		}
		return tv
	}
	return &refRewriter{zero: ev("int(0)"), val: ev("func() int { return 0 }()"), void: ev("func() {}()")}
}

func (rw *refRewriter) lit(info *types.Info) ast.Expr {
	e := &ast.BasicLit{Kind: token.INT, Value: "0"}
	info.Types[e] = rw.zero
	return e
}

func (rw *refRewriter) setCallType(info *types.Info, call ast.Expr, sig *types.Signature) {
	switch r := sig.Results(); r.Len() {
	case 0:
		info.Types[call] = rw.void
	case 1:
		tv := rw.val
		tv.Type = r.At(0).Type()
		info.Types[call] = tv
	default:
		tv := rw.val
		tv.Type = r
		info.Types[call] = tv
	}
}

func (rw *refRewriter) pkg(p *packages.Package) {
	if p.TypesInfo == nil {
		return
	}
	info := p.TypesInfo
	for _, f := range p.Syntax {
		doList := func(l []ast.Stmt) {
			for i, s := range l {
				if b := rw.sortBlock(info, s); b != nil {
					l[i] = b
				}
			}
		}
		// The children of a replaced statement are still visited, through the
		// original statement: collect first.
		var once []*ast.ExprStmt
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.ExprStmt); ok {
				once = append(once, s)
			}
			return true
		})
		var lists [][]ast.Stmt
		var labeled []*ast.LabeledStmt
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				lists = append(lists, n.List)
			case *ast.CaseClause:
				lists = append(lists, n.Body)
			case *ast.CommClause:
				lists = append(lists, n.Body)
			case *ast.LabeledStmt:
				labeled = append(labeled, n)
			}
			return true
		})
		for _, s := range once {
			rw.once(info, s)
		}
		for _, l := range lists {
			doList(l)
		}
		for _, l := range labeled {
			if b := rw.sortBlock(info, l.Stmt); b != nil {
				l.Stmt = b
			}
		}
	}
}

// pkgFunc returns the name of the function of the named package that is called.
func pkgFunc(info *types.Info, call *ast.CallExpr, pkg string) string {
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	id, ok := sel.X.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := info.Uses[id].(*types.PkgName)
	if !ok || pn.Imported().Path() != pkg {
		return ""
	}
	return sel.Sel.Name
}

func (rw *refRewriter) sortBlock(info *types.Info, s ast.Stmt) ast.Stmt {
	es, ok := s.(*ast.ExprStmt)
	if !ok {
		return nil
	}
	call, ok := es.X.(*ast.CallExpr)
	if !ok || len(call.Args) != 1 {
		return nil
	}
	switch pkgFunc(info, call, "sort") {
	case "Sort", "Stable", "IsSorted":
	default:
		return nil
	}
	recv := call.Args[0]
	ms := types.NewMethodSet(info.TypeOf(recv))
	b := &ast.BlockStmt{}
	for _, m := range []struct {
		name string
		n    int
	}{{"Less", 2}, {"Swap", 2}, {"Len", 0}} {
		sel := ms.Lookup(nil, m.name)
		if sel == nil {
			return nil
		}
		id := ast.NewIdent(m.name)
		info.Uses[id] = sel.Obj()
		se := &ast.SelectorExpr{X: recv, Sel: id}
		info.Selections[se] = sel
		tv := rw.val
		tv.Type = sel.Type()
		info.Types[se] = tv
		c := &ast.CallExpr{Fun: se}
		for i := 0; i < m.n; i++ {
			c.Args = append(c.Args, rw.lit(info))
		}
		rw.setCallType(info, c, sel.Type().(*types.Signature))
		b.List = append(b.List, &ast.ExprStmt{X: c})
	}
	return b
}

func hasCall(e ast.Expr) bool {
	found := false
	if e == nil {
		return false
	}
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			found = true
		}
		return !found
	})
	return found
}

func (rw *refRewriter) once(info *types.Info, es *ast.ExprStmt) {
	call, ok := es.X.(*ast.CallExpr)
	if !ok {
		return
	}
	var fn ast.Expr
	switch pkgFunc(info, call, "sort") {
	case "Slice", "SliceStable":
		// The rewriting drops the slice, so it must not contain calls.
		if len(call.Args) == 2 && !hasCall(call.Args[0]) {
			fn = call.Args[1]
		}
	}
	if sel, ok := call.Fun.(*ast.SelectorExpr); ok && fn == nil && len(call.Args) == 1 && sel.Sel.Name == "Do" && !hasCall(sel.X) {
		if t := info.TypeOf(sel.X); t != nil {
			if p, ok := types.Unalias(t).(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "Once" {
				fn = call.Args[0]
			}
		}
	}
	if fn == nil {
		return
	}
	sig, ok := types.Unalias(info.TypeOf(fn)).(*types.Signature)
	if !ok {
		return
	}
	c := &ast.CallExpr{Fun: fn}
	for i := 0; i < sig.Params().Len(); i++ {
		c.Args = append(c.Args, rw.lit(info))
	}
	rw.setCallType(info, c, sig)
	es.X = c
}
