package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// APIOp is an exported function or method of a standard-library package.
type APIOp struct {
	Pkg  string // import path
	Name string // F, T.M or (*T).M
	Fn   string // name of the function that calls it
	Via  bool   // calls methods of an interface value that it is given
}

func (o APIOp) String() string { return o.Pkg + "." + o.Name }

// apiImports collects the imports that generated code needs.
type apiImports struct {
	self  *types.Package
	names map[string]string
	bad   bool
}

func (a *apiImports) qual(p *types.Package) string {
	if strings.Contains(p.Path(), "internal") || strings.HasPrefix(p.Path(), "vendor/") {
		a.bad = true
	}
	if p.Path() == "unsafe" {
		a.names["unsafe"] = "unsafe"
		return "unsafe"
	}
	n, ok := a.names[p.Path()]
	if !ok {
		n = fmt.Sprintf("p%d", len(a.names))
		a.names[p.Path()] = n
	}
	return n
}

// exportedType reports whether t can be written in another package.
func exportedType(t types.Type) bool {
	ok := true
	var rec func(t types.Type, depth int)
	rec = func(t types.Type, depth int) {
		if depth > 8 {
			return
		}
		switch t := t.(type) {
		case *types.Named:
			if t.Obj().Pkg() != nil && !t.Obj().Exported() {
				ok = false
			}
			for i := 0; i < t.TypeArgs().Len(); i++ {
				rec(t.TypeArgs().At(i), depth+1)
			}
		case *types.Alias:
			if t.Obj().Pkg() != nil && !t.Obj().Exported() {
				ok = false
			}
		case *types.TypeParam:
			ok = false
		case *types.Pointer:
			rec(t.Elem(), depth+1)
		case *types.Slice:
			rec(t.Elem(), depth+1)
		case *types.Array:
			rec(t.Elem(), depth+1)
		case *types.Chan:
			rec(t.Elem(), depth+1)
		case *types.Map:
			rec(t.Key(), depth+1)
			rec(t.Elem(), depth+1)
		case *types.Signature:
			for i := 0; i < t.Params().Len(); i++ {
				rec(t.Params().At(i).Type(), depth+1)
			}
			for i := 0; i < t.Results().Len(); i++ {
				rec(t.Results().At(i).Type(), depth+1)
			}
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				if !t.Field(i).Exported() {
					ok = false
				}
				rec(t.Field(i).Type(), depth+1)
			}
		case *types.Interface:
			for i := 0; i < t.NumMethods(); i++ {
				if !t.Method(i).Exported() {
					ok = false
				}
			}
		}
	}
	rec(t, 0)
	return ok
}

// loadAPI returns, for each standard-library package in paths, the source of
// a package with one function per exported operation, and the operations.
// Generic functions, and operations whose signatures mention types that
// cannot be written elsewhere, are left out.
func loadAPI(paths ...string) (map[string]string, []APIOp, error) {
	pkgs, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedTypes | packages.NeedImports | packages.NeedDeps, Env: os.Environ()}, paths...)
	if err != nil {
		return nil, nil, err
	}
	src := map[string]string{}
	var ops []APIOp
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, nil, p.Errors[0]
		}
		imp := &apiImports{self: p.Types, names: map[string]string{}}
		var b strings.Builder
		n := 0
		emit := func(name, recv, recvType string, sig *types.Signature, callee string) {
			imp2 := &apiImports{self: p.Types, names: map[string]string{}}
			for k, v := range imp.names {
				imp2.names[k] = v
			}
			var params, args, results []string
			via := false
			if recv != "" {
				params = append(params, recv+" "+recvType)
			}
			for i := 0; i < sig.Params().Len(); i++ {
				t := sig.Params().At(i).Type()
				if !exportedType(t) {
					return
				}
				if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
					via = true
				}
				a := fmt.Sprintf("a%d", i)
				if sig.Variadic() && i == sig.Params().Len()-1 {
					params = append(params, a+" ..."+types.TypeString(t.(*types.Slice).Elem(), imp2.qual))
					args = append(args, a+"...")
				} else {
					params = append(params, a+" "+types.TypeString(t, imp2.qual))
					args = append(args, a)
				}
			}
			for i := 0; i < sig.Results().Len(); i++ {
				results = append(results, "_")
			}
			if imp2.bad {
				return
			}
			fn := fmt.Sprintf("F%d", n)
			n++
			assign := ""
			if len(results) > 0 {
				assign = strings.Join(results, ", ") + " = "
			}
			fmt.Fprintf(&b, "func %s(%s) { %s%s(%s) }\n", fn, strings.Join(params, ", "), assign, callee, strings.Join(args, ", "))
			imp.names = imp2.names
			ops = append(ops, APIOp{p.PkgPath, name, fn, via})
		}
		scope := p.Types.Scope()
		for _, name := range scope.Names() {
			obj := scope.Lookup(name)
			if !obj.Exported() {
				continue
			}
			switch obj := obj.(type) {
			case *types.Func:
				sig := obj.Type().(*types.Signature)
				if sig.TypeParams().Len() > 0 {
					continue
				}
				emit(name, "", "", sig, imp.qual(p.Types)+"."+name)
			case *types.TypeName:
				named, ok := obj.Type().(*types.Named)
				if !ok || named.TypeParams().Len() > 0 || types.IsInterface(named) || obj.IsAlias() {
					continue
				}
				var ms []*types.Func
				direct := map[string]bool{}
				for i := 0; i < named.NumMethods(); i++ {
					if m := named.Method(i); m.Exported() {
						ms = append(ms, m)
						direct[m.Name()] = true
					}
				}
				// Promoted methods.
				set := types.NewMethodSet(types.NewPointer(named))
				for i := 0; i < set.Len(); i++ {
					if m := set.At(i).Obj().(*types.Func); m.Exported() && !direct[m.Name()] && !types.IsInterface(m.Type().(*types.Signature).Recv().Type()) {
						ms = append(ms, m)
					}
				}
				sort.Slice(ms, func(i, j int) bool { return ms[i].Name() < ms[j].Name() })
				for _, m := range ms {
					sig := m.Type().(*types.Signature)
					q := imp.qual(p.Types)
					if _, ptr := sig.Recv().Type().(*types.Pointer); ptr || !direct[m.Name()] {
						emit("(*"+name+")."+m.Name(), "r", "*"+q+"."+name, sig, "r."+m.Name())
					} else {
						emit(name+"."+m.Name(), "r", q+"."+name, sig, "r."+m.Name())
					}
				}
			}
		}
		var h strings.Builder
		h.WriteString("package ops\n\nimport (\n")
		for _, path := range sortedKeys(imp.names) {
			fmt.Fprintf(&h, "\t%s %q\n", imp.names[path], path)
		}
		h.WriteString(")\n\n")
		src[p.PkgPath] = h.String() + b.String()
	}
	return src, ops, nil
}
