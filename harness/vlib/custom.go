package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"sync/atomic"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
)

// ruleClassifier is a classifier that does not come from package interesting.
// It records how it is asked.
type ruleClassifier struct {
	o                              *Op
	categories, calls, notIncluded atomic.Int64
}

func (c *ruleClassifier) FunctionCategory(pkg, name string) cpb.Capability {
	c.categories.Add(1)
	return cpb.Capability(cpb.Capability_value["CAPABILITY_"+c.o.Rule.Category(pkg, name)])
}

func (c *ruleClassifier) IncludeCall(e *callgraph.Edge) bool {
	c.calls.Add(1)
	ok := c.o.Rule.Include(e)
	if !ok {
		c.notIncluded.Add(1)
	}
	return ok
}

// custom runs one kind of analysis, named by Output, with a classifier, queried
// packages and callbacks of its own.
func (s *state) custom(o *Op) (res Res) {
	l := s.load(o.Load)
	if l == nil {
		return Res{Err: "no packages " + o.Load}
	}
	cfg, err := s.config(o)
	if err != nil {
		return Res{Err: err.Error()}
	}
	cls := &ruleClassifier{o: o}
	cfg.Classifier = cls
	want := map[string]bool{}
	for _, q := range o.Query {
		want[q] = true
	}
	queried := map[*types.Package]struct{}{}
	packages.Visit(l.pkgs, nil, func(p *packages.Package) {
		if want[p.PkgPath] {
			queried[p.Types] = struct{}{}
		}
	})
	before, nq, set := *cfg, len(queried), cfg.CapabilitySet
	switch o.Output {
	case "info":
		res.Out = marshal(analyzer.GetCapabilityInfo(l.pkgs, queried, cfg))
	case "counts":
		b, err := compactJSON(analyzer.GetCapabilityCounts(l.pkgs, queried, cfg))
		if err != nil {
			return Res{Err: err.Error()}
		}
		res.Out = string(b)
	case "stats":
		b, err := compactJSON(analyzer.GetCapabilityStats(l.pkgs, queried, cfg))
		if err != nil {
			return Res{Err: err.Error()}
		}
		res.Out = string(b)
	case "machine":
		out, err := captureStdout(func() error {
			return analyzer.RunCapslock(nil, "machine", l.pkgs, queried, cfg)
		})
		res.Out = out
		if err != nil {
			return Res{Err: err.Error()}
		}
	case "graph":
		var filter func(cpb.Capability) bool
		current := "-"
		if o.Caps != nil {
			filter = func(c cpb.Capability) bool {
				current = c.String()
				res.List = append(res.List, "filter\t"+current)
				return set.Has(c)
			}
		}
		node := func(_, _ any, n *callgraph.Node) {
			res.List = append(res.List, "node\t"+current+"\t"+n.Func.String())
		}
		call := func(e *callgraph.Edge) {
			res.List = append(res.List, "call\t"+current+"\t"+e.Caller.Func.String()+"\t"+e.Callee.Func.String())
			if !o.Rule.Include(e) {
				res.List = append(res.List, "excluded\t"+current+"\t"+e.String())
			}
		}
		capability := func(n *callgraph.Node, c cpb.Capability) {
			res.List = append(res.List, "capability\t"+current+"\t"+n.Func.String()+"\t"+c.String())
		}
		graph(l.pkgs, queried, cfg, o.Repeat, node, call, capability, filter)
		sort.Strings(res.List)
	default:
		return Res{Err: "unknown output " + o.Output}
	}
	if !reflect.DeepEqual(before, *cfg) || cfg.CapabilitySet != set || nq != len(queried) {
		res.List = append(res.List, fmt.Sprintf("changed\tthe configuration or the queried packages were changed: %+v to %+v, %d to %d packages", before, *cfg, nq, len(queried)))
	}
	res.Sub = [][]Res{{{Out: fmt.Sprint(cls.categories.Load())}, {Out: fmt.Sprint(cls.calls.Load())}, {Out: fmt.Sprint(cls.notIncluded.Load())}}}
	return res
}

// graph calls CapabilityGraph with the callbacks selected by the bits of mask.
// The callback types mention unexported types, so the node callback is made
// from a generic function.
func graph(pkgs []*packages.Package, queried map[*types.Package]struct{}, cfg *analyzer.Config, mask int, node func(_, _ any, n *callgraph.Node), call analyzer.GraphOutputCallFn, capability analyzer.GraphOutputCapabilityFn, filter func(cpb.Capability) bool) {
	nf := adapt(node, analyzer.CapabilityGraph)
	if mask&1 == 0 {
		nf = nil
	}
	if mask&2 == 0 {
		call = nil
	}
	if mask&4 == 0 {
		capability = nil
	}
	analyzer.CapabilityGraph(pkgs, queried, cfg, nf, call, capability, filter)
}

// adapt makes a node callback; its second argument is only used to infer the
// types.
func adapt[M any, F ~func(M, *callgraph.Node, M), P, Q, C, G, H, I any](f func(_, _ any, n *callgraph.Node), _ func(P, Q, C, F, G, H, I)) F {
	return func(a M, n *callgraph.Node, b M) { f(a, b, n) }
}
