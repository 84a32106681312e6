// Command vlib drives the capslock library: it executes a sequence of
// operations read as JSON from standard input and writes what each returned.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/types"
	"io"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"vmon/rule"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

// Op is one operation.
type Op struct {
	Op       string
	ID       string // name under which the result is stored
	Load     string // name of loaded packages
	Class    string // name of classifier
	Config   string // name of a stored Config to use
	Dir      string
	Patterns []string
	Tags     string
	GOOS     string
	GOARCH   string
	Text     string
	Source   string
	Exclude  bool
	FailAt   int
	Chunk    int
	Gran     string
	Caps     *string
	Omit     bool
	Disable  bool
	Output   string
	Args     []string
	Names    [][2]string
	Exprs    []string
	Groups   [][]Op
	Repeat   int
	Rule     *rule.Rule
	Query    []string // queried packages, for operation "custom"
}

// Res is the result of one operation.
type Res struct {
	Err   string   `json:",omitempty"`
	Out   string   `json:",omitempty"`
	List  []string `json:",omitempty"`
	Sub   [][]Res  `json:",omitempty"`
	Panic string   `json:",omitempty"`
}

type loaded struct {
	pkgs    []*packages.Package
	queried map[*types.Package]struct{}
}

type state struct {
	mu    sync.Mutex
	loads map[string]*loaded
	cls   map[string]*interesting.Classifier
	cfgs  map[string]*analyzer.Config
}

func (s *state) load(n string) *loaded {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.loads[n]
}

func (s *state) class(n string) *interesting.Classifier {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.cls[n]
}

type failReader struct {
	r     io.Reader
	left  int
	chunk int
}

var errRead = errors.New("simulated read failure")

func (f *failReader) Read(p []byte) (int, error) {
	if f.left == 0 {
		return 0, errRead
	}
	if f.chunk > 0 && len(p) > f.chunk {
		p = p[:f.chunk]
	}
	if f.left > 0 && len(p) > f.left {
		p = p[:f.left]
	}
	n, err := f.r.Read(p)
	if f.left > 0 {
		f.left -= n
	}
	return n, err
}

func (s *state) config(o *Op) (*analyzer.Config, error) {
	if o.Config != "" {
		s.mu.Lock()
		c := s.cfgs[o.Config]
		s.mu.Unlock()
		if c != nil {
			return c, nil
		}
	}
	cfg := &analyzer.Config{DisableBuiltin: o.Disable, OmitPaths: o.Omit}
	if c := s.class(o.Class); c != nil {
		cfg.Classifier = c
	} else {
		cfg.Classifier = analyzer.GetClassifier(false)
	}
	g, err := analyzer.GranularityFromString(o.Gran)
	if err != nil {
		return nil, err
	}
	cfg.Granularity = g
	if o.Caps != nil {
		cs, err := analyzer.NewCapabilitySet(*o.Caps)
		if err != nil {
			return nil, err
		}
		cfg.CapabilitySet = cs
	}
	if o.Config != "" {
		s.mu.Lock()
		s.cfgs[o.Config] = cfg
		s.mu.Unlock()
	}
	return cfg, nil
}

func (s *state) do(o *Op) (res Res) {
	defer func() {
		if e := recover(); e != nil {
			res.Panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
	}()
	fail := func(err error) Res { return Res{Err: err.Error()} }
	switch o.Op {
	case "load":
		if o.Dir != "" {
			if err := os.Chdir(o.Dir); err != nil {
				return fail(err)
			}
		}
		pkgs, err := analyzer.LoadPackages(o.Patterns, analyzer.LoadConfig{BuildTags: o.Tags, GOOS: o.GOOS, GOARCH: o.GOARCH})
		if err != nil {
			return fail(err)
		}
		for _, p := range pkgs {
			for _, e := range p.Errors {
				return fail(e)
			}
		}
		s.mu.Lock()
		s.loads[o.ID] = &loaded{pkgs, analyzer.GetQueriedPackages(pkgs)}
		s.mu.Unlock()
		for _, p := range pkgs {
			res.List = append(res.List, p.PkgPath)
		}
	case "classifier":
		var c *interesting.Classifier
		switch o.Source {
		case "default":
			c = interesting.DefaultClassifier()
		case "noisy":
			c = analyzer.GetClassifier(true)
		case "notnoisy":
			c = analyzer.GetClassifier(false)
		case "excluding":
			c = interesting.ClassifierExcludingUnanalyzed(s.class(o.Class))
		default:
			var rd io.Reader = strings.NewReader(o.Text)
			if o.FailAt != 0 || o.Chunk != 0 {
				left := o.FailAt - 1
				if o.FailAt == 0 {
					left = -1
				}
				rd = &failReader{rd, left, o.Chunk}
			}
			var err error
			c, err = interesting.LoadClassifier(o.Source, rd, o.Exclude)
			if err != nil {
				if c != nil {
					res.Out = "non-nil classifier with error"
				}
				res.Err = err.Error()
				return res
			}
		}
		if c == nil {
			return Res{Err: "nil classifier"}
		}
		s.mu.Lock()
		s.cls[o.ID] = c
		s.mu.Unlock()
	case "category":
		c := s.class(o.Class)
		for r := 0; r <= o.Repeat; r++ {
			res.List = nil
			for _, n := range o.Names {
				res.List = append(res.List, c.FunctionCategory(n[0], n[1]).String())
			}
		}
	case "capset":
		for _, e := range o.Exprs {
			cs, err := analyzer.NewCapabilitySet(e)
			if err != nil {
				if cs != nil {
					res.List = append(res.List, "error with non-nil set")
					continue
				}
				res.List = append(res.List, "error")
				continue
			}
			var in []string
			for v, n := range cpb.Capability_name {
				if cs.Has(cpb.Capability(v)) {
					in = append(in, n)
				}
			}
			sort.Strings(in)
			res.List = append(res.List, strings.Join(in, ","))
		}
	case "capnames":
		for _, n := range cpb.Capability_name {
			res.List = append(res.List, n)
		}
		sort.Strings(res.List)
	case "info", "counts", "stats", "graph", "run":
		l := s.load(o.Load)
		if l == nil {
			return Res{Err: "no packages " + o.Load}
		}
		cfg, err := s.config(o)
		if err != nil {
			return fail(err)
		}
		switch o.Op {
		case "info":
			res.Out = marshal(analyzer.GetCapabilityInfo(l.pkgs, l.queried, cfg))
		case "counts":
			b, err := compactJSON(analyzer.GetCapabilityCounts(l.pkgs, l.queried, cfg))
			if err != nil {
				return fail(err)
			}
			res.Out = string(b)
		case "stats":
			b, err := compactJSON(analyzer.GetCapabilityStats(l.pkgs, l.queried, cfg))
			if err != nil {
				return fail(err)
			}
			res.Out = string(b)
		case "graph":
			var filter func(cpb.Capability) bool
			if cfg.CapabilitySet != nil {
				filter = cfg.CapabilitySet.Has
			}
			analyzer.CapabilityGraph(l.pkgs, l.queried, cfg, nil,
				func(e *callgraph.Edge) {
					res.List = append(res.List, e.Caller.Func.String()+"\t"+e.Callee.Func.String())
				},
				func(n *callgraph.Node, c cpb.Capability) {
					res.List = append(res.List, n.Func.String()+"\t"+c.String())
				}, filter)
			sort.Strings(res.List)
		case "run":
			out, err := captureStdout(func() error {
				return analyzer.RunCapslock(o.Args, o.Output, l.pkgs, l.queried, cfg)
			})
			res.Out = out
			if err != nil {
				res.Err = err.Error()
			}
		}
	case "custom":
		return s.custom(o)
	case "sanity":
		// Check that the packages an analysis has worked on are still a
		// well-typed program: rebuild them with the SSA sanity checker.
		l := s.load(o.Load)
		prog, _ := ssautil.AllPackages(l.pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions)
		prog.Build()
		n := 0
		for range ssautil.AllFunctions(prog) {
			n++
		}
		res.Out = fmt.Sprint(n)
	case "parallel":
		res.Sub = make([][]Res, len(o.Groups))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, g := range o.Groups {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := range g {
					res.Sub[i] = append(res.Sub[i], s.do(&g[k]))
				}
			}()
		}
		close(start)
		wg.Wait()
	default:
		res.Err = "unknown op " + o.Op
	}
	return res
}

func marshal(cil *cpb.CapabilityInfoList) string {
	b, err := compactJSON(cil)
	if err != nil {
		return "marshal error: " + err.Error()
	}
	return string(b)
}

func captureStdout(f func() error) (string, error) {
	old := os.Stdout
	rp, wp, err := os.Pipe()
	if err != nil {
		return "", err
	}
	os.Stdout = wp
	done := make(chan string)
	go func() {
		var b bytes.Buffer
		io.Copy(&b, rp)
		done <- b.String()
	}()
	defer func() { os.Stdout = old }()
	err = f()
	wp.Close()
	return <-done, err
}

func main() {
	var ops []Op
	if err := json.NewDecoder(os.Stdin).Decode(&ops); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	s := &state{loads: map[string]*loaded{}, cls: map[string]*interesting.Classifier{}, cfgs: map[string]*analyzer.Config{}}
	var out []Res
	for i := range ops {
		out = append(out, s.do(&ops[i]))
	}
	f, err := os.Create(os.Getenv("VLIB_OUT"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := json.NewEncoder(f).Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f.Close()
}

// compactJSON returns m in JSON without the spacing that protojson varies from
// one binary to another.
func compactJSON(m proto.Message) ([]byte, error) {
	b, err := protojson.Marshal(m)
	if err != nil {
		return nil, err
	}
	var c bytes.Buffer
	if err := json.Compact(&c, b); err != nil {
		return nil, err
	}
	return c.Bytes(), nil
}
