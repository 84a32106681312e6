package main

import (
	"fmt"
	"strings"
)

func init() { checks["C07"] = checkC07 }

// parseDOT parses the subset of DOT that a digraph of quoted edges consists of
// and returns the edges with their names unquoted.
func parseDOT(s string) ([][2]string, error) {
	i := 0
	ws := func() {
		for i < len(s) && strings.IndexByte(" \t\r\n", s[i]) >= 0 {
			i++
		}
	}
	id := func() (string, bool, error) {
		ws()
		if i >= len(s) {
			return "", false, fmt.Errorf("unexpected end")
		}
		if s[i] != '"' {
			j := i
			for i < len(s) && (s[i] == '_' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] >= '0' && s[i] <= '9' || s[i] >= 0x80) {
				i++
			}
			if i == j {
				return "", false, fmt.Errorf("unexpected character %q at offset %d: ...%s", s[i], i, clip(s[i:], 40))
			}
			return s[j:i], false, nil
		}
		i++
		var b strings.Builder
		for {
			if i >= len(s) {
				return "", true, fmt.Errorf("unterminated string")
			}
			c := s[i]
			if c == '"' {
				i++
				return b.String(), true, nil
			}
			if c == '\\' && i+1 < len(s) && (s[i+1] == '"' || s[i+1] == '\\') {
				i++
				c = s[i]
			}
			b.WriteByte(c)
			i++
		}
	}
	kw, q, err := id()
	if err != nil {
		return nil, err
	}
	if q || kw != "digraph" {
		return nil, fmt.Errorf("does not start with digraph")
	}
	ws()
	if i < len(s) && s[i] != '{' {
		if _, _, err := id(); err != nil {
			return nil, err
		}
		ws()
	}
	if i >= len(s) || s[i] != '{' {
		return nil, fmt.Errorf("expected {")
	}
	i++
	var out [][2]string
	for {
		ws()
		if i >= len(s) {
			return nil, fmt.Errorf("missing }")
		}
		if s[i] == ';' {
			i++
			continue
		}
		if s[i] == '}' {
			i++
			ws()
			if i != len(s) {
				return nil, fmt.Errorf("text after }")
			}
			return out, nil
		}
		a, _, err := id()
		if err != nil {
			return nil, err
		}
		ws()
		if !strings.HasPrefix(s[i:], "->") {
			return nil, fmt.Errorf("expected -> after %q, found ...%s", a, clip(s[i:], 40))
		}
		i += 2
		b, _, err := id()
		if err != nil {
			return nil, err
		}
		out = append(out, [2]string{a, b})
	}
}

func checkC07(r *Run) {
	r.rule = "one evaluation = one graph parsed as DOT and compared, as a set of edges, with the exact subgraph; non-trivial = the expected graph is non-empty, distinguished by case and capability set"
	r.assume = []string{"edge multiplicity and order are not prescribed", "quoted names are read back with \\\" and \\\\ as escapes"}
	subjects := r.pathSubjects(r.pick(10, 100))
	subjects = append(subjects, r.oddNameSubjects()...)
	r.forEachRefCase(subjects, r.pick(2, 5), func(c *Case, rr *RefResult) {
		rnd := r.rng("caps/" + c.describe())
		var present []string
		for cp := range rr.Reach {
			present = append(present, cp)
		}
		sortStrings(present)
		for k := 0; k < r.pick(3, 6); k++ {
			cc := *c
			var has func(string) bool
			if k > 0 {
				cc.Caps = randomCaps(rnd, present)
				has = cc.capHas
			}
			args := cc.Args(r, "-output=graph")
			if k%2 == 1 {
				args = append(args, "-granularity="+[]string{"package", "function", "intermediate"}[rnd.Intn(3)])
			}
			res := r.capslock(c.S.Dir, args...)
			if res.Code != 0 {
				r.Violate("exit/"+c.describe(), fmt.Sprintf("graph output exited %d: %s", res.Code, clip(res.Err, 1000)), c.replay(r, args, nil), c.replayDir())
				continue
			}
			edges, err := parseDOT(res.Out)
			if err != nil {
				r.Violate("dot/"+c.describe(), fmt.Sprintf("graph output is not well-formed DOT: %v", err), c.replay(r, args, map[string]string{"graph.dot": res.Out}), c.replayDir())
				continue
			}
			got := map[string]bool{}
			for _, e := range edges {
				got[rr.rp.canon(e[0])+"\t"+rr.rp.canon(e[1])] = true
			}
			want := rr.GraphLines(has)
			if m, x := diffSets(got, want); len(m)+len(x) > 0 {
				r.Violate("graph/"+c.describe(), fmt.Sprintf("graph with capabilities %q: missing %q, unexpected %q", cc.Caps, head(m, 8), head(x, 8)), c.replay(r, args, map[string]string{"graph.dot": res.Out}), c.replayDir())
			}
			for _, e := range edges {
				if cp, ok := strings.CutPrefix(e[1], "CAPABILITY_"); ok && has != nil && !has(cp) {
					r.Violate("capset/"+c.describe(), fmt.Sprintf("graph with capabilities %q mentions %s", cc.Caps, e[1]), c.replay(r, args, nil), c.replayDir())
				}
			}
			r.Count("graph edges compared", len(want))
			r.Eval(caseKey(c, "caps "+cc.Caps, len(want)))
			if len(want) > 0 {
				r.Sample(map[string]any{"case": c.describe(), "capabilities": cc.Caps, "edges": len(want), "first": head(sortedKeys(want), 2)})
			}
		}
	})
	r.Require("graph edges compared", 1000)
	r.Require("capslock runs", 30)
}

// oddNameSubjects have functions whose names contain unusual characters.
func (r *Run) oddNameSubjects() []*Subject {
	src := "package a\n\nimport \"os\"\n\nfunc G[T any](t T) { os.Getenv(\"x\") }\n\ntype B[T any] struct{ v T }\n\nfunc (b B[T]) M() { os.Getpid() }\n\n"
	tags := []string{"`json:\"x\"`", "`a\\b`", "`tab\there`", "\"nl\\nq\\\"z\\\\\"", "`end\\`", "`\"`", "`\\\\\"`", "`->`", "`};`", "`é世`", "\"\\x00\\xff\"", "`CAPABILITY_FILES`", "`%s%d`", "`<b>`"}
	for i, t := range tags {
		src += fmt.Sprintf("func F%d() { G(struct{ X int %s }{}); B[struct{ Y string %s }]{}.M() }\n", i, t, t)
	}
	src += "func Ω() { func() { G[map[string]interface{ M(\"\"[0:0:0]) }](nil) }() }\n"
	src = src[:strings.LastIndex(src, "func Ω")] + "func Ω() { func() { G[map[string]interface{ M(...int) }](nil); G[<-chan struct{}](nil); G[func(int) (a, b string)](nil) }() }\n"
	return []*Subject{r.srcSubject("oddnames", map[string]string{"a/a.go": src, "b/é.go": "package b\n\nimport \"ex.com/m/a\"\n\nfunc Ünï() { a.Ω(); a.F1() }\n"})}
}
