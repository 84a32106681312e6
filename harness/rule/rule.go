// Package rule defines pseudo-random classifiers, shared by the library driver
// and the reference analysis.
package rule

import (
	"fmt"
	"hash/fnv"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/callgraph"
)

// A Rule categorises functions and includes calls depending on their names and
// the position of the call.
type Rule struct {
	Seed int64
	Rate int      // categorised functions per thousand
	Safe int      // of these, percentage categorised as safe
	Excl int      // percentage of calls that are excluded
	Caps []string // capabilities to choose from
	Own  string   // prefix of packages in which single call sites are distinguished
}

func (r *Rule) hash(parts ...string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d", r.Seed)
	for _, p := range parts {
		h.Write([]byte{0})
		h.Write([]byte(p))
	}
	// Mix, because the low bits of FNV hashes of similar strings are similar.
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

// Category returns the capability of a function without the prefix CAPABILITY_.
func (r *Rule) Category(pkg, name string) string {
	if strings.Contains(name, "[") {
		// Type arguments can be spelled in several ways.
		return "UNSPECIFIED"
	}
	h := r.hash("function", pkg, name)
	if int(h%1000) >= r.Rate || len(r.Caps) == 0 {
		return "UNSPECIFIED"
	}
	h /= 1000
	if int(h%100) < r.Safe {
		return "SAFE"
	}
	return r.Caps[int(h/100)%len(r.Caps)]
}

// Include says whether a call is to be followed.
func (r *Rule) Include(e *callgraph.Edge) bool {
	if r.Excl == 0 || e.Caller.Func == nil || e.Callee.Func == nil {
		return true
	}
	from, to := e.Caller.Func.String(), e.Callee.Func.String()
	if strings.Contains(from, "[") || strings.Contains(to, "[") {
		return true
	}
	site := ""
	if p := e.Caller.Func.Package(); r.Own != "" && p != nil && strings.HasPrefix(p.Pkg.Path(), r.Own) {
		pos := e.Caller.Func.Prog.Fset.Position(e.Pos())
		site = fmt.Sprintf("%s:%d:%d", filepath.Base(pos.Filename), pos.Line, pos.Column)
	}
	return int(r.hash("call", from, to, site)%100) >= r.Excl
}
