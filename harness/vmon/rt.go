// Command vmon runs the runtime monitors for one property.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Run is the state of one check run: what was observed, and the verdict.
type Run struct {
	Prop     string
	Tier     string
	Seed     int64
	Level    string
	Scratch  string // private scratch directory, removed by the wrapper
	CLI      string // freshly built capslock
	GitDiff  string // freshly built capslock-git-diff
	Lib      string // freshly built vlib (library driver); may be empty
	box      *Box   // user that runs destructive code; may be nil
	LibRace  string // vlib with the race detector; may be empty
	start    time.Time
	mu       sync.Mutex
	evals    int
	distinct map[string]struct{}
	samples  []any
	cov      map[string]any
	counts   map[string]int
	rule     string
	assume   []string
	viol     []violation
	known    []knownFinding
	knownHit map[string]bool
	seen     map[string]bool
}

type violation struct {
	key, desc, replay string
}

type knownFinding struct {
	prop, key, desc string
}

func newRun(prop string) *Run {
	r := &Run{
		Prop:     prop,
		Tier:     os.Getenv("VERIF_TIER"),
		Level:    "exploration",
		Scratch:  os.Getenv("VMON_SCRATCH"),
		CLI:      os.Getenv("VMON_CLI"),
		GitDiff:  os.Getenv("VMON_GITDIFF"),
		Lib:      os.Getenv("VMON_LIB"),
		LibRace:  os.Getenv("VMON_LIBRACE"),
		start:    time.Now(),
		distinct: map[string]struct{}{},
		cov:      map[string]any{},
		counts:   map[string]int{},
		knownHit: map[string]bool{},
		seen:     map[string]bool{},
	}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		r.Seed = s
	} else {
		r.Seed = 1
	}
	r.loadKnown()
	return r
}

func (r *Run) thorough() bool { return r.Tier == "thorough" }

// pick returns q in the quick tier and t in the thorough tier.
func (r *Run) pick(q, t int) int {
	if r.thorough() {
		return t
	}
	return q
}

// rng returns a generator for the named stream, determined by the seed.
func (r *Run) rng(stream string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", r.Seed, r.Prop, stream)
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

const verifDir = "/verif"

// loadKnown reads known_findings.txt.  Lines have the form
//
//	finding: property=<id> key=<key> <description>
//	fixed: property=<id> <commit> <description>
func (r *Run) loadKnown() {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "finding:" {
			continue
		}
		p := strings.TrimPrefix(f[1], "property=")
		k := strings.TrimPrefix(f[2], "key=")
		r.known = append(r.known, knownFinding{p, k, strings.Join(f[3:], " ")})
	}
}

// Eval records that one case was evaluated.  If nontrivial is non-empty it is
// the identity of the non-trivial behaviour that was observed.
func (r *Run) Eval(nontrivial string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if nontrivial != "" {
		if len(nontrivial) > 200 {
			h := fnv.New64a()
			h.Write([]byte(nontrivial))
			nontrivial = nontrivial[:80] + fmt.Sprintf("#%x", h.Sum64())
		}
		r.distinct[nontrivial] = struct{}{}
	}
}

// Count adds n to the named counter of observed events.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counts[name] += n
}

// Sample keeps up to 6 example cases for the evidence file.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
}

// Violate records a violation.  key identifies the failing input or call site;
// files is what is needed to replay it (name to content), and dir, if
// non-empty, a directory whose contents are copied.
func (r *Run) Violate(key, desc string, files map[string]string, dir string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	key = strings.Join(strings.Fields(key), "_")
	for _, k := range r.known {
		if k.prop == r.Prop && k.key == key {
			if !r.knownHit[key] {
				r.knownHit[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.desc)
			}
			return
		}
	}
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	replay := filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%d", r.Prop, len(r.viol)))
	if len(r.viol) < 5 {
		os.RemoveAll(replay)
		os.MkdirAll(replay, 0o755)
		os.WriteFile(filepath.Join(replay, "what.txt"), []byte(fmt.Sprintf("property %s seed %d tier %s\nkey %s\n%s\n", r.Prop, r.Seed, r.Tier, key, desc)), 0o644)
		for n, c := range files {
			p := filepath.Join(replay, n)
			os.MkdirAll(filepath.Dir(p), 0o755)
			os.WriteFile(p, []byte(c), 0o644)
		}
		if dir != "" {
			exec.Command("cp", "-r", dir, filepath.Join(replay, "dir")).Run()
		}
	} else {
		replay = filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%d", r.Prop, 0))
	}
	r.viol = append(r.viol, violation{key, desc, replay})
	fmt.Printf("violation %s: %s\n", key, clip(desc, 1500))
}

func (r *Run) tooMany() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol) >= 20
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(clipped)"
	}
	return s
}

// Require fails the run as inconclusive if it did not observe enough.
func (r *Run) Require(name string, min int) {
	if r.counts[name] < min {
		r.inconclusive("observed only %d %s, need %d", r.counts[name], name, min)
	}
}

type inconclusiveError struct{ msg string }

func (r *Run) inconclusive(format string, args ...any) {
	panic(inconclusiveError{fmt.Sprintf(format, args...)})
}

func (r *Run) finish(fatal string) int {
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.rule,
		"samples":             r.samples,
		"observed":            r.counts,
	}
	for k, v := range r.cov {
		cov[k] = v
	}
	var kh []string
	for k := range r.knownHit {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	if len(kh) > 0 {
		cov["known_findings_seen"] = kh
	}
	if fatal != "" {
		cov["inconclusive"] = fatal
	}
	ev := map[string]any{
		"property":    r.Prop,
		"tier":        r.Tier,
		"seed":        r.Seed,
		"level":       r.Level,
		"coverage":    cov,
		"assumptions": r.assume,
		"wall_s":      float64(time.Since(r.start).Milliseconds()) / 1000,
		"violations":  len(r.viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "writing evidence:", err)
		return 3
	}
	if len(r.viol) > 0 {
		if fatal != "" {
			fmt.Println("not completed:", fatal)
		}
		for _, v := range r.viol {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, v.replay)
		}
		return 1
	}
	if fatal != "" {
		fmt.Println("INCONCLUSIVE:", fatal)
		return 3
	}
	fmt.Printf("property %s held: %d evaluations, %d distinct non-trivial, observed %v, %.1fs\n", r.Prop, r.evals, len(r.distinct), r.counts, time.Since(r.start).Seconds())
	return 0
}

// Result is what a finished process did.
type Result struct {
	Code    int
	Out     string
	Err     string
	Timeout bool
	Signal  bool
}

// CmdOpt describes how to run a process.
type CmdOpt struct {
	Dir     string
	Env     []string // extra environment entries
	Stdin   string
	Timeout time.Duration
	Stdout  *os.File // if set, stdout goes here instead of Result.Out
	Stderr  *os.File
	As      *Box // if set, run as the unprivileged user
}

var procSem = make(chan struct{}, 8)

// runCmd runs a process to completion.  The watchdog timeout is generous; its
// firing is never a violation.
func runCmd(o CmdOpt, name string, args ...string) Result {
	procSem <- struct{}{}
	defer func() { <-procSem }()
	if o.Timeout == 0 {
		o.Timeout = 240 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), o.Timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = o.Dir
	cmd.Env = os.Environ()
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if o.As != nil {
		cmd.Env = append(cmd.Env, o.As.Env...)
		if o.As.Uid != 0 {
			cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(o.As.Uid), Gid: uint32(o.As.Uid)}
		}
	}
	cmd.Env = append(cmd.Env, o.Env...)
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if o.Stdout != nil {
		cmd.Stdout = o.Stdout
	}
	if o.Stderr != nil {
		cmd.Stderr = o.Stderr
	}
	if o.Stdin != "" {
		cmd.Stdin = strings.NewReader(o.Stdin)
	}
	err := cmd.Run()
	res := Result{Out: out.String(), Err: errb.String()}
	if ctx.Err() != nil {
		res.Timeout = true
		res.Code = -1
		return res
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		res.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.Signal = true
		}
	} else if err != nil {
		res.Code = -1
		res.Err += "\n" + err.Error()
	}
	return res
}

// capslock runs the capslock command in dir.
func (r *Run) capslock(dir string, args ...string) Result {
	return r.capslockOpt(CmdOpt{Dir: dir}, args...)
}

func (r *Run) capslockOpt(o CmdOpt, args ...string) Result {
	res := runCmd(o, r.CLI, args...)
	if res.Timeout {
		r.inconclusive("capslock %v in %s: watchdog timeout", args, o.Dir)
	}
	r.Count("capslock runs", 1)
	return res
}

// must fails the run as inconclusive when err is non-nil: an error of the
// check, not of the code under test.
func (r *Run) must(err error) {
	if err != nil {
		panic(inconclusiveError{err.Error()})
	}
}

// tmp creates a fresh directory in the scratch directory.
func (r *Run) tmp(prefix string) string {
	d, err := os.MkdirTemp(r.Scratch, prefix+"-")
	r.must(err)
	return d
}

// writeFiles writes a file tree.
func (r *Run) writeFiles(dir string, files map[string]string) {
	for n, c := range files {
		p := filepath.Join(dir, n)
		r.must(os.MkdirAll(filepath.Dir(p), 0o755))
		r.must(os.WriteFile(p, []byte(c), 0o644))
	}
}

// parallel runs f(0..n-1) on up to w workers and re-panics the first
// inconclusive error.
func (r *Run) parallel(n, w int, f func(i int)) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first any
	next := 0
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				stop := first != nil
				mu.Unlock()
				if i >= n || stop || r.tooMany() {
					return
				}
				func() {
					defer func() {
						if e := recover(); e != nil {
							if _, ok := e.(inconclusiveError); !ok {
								fmt.Fprintf(os.Stderr, "panic in case %d: %v\n", i, e)
								panic(e)
							}
							mu.Lock()
							if first == nil {
								first = e
							}
							mu.Unlock()
						}
					}()
					f(i)
				}()
			}
		}()
	}
	wg.Wait()
	if first != nil {
		panic(first)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// diffSets describes the difference between two sets of strings.
func diffSets(got, want map[string]bool) (missing, extra []string) {
	for k := range want {
		if !got[k] {
			missing = append(missing, k)
		}
	}
	for k := range got {
		if !want[k] {
			extra = append(extra, k)
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	return
}

func head(ss []string, n int) []string {
	if len(ss) > n {
		return append(append([]string{}, ss[:n]...), fmt.Sprintf("(%d more)", len(ss)-n))
	}
	return ss
}
