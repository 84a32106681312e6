package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"time"

	"vmon/rule"
)

// LibOp and LibRes mirror the protocol of the vlib command.
type LibOp struct {
	Op       string
	ID       string      `json:",omitempty"`
	Load     string      `json:",omitempty"`
	Class    string      `json:",omitempty"`
	Config   string      `json:",omitempty"`
	Dir      string      `json:",omitempty"`
	Patterns []string    `json:",omitempty"`
	Tags     string      `json:",omitempty"`
	GOOS     string      `json:",omitempty"`
	GOARCH   string      `json:",omitempty"`
	Text     string      `json:",omitempty"`
	Source   string      `json:",omitempty"`
	Exclude  bool        `json:",omitempty"`
	FailAt   int         `json:",omitempty"` // fail after FailAt-1 bytes
	Chunk    int         `json:",omitempty"`
	Gran     string      `json:",omitempty"`
	Caps     *string     `json:",omitempty"`
	Omit     bool        `json:",omitempty"`
	Disable  bool        `json:",omitempty"`
	Output   string      `json:",omitempty"`
	Args     []string    `json:",omitempty"`
	Names    [][2]string `json:",omitempty"`
	Exprs    []string    `json:",omitempty"`
	Groups   [][]LibOp   `json:",omitempty"`
	Repeat   int         `json:",omitempty"`
	Rule     *rule.Rule  `json:",omitempty"`
	Query    []string    `json:",omitempty"`
}

type LibRes struct {
	Err   string
	Out   string
	List  []string
	Sub   [][]LibRes
	Panic string
}

// lib runs the library driver.  The process result is returned so that callers
// can look at sanitizer output; res is nil if the driver did not finish.
func (r *Run) lib(bin string, ops []LibOp, env ...string) ([]LibRes, Result) {
	b, err := json.Marshal(ops)
	r.must(err)
	out := filepath.Join(r.tmp("lib"), "out.json")
	pr := runCmd(CmdOpt{Stdin: string(b), Env: append(env, "VLIB_OUT="+out), Dir: r.Scratch, Timeout: 600 * time.Second}, bin)
	if pr.Timeout {
		r.inconclusive("library driver: watchdog timeout")
	}
	r.Count("library driver runs", 1)
	r.Count("library operations", len(ops))
	var res []LibRes
	data, err := os.ReadFile(out)
	if err != nil || json.Unmarshal(data, &res) != nil {
		return nil, pr
	}
	return res, pr
}

func opsJSON(ops []LibOp) string {
	b, _ := json.MarshalIndent(ops, "", " ")
	return string(b)
}
